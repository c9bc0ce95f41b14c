"""Property checks made of generated programs.

A generator (a module of /verif/gen) describes one case as JSON-able data and renders it as C++; several cases share one
program. The program compares what the library answers with the oracle and prints FAIL lines. A case whose program is
rejected by the compiler although the headers compile is a failure too. Failures are reduced by the generator's shrink().

A generator module defines:
  PRELUDE                 text before the cases (includes); COMMON helpers are added
  make(rng, tier)         -> case description
  render(desc, k)         -> text of namespace-level C++ that defines  void case_<k>()
  shrink(desc)            -> iterable of smaller descriptions
  nontrivial(desc)        -> bool
  labels(desc)            -> list of strings
  describe(desc)          -> short text for the samples
  AFTER                   (optional) text after the helpers
  COUNTS, BATCH           cases per variant and tier, cases per program
  VARIANTS                {tier: [variant names]}
"""
import hashlib
import json
import os
import random
import re
import subprocess
import threading
import time

COMMON = r'''
#include <cstdio>
#include <cstdlib>
#include <string>
static int g_case = -1;
static int g_fails = 0;
#define CHECK(cond, ...) do { if (!(cond)) { ++g_fails; std::printf("FAIL %d line %d: %s -- ", g_case, __LINE__, #cond); std::printf(__VA_ARGS__); std::printf("\n"); } } while (0)
'''
# Without optimisation and debug information: the programs are compiled once and run once.
FLAGS = {
    "clang14": ("clang++", ["-std=c++14"]),
    "clang17": ("clang++", ["-std=c++17"]),
    "clang20": ("clang++", ["-std=c++20"]),
    "gcc14": ("g++", ["-std=c++14"]),
    "gcc17": ("g++", ["-std=c++17"]),
    "gcc20": ("g++", ["-std=c++20"]),
}
# vptr: g++ reports the destruction of some diamonds although the program is fine
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]


class Runner:
    def __init__(self, ctx, gen, name):
        self.ctx, self.gen, self.name = ctx, gen, name
        self.dir = os.path.join(ctx["build"], "gen-" + name)
        os.makedirs(self.dir, exist_ok=True)
        self.extra = getattr(gen, "FLAGS", [])
        self.lock, self.headers = threading.Lock(), {}

    def text(self, descs):
        t = [self.gen.PRELUDE, COMMON, getattr(self.gen, "AFTER", "")]
        for k, d in enumerate(descs):
            t.append("namespace n%d {\n%s\n}\n" % (k, self.gen.render(d, k)))
        t.append("int main(int argc, char** argv) {\n    const int only = argc > 1 ? std::atoi(argv[1]) : -1;\n")
        for k in range(len(descs)):
            t.append("    if (only < 0 || only == %d) { g_case = %d; n%d::case_%d(); std::fflush(stdout); }\n" % (k, k, k, k))
        t.append("    return g_fails != 0 ? 1 : 0;\n}\n")
        return "".join(t)

    def build(self, descs, variant, tag, syntax=False):
        """Returns (exe, None) or (None, compiler output)."""
        cxx, flags = FLAGS[variant]
        src = os.path.join(self.dir, "%s-%s.cpp" % (tag, variant))
        exe = src[:-4]
        with open(src, "w") as f:
            f.write(self.text(descs))
        cmd = [cxx] + flags + SAN + ["-O0", "-w", "-I", os.path.join(self.ctx["repo"], "include"), "-I",
                                     os.path.join(self.ctx["verif"], "lib")] + self.extra + [src]
        cmd += ["-fsyntax-only"] if syntax else ["-o", exe]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            if " error: " not in r.stdout:
                raise RuntimeError("compiler failed on %s: %s" % (src, r.stdout[:3000]))
            return None, r.stdout
        return exe, None

    def headers_ok(self, variant):
        with self.lock:
            if variant not in self.headers:
                self.headers[variant] = self.build([], variant, "headers", True)[1] is None
            return self.headers[variant]

    def run(self, exe, only=None):
        """Returns {case: message} of the failing cases; -1 for a crash that no case can be blamed for."""
        try:
            r = subprocess.run([exe] + ([str(only)] if only is not None else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", timeout=120)
        except subprocess.TimeoutExpired:
            return {only if only is not None else -1: "does not end within 120 s"}
        fails = {}
        for line in r.stdout.split("\n"):
            m = re.match(r"FAIL (-?\d+) (.*)", line)
            if m:
                fails.setdefault(int(m.group(1)), m.group(2))
        if r.returncode not in (0, 1) or (r.returncode == 1 and not fails):
            fails.setdefault(only if only is not None else -1, "crash: exit %d %s" % (r.returncode, r.stderr[:1500]))
        return fails

    def judge(self, desc, variant, tag):
        """Message if the case fails on its own, else None."""
        exe, err = self.build([desc], variant, tag)
        if exe is None:
            first = [l for l in err.split("\n") if " error: " in l]
            return "rejected by the compiler: " + (first[0] if first else err[:500])
        f = self.run(exe, 0)
        os.unlink(exe)
        return f.get(0)

    def batch(self, descs, variant, tag):
        """Returns [(index, message)]."""
        exe, err = self.build(descs, variant, tag)
        bad = []
        if exe is None:
            if not self.headers_ok(variant):
                raise RuntimeError("the headers do not compile (%s):\n%s" % (variant, err[:3000]))
            for i, d in enumerate(descs):
                m = self.judge(d, variant, tag + "-%d" % i)
                if m:
                    bad.append((i, m))
                if len(bad) >= 2:
                    break
            if not bad:
                raise RuntimeError("a program is rejected although each of its cases compiles (%s):\n%s" % (variant, err[:3000]))
            return bad
        fails = self.run(exe)
        if -1 in fails:
            lost = fails.pop(-1)
            for i in range(len(descs)):
                if i not in fails:
                    fails.update(self.run(exe, i))
            if not fails:
                fails[0] = lost
        os.unlink(exe)
        return sorted(fails.items())

    def reduce(self, desc, variant, message, seconds):
        end = time.time() + seconds
        n = 0
        again = True
        while again and time.time() < end:
            again = False
            for cand in self.gen.shrink(desc):
                if time.time() > end:
                    break
                n += 1
                m = self.judge(cand, variant, "shrink-%d" % (n % 4))
                if m:
                    desc, message, again = cand, m, True
                    break
        return desc, message


def check(gen, name):
    """Makes the function the registry lists under `programs`."""

    def fn(ctx):
        run = Runner(ctx, gen, name)
        tier = ctx["tier"]
        res = dict(evaluations=0, distinct_nontrivial=0, samples=[], labels={}, violations=[], errors=[], targets={})
        jobs = []
        distinct = set()
        for vi, variant in enumerate(gen.VARIANTS[tier]):
            total = max(1, int(gen.COUNTS[tier] * ctx.get("scale", 1.0)))
            for b in range(0, total, gen.BATCH):
                rng = random.Random("%s %d %d %d" % (name, ctx["seed"], vi, b))
                jobs.append((variant, b, [gen.make(rng, tier) for _ in range(min(gen.BATCH, total - b))]))
        for kname, (variant, desc) in getattr(gen, "KNOWN", {}).items():
            if run.judge(desc, variant, "known-" + kname):
                if kname in ctx["known"]:
                    res.setdefault("notes", []).append("KNOWN-FINDING: property=%s %s" % (ctx["pid"], ctx["known"][kname]))
                else:
                    jobs.append((variant, 900000, [desc]))
        found = []

        def one(job):
            if len(found) >= 6:
                return job, None, None
            variant, b, descs = job
            try:
                bad = run.batch(descs, variant, "b%d" % b)
                found.extend(bad)
                return job, bad, None
            except Exception as e:  # reported as an error of the check
                return job, [], "%s: %s" % (name, e)

        for (variant, b, descs), bad, err in ctx["pool"].map(one, jobs):
            if bad is None:
                continue
            if err:
                res["errors"].append(err)
                continue
            for d in descs:
                res["evaluations"] += 1
                if gen.nontrivial(d):
                    distinct.add(hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest())
                for l in gen.labels(d):
                    res["labels"][name + ":" + l] = res["labels"].get(name + ":" + l, 0) + 1
            if len(res["samples"]) < 3:
                res["samples"].append(dict(target=name, variant=variant, case=gen.describe(descs[0])[:1500]))
            for i, m in bad:
                if len(res["violations"]) >= 3:
                    break
                desc, msg = descs[i], m
                if run.judge(desc, variant, "confirm"):
                    desc, msg = run.reduce(desc, variant, m, 40)
                elif all(run.batch(descs, variant, "confirm") for _ in range(2)):
                    desc = None  # it only fails in company; the whole program is the replay
                else:
                    res["errors"].append("%s: a failure did not repeat (%s): %s" % (name, variant, m))
                    continue
                res["violations"].append(dict(
                    kind="program", generator=name, target=name, variant=variant, tier=tier, seed=ctx["seed"], failure="oracle",
                    message=msg, trace=gen.describe(desc if desc is not None else descs[i]), stderr="",
                    cases=[desc] if desc is not None else descs, text=run.text([desc] if desc is not None else descs)))
        res["distinct_nontrivial"] = len(distinct)
        res["targets"][name] = dict(evaluations=res["evaluations"], distinct_nontrivial=len(distinct),
                                    variants=list(gen.VARIANTS[tier]))
        return res

    fn.gen, fn.gen_name = gen, name
    return fn


def replay(gen, name, info, ctx):
    run = Runner(ctx, gen, name)
    bad = run.batch(info["cases"], info["variant"], "replay")
    for i, m in bad:
        print("case %d: %s" % (i, m))
    if bad:
        print("VIOLATION property=%s replay=%s" % (info["property"], ctx["path"]))
        return 1
    return 0
