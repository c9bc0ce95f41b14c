"""Property checks made of generated programs that must build, link and print the same in several configurations.

A generator module (of /verif/gen) defines:
  make(rng, tier)         -> case description
  files(descs)            -> [(name, text)]: the translation units of one program for these cases; for case k it prints the
                             lines that follow a line "== k" (once or several times)
  configs(desc, tier)     -> names (of CONFIGS) the case is built with; equal for all cases of a program
  expected(desc)          -> the lines that must be printed, or None: the same as in the other configurations
  shrink, nontrivial, labels, describe, COUNTS, BATCH as in progs.py
"""
import hashlib
import json
import os
import random
import subprocess
import time

CONFIGS = {
    "clang14": ["clang++", "-std=c++14"],
    "clang17": ["clang++", "-std=c++17"],
    "clang20": ["clang++", "-std=c++20"],
    "gcc14": ["g++", "-std=c++14"],
    "gcc17": ["g++", "-std=c++17"],
    "gcc20": ["g++", "-std=c++20"],
}
for _v in list(CONFIGS):
    CONFIGS[_v + "-noexc"] = CONFIGS[_v] + ["-fno-exceptions"]
    CONFIGS[_v + "-bare"] = CONFIGS[_v] + ["-fno-exceptions", "-fno-rtti"]
    CONFIGS[_v + "-assert"] = CONFIGS[_v] + ["-DCETL_ENABLE_DEBUG_ASSERT=1"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]


class Runner:
    def __init__(self, ctx, gen, name):
        self.ctx, self.gen, self.name = ctx, gen, name
        self.dir = os.path.join(ctx["build"], "diff-" + name)
        os.makedirs(self.dir, exist_ok=True)
        self.flags = ["-O0", "-w", "-I", os.path.join(ctx["repo"], "include"), "-I", os.path.join(ctx["verif"], "lib", "o1heap")]
        self.flags += SAN if getattr(gen, "SANITIZE", True) else []

    def one(self, descs, config, tag):
        """{case: text printed}, or a message."""
        srcs = []
        exe = os.path.join(self.dir, "%s-%s" % (tag, config))
        for name, text in self.gen.files(descs):
            srcs.append("%s-%s" % (exe, name))
            with open(srcs[-1], "w") as f:
                f.write(text)
        r = subprocess.run(CONFIGS[config] + self.flags + srcs + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        for s in srcs:
            os.unlink(s)
        if r.returncode != 0:
            lines = [l for l in r.stdout.split("\n") if "error:" in l or "multiple definition" in l or "undefined reference" in l]
            if not lines:
                raise RuntimeError("compiler failed (%s): %s" % (config, r.stdout[:2000]))
            return "%s: does not build: %s" % (config, lines[0].replace(self.dir, "")[:500])
        try:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
        except subprocess.TimeoutExpired:
            os.unlink(exe)
            return "%s: does not end within 120 s" % config
        os.unlink(exe)
        if p.returncode != 0:
            return "%s: exit %d %s" % (config, p.returncode, p.stderr[:800])
        out, cur = {}, None
        for line in p.stdout.split("\n"):
            if line.startswith("== "):
                cur = int(line[3:])
                out.setdefault(cur, [])
            elif cur is not None and line:
                out[cur].append(line)
        return out

    def compare(self, descs, tag):
        """[(index, message)]; index None: the program as a whole."""
        configs = self.gen.configs(descs[0], self.ctx["tier"])
        outs = {}
        for c in configs:
            r = self.one(descs, c, tag)
            if isinstance(r, str):
                return [(0 if len(descs) == 1 else None, r)]
            outs[c] = r
        bad = []
        for k, d in enumerate(descs):
            want, who = self.gen.expected(d), "expected"
            for c in configs:
                got = outs[c].get(k, [])
                if want is None:
                    want, who = got, c
                elif got != want:
                    i = next((i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1]), 0)
                    bad.append((k, "%s prints %s where %s is %s" % (c, got[i:i + 1] or "nothing", who, want[i:i + 1] or "nothing")))
                    break
        return bad

    def judge(self, desc, tag):
        bad = self.compare([desc], tag)
        return bad[0][1] if bad else None


def check(gen, name):
    def fn(ctx):
        run = Runner(ctx, gen, name)
        tier = ctx["tier"]
        res = dict(evaluations=0, distinct_nontrivial=0, samples=[], labels={}, violations=[], errors=[], targets={})
        total = max(1, int(gen.COUNTS[tier] * ctx.get("scale", 1.0)))
        jobs = []
        for b in range(0, total, gen.BATCH):
            rng = random.Random("%s %d %d" % (name, ctx["seed"], b))
            jobs.append((b, [gen.make(rng, tier) for _ in range(min(gen.BATCH, total - b))]))
        found, distinct = [], set()

        def one(job):
            b, descs = job
            if len(found) >= 4:
                return descs, None, None
            try:
                bad = run.compare(descs, "b%d" % b)
                if bad and bad[0][0] is None:
                    alone = []
                    for i, d in enumerate(descs):
                        m = run.judge(d, "b%d" % b)
                        if m:
                            alone.append((i, m))
                            break
                    bad = alone or bad
                found.extend(bad)
                return descs, bad, None
            except Exception as e:  # reported as an error of the check
                return descs, [], "%s: %s" % (name, e)

        for descs, bad, err in ctx["pool"].map(one, jobs):
            if bad is None:
                continue
            if err:
                res["errors"].append(err)
                continue
            for d in descs:
                res["evaluations"] += 1
                if gen.nontrivial(d):
                    distinct.add(hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest())
                for l in gen.labels(d):
                    res["labels"][name + ":" + l] = res["labels"].get(name + ":" + l, 0) + 1
            if len(res["samples"]) < 3:
                res["samples"].append(dict(target=name, variant=",".join(gen.configs(descs[0], tier)), case=gen.describe(descs[0])[:1500]))
            for i, m in bad[:1]:
                if len(res["violations"]) >= 2:
                    break
                cases, msg = descs, m
                if i is not None and run.judge(descs[i], "confirm"):
                    cases, msg = [descs[i]], m
                    end, again = time.time() + 60, True
                    while again and time.time() < end:
                        again = False
                        for cand in gen.shrink(cases[0]):
                            m2 = run.judge(cand, "shrink")
                            if m2:
                                cases, msg, again = [cand], m2, True
                                break
                            if time.time() > end:
                                break
                elif not all(run.compare(descs, "confirm") for _ in range(2)):
                    res["errors"].append("%s: a failure did not repeat: %s" % (name, m))
                    continue
                res["violations"].append(dict(
                    kind="program", generator=name, target=name, variant=",".join(gen.configs(cases[0], tier)), tier=tier, seed=ctx["seed"],
                    failure="oracle", message=msg, trace=gen.describe(cases[0]), stderr="", cases=cases,
                    text="\n".join("// %s\n%s" % f for f in gen.files(cases))))
        res["distinct_nontrivial"] = len(distinct)
        res["targets"][name] = dict(evaluations=res["evaluations"], distinct_nontrivial=len(distinct))
        return res

    return fn


def replay(gen, name, info, ctx):
    ctx["tier"] = info["tier"]
    bad = Runner(ctx, gen, name).compare(info["cases"], "replay")
    for i, m in bad:
        print("case %s: %s" % (i, m))
    if bad:
        print("VIOLATION property=%s replay=%s" % (info["property"], ctx["path"]))
        return 1
    return 0
