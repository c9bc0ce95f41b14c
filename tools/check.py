#!/usr/bin/env python3
"""Decides one property: builds its targets from the working tree of /repo, runs them, writes evidence, prints the verdict.

  check.py <ID> [--tier quick|thorough] [--seed N]
  check.py --replay <replay.json>

Exit 0: the property held. Exit 1 and a line VIOLATION: it did not. Anything else: the check itself failed.
"""
import argparse
import array
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import registry  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 8))))

COMMON = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "lib"), "-g1", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
DBG = ["-DCETL_ENABLE_DEBUG_ASSERT=1"]
VARIANTS = {
    # name: (compiler, flags)
    "gcc14": ("g++", ["-std=c++14", "-O1"] + SAN + DBG),
    "gcc17": ("g++", ["-std=c++17", "-O1"] + SAN + DBG),
    "clang14": ("clang++", ["-std=c++14", "-O1"] + SAN + DBG),
    "clang17": ("clang++", ["-std=c++17", "-O1"] + SAN + DBG),
    "clang20": ("clang++", ["-std=c++20", "-O1"] + SAN + DBG),
    "gcc20": ("g++", ["-std=c++20", "-O1"] + SAN + DBG),
    "noexc14": ("clang++", ["-std=c++14", "-O1", "-fno-exceptions"] + SAN + DBG),
    "noexc17": ("clang++", ["-std=c++17", "-O1", "-fno-exceptions"] + SAN + DBG),
    "rel17": ("clang++", ["-std=c++17", "-O2"] + SAN),
    "rel14": ("g++", ["-std=c++14", "-O2"] + SAN),
    "noexcrel14": ("g++", ["-std=c++14", "-O2", "-fno-exceptions"] + SAN),
    "tsan": ("clang++", ["-std=c++17", "-O1", "-fsanitize=thread", "-pthread"] + DBG),
    "fuzz17": ("clang++", ["-std=c++17", "-O1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all",
                           "-fno-omit-frame-pointer", "-DPBT_LIBFUZZER=1"] + DBG),
}


def log(*a):
    print(*a, flush=True)


class CheckError(Exception):
    pass


class BuildFailure(CheckError):
    """The compiler rejected a harness."""

    def __init__(self, src, variant, extra, cmd, output):
        super().__init__("build of %s (%s) failed:\n%s\n%s" % (src, variant, " ".join(cmd), output[:6000]))
        self.src, self.variant, self.extra, self.cmd, self.output = src, variant, extra, cmd, output

    def is_violation(self):
        """True if a program that is valid for the documented interface is rejected although the headers compile."""
        if " error: " not in self.output or re.search(r"fatal error: (?!too many errors)", self.output):
            return False
        incs = set()
        todo = [os.path.join(VERIF, "harness", self.src + ".cpp")]
        seen = set()
        while todo:
            p = todo.pop()
            if p in seen or not os.path.exists(p):
                continue
            seen.add(p)
            with open(p) as f:
                for m in re.findall(r'^\s*#\s*include\s+[<"]([^">]+)[">]', f.read(), re.M):
                    if m.startswith("cetl/"):
                        incs.add(m)
                    else:
                        todo.append(os.path.join(VERIF, "lib", m))
                        todo.append(os.path.join(VERIF, "harness", m))
        body = "".join('#include "%s"\n' % i for i in sorted(incs)) + "int main() { return 0; }\n"
        cxx, flags = VARIANTS[self.variant]
        r = subprocess.run([cxx] + flags + COMMON + list(self.extra) + ["-fsyntax-only", "-x", "c++", "-"], input=body,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode == 0


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(VERIF, "lib")):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


_TREE = None


def build(src, variant, extra=(), tier="quick"):
    """Builds harness/<src>.cpp in a variant; returns the path of the binary. Cached on the content of all inputs."""
    global _TREE
    if _TREE is None:
        _TREE = tree_hash()
    cxx, flags = VARIANTS[variant]
    if tier == "quick":
        # The checks run once per build: compiling fast matters more than running fast.
        flags = ["-O0" if f in ("-O1", "-O2") else f for f in flags]
    path = os.path.join(VERIF, "harness", src + ".cpp")
    with open(path, "rb") as f:
        body = f.read()
    deps = b""
    for m in re.findall(rb'#include "([^"]+\.inc)"', body):
        with open(os.path.join(VERIF, "harness", m.decode()), "rb") as f:
            deps += f.read()
    key = hashlib.sha256((_TREE + repr((cxx, flags, list(extra), COMMON))).encode() + body + deps).hexdigest()
    d = os.path.join(BUILD, "%s-%s-%s-%s" % (src, variant, tier, "".join(re.findall(r"[A-Za-z0-9]", "".join(extra)))))
    exe = os.path.join(d, "run")
    stamp = os.path.join(d, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    os.makedirs(d, exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    cmd = [cxx] + flags + COMMON + list(extra) + [path, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildFailure(src, variant, list(extra), cmd, r.stdout)
    os.replace(tmp, exe)
    with open(stamp, "w") as f:
        f.write(key)
    return exe


def list_targets(exe):
    r = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, timeout=60)
    if r.returncode != 0:
        raise CheckError("cannot list targets of " + exe)
    res = []
    for line in r.stdout.split("\n"):
        if line.strip():
            n, q, t = line.split()
            res.append((n, int(q), int(t)))
    return res


_failed_jobs = 0


def run_job(job):
    global _failed_jobs
    (exe, _), variant, src, target, seed, begin, cases, tier, tmo, report, hashes = job
    if _failed_jobs >= 8:
        return job, 0, None, "skipped"
    for p in (report, hashes):
        if os.path.exists(p):
            os.unlink(p)
    cmd = [exe, "--target", target, "--seed", str(seed), "--begin", str(begin), "--cases", str(cases), "--tier", tier,
           "--time", str(tmo), "--report", report, "--hashes", hashes, "--shrink", "30" if _failed_jobs < 3 else "5"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                       timeout=tmo + 400)
    rep = None
    if os.path.exists(report):
        with open(report, encoding="latin-1") as f:
            rep = json.load(f)
    if r.returncode == 1 and not target.startswith("known_"):
        _failed_jobs += 1
    return job, r.returncode, rep, r.stderr


def write_evidence(pid, ev):
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


def save_replay(pid, info):
    d = os.path.join(OUT, pid)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "replay-%s-%s.json" % (info["target"], info.get("variant", "py")))
    with open(p, "w") as f:
        json.dump(info, f, indent=1)
        f.write("\n")
    return p


def known_findings(pid):
    """Lines `known: property=<ID> finding=<name> <what fails>` of known_findings.txt."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) finding=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def check(pid, tier, seed, only=None, scale=1.0):
    t0 = time.time()
    spec = registry.PROPS[pid]
    outdir = os.path.join(OUT, pid, "jobs")
    shutil.rmtree(os.path.join(OUT, pid), ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    scale *= spec.get("scale", {}).get(tier, 1.0)
    budget = 420 if tier == "quick" else 3 * 3600
    known = known_findings(pid)

    violations = []
    notes = []
    evaluations = 0
    nontrivial = 0
    labels = {}
    samples = []
    per_target = {}
    truncated = False
    hashset = {}

    with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
        # --- build ---
        futs = {}
        for src, variants, extra in spec.get("units", []):
            for v in variants[tier] if isinstance(variants, dict) else variants:
                futs[pool.submit(build, src, v, extra, tier)] = (src, v, extra)
        exes = []
        for f, (src, v, extra) in futs.items():
            try:
                exes.append((src, v, f.result(), extra))
            except BuildFailure as e:
                if not e.is_violation():
                    raise
                first = [l for l in e.output.split("\n") if " error: " in l]
                violations.append(dict(property=pid, kind="build", source=src, variant=v, extra=list(extra), target="build-" + src,
                                       tier=tier, failure="build", message="a program using the documented interface is rejected: "
                                       + first[0], trace="\n".join(first[:10]), stderr=e.output[:4000]))
        build_s = time.time() - t0
        # --- plan ---
        jobs = []
        variants_of = {}
        for src, v, exe, extra in exes:
            variants_of.setdefault((src, tuple(extra)), []).append(v)
        deadline = max(60, budget - build_s)
        for src, v, exe, extra in exes:
            for name, q, th in list_targets(exe):
                if name.startswith("known_"):
                    continue
                if only and name not in only:
                    continue
                cases = int((q if tier == "quick" else th) * scale)
                if cases <= 0:
                    continue
                # Every variant of a unit runs its own share of the cases, on disjoint case numbers.
                vi = variants_of[(src, tuple(extra))].index(v)
                shards = 4 if tier == "quick" else 16
                per = max(1, cases // shards)
                for s in range(shards):
                    begin = (vi * 100000000) + s * 5000000
                    tag = "%s-%s-%s-%d" % (src, v, name, s)
                    jobs.append(((exe, extra), v, src, name, seed, begin, per, tier, deadline,
                                 os.path.join(outdir, tag + ".json"), os.path.join(outdir, tag + ".bin")))
        # --- known findings are replayed, each on its own ---
        for src, v, exe, extra in exes:
            for name, q, th in list_targets(exe):
                if not name.startswith("known_"):
                    continue
                if name[6:] not in known:
                    jobs.append(((exe, extra), v, src, name, seed, 0, max(q, 1), tier, deadline,
                                 os.path.join(outdir, "%s-%s-%s.json" % (src, v, name)),
                                 os.path.join(outdir, "%s-%s-%s.bin" % (src, v, name))))
                    continue
                j = run_job(((exe, extra), v, src, name, seed, 0, max(q, 1), tier, deadline,
                             os.path.join(outdir, "%s-%s-%s.json" % (src, v, name)),
                             os.path.join(outdir, "%s-%s-%s.bin" % (src, v, name))))
                if j[1] == 1:
                    note = "KNOWN-FINDING: property=%s %s" % (pid, known[name[6:]])
                    if note not in notes:
                        notes.append(note)
                elif j[1] != 0:
                    raise CheckError("known finding %s: exit %d\n%s" % (name, j[1], j[3]))
        # --- programs written in Python (generated programs, fuzzing campaigns) ---
        pyfuts = []
        for fn in spec.get("programs", []):
            ctx = dict(pid=pid, scale=scale, repo=REPO, verif=VERIF, build=BUILD, out=os.path.join(OUT, pid), tier=tier, seed=seed, jobs=JOBS,
                       pool=pool, common=COMMON, variants=VARIANTS, known=known)
            pyfuts.append((fn, ctx))
        # --- run ---
        errors = []
        results = list(pool.map(run_job, jobs))
        for job, rc, rep, err in results:
            (exe, extra), v, src, name, sd, begin, cases = job[:7]
            if rc == 1 and rep and "failure" in rep:
                fl = rep["failure"]
                violations.append(dict(property=pid, kind="tape", source=src, variant=v, extra=list(extra), target=name, seed=sd, tier=tier,
                                       failure=fl["kind"], message=fl["message"], stderr=fl["stderr"], trace=fl["trace"],
                                       tape=fl["tape"], original_tape=fl.get("original_tape", [])))
                evaluations += rep["evaluations"]
                continue
            if rc == 0 and err == "skipped":
                continue  # enough violations were found
            if rc != 0 or rep is None:
                errors.append("target %s (%s, %s): exit %s\n%s" % (name, src, v, rc, err[:4000]))
                continue
            evaluations += rep["evaluations"]
            truncated = truncated or rep["truncated"]
            key = src + ":" + name
            pt = per_target.setdefault(key, dict(evaluations=0, nontrivial=0, variants=[]))
            pt["evaluations"] += rep["evaluations"]
            pt["nontrivial"] += rep["nontrivial"]
            if v not in pt["variants"]:
                pt["variants"].append(v)
            for k, n in rep["labels"].items():
                lk = key + ":" + k
                labels[lk] = labels.get(lk, 0) + n
            hs = hashset.setdefault(key, set())
            if os.path.exists(job[10]):
                a = array.array("Q")
                with open(job[10], "rb") as f:
                    a.frombytes(f.read())
                hs.update(a)
                os.unlink(job[10])
            if rep["samples"] and sum(1 for s in samples if s["target"] == key) < 2 and len(samples) < 40:
                samples.append(dict(target=key, variant=v, case=rep["samples"][-1][:1500]))
        for key, hs in hashset.items():
            per_target[key]["distinct_nontrivial"] = len(hs)
            nontrivial += len(hs)
        for fn, ctx in pyfuts:
            r = fn(ctx)
            evaluations += r["evaluations"]
            nontrivial += r["distinct_nontrivial"]
            samples += r.get("samples", [])
            labels.update(r.get("labels", {}))
            violations += [dict(v, property=pid) for v in r.get("violations", [])]
            errors += r.get("errors", [])
            notes += r.get("notes", [])
            per_target.update(r.get("targets", {}))
    shutil.rmtree(outdir, ignore_errors=True)

    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=evaluations, distinct_nontrivial=nontrivial, rule=spec["rule"], samples=samples,
                            targets=per_target, labels=labels, truncated=truncated, build_s=round(build_s, 1)),
              assumptions=spec.get("assumptions", []), violations=len(violations), wall_s=round(time.time() - t0, 2))
    write_evidence(pid, ev)
    for n in sorted(set(notes)):
        log(n)
    log("property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d violations=%d wall=%.1fs%s" % (
        pid, tier, seed, evaluations, nontrivial, len(violations), time.time() - t0, " (truncated)" if truncated else ""))
    seen = set()
    for v in violations:
        p = save_replay(pid, v)
        if p in seen:
            continue
        seen.add(p)
        log("  %s %s [%s]: %s %s" % (v.get("source", ""), v["target"], v.get("variant", ""), v["failure"], v["message"]))
        if len(seen) <= 3:
            log("    " + v.get("trace", "")[-1500:].replace("\n", "\n    "))
            log("    " + v.get("stderr", "")[:1200].replace("\n", "\n    "))
        log("VIOLATION property=%s replay=%s" % (pid, p))
    if violations:
        return 1
    if errors:
        for e in errors:
            sys.stderr.write(e + "\n")
        return 3
    if evaluations == 0:
        sys.stderr.write("nothing was evaluated\n")
        return 3
    return 0


def replay(path):
    info = json.load(open(path))
    if info.get("kind") == "tape":
        spec = registry.PROPS[info["property"]]
        exe = build(info["source"], info["variant"], info["extra"], info["tier"])
        r = subprocess.run([exe, "--target", info["target"], "--tier", info["tier"],
                            "--tape", ",".join(map(str, info["tape"]))])
        if r.returncode == 1:
            log("VIOLATION property=%s replay=%s" % (info["property"], path))
        return r.returncode
    if info.get("kind") == "build":
        try:
            build(info["source"], info["variant"], info["extra"], info["tier"])
        except BuildFailure as e:
            log(e.output[:6000])
            if e.is_violation():
                log("VIOLATION property=%s replay=%s" % (info["property"], path))
                return 1
            return 3
        return 0
    return registry.replay(info, dict(repo=REPO, verif=VERIF, build=BUILD, common=COMMON, variants=VARIANTS, path=path))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    return check(a.id, a.tier, a.seed, a.only, a.scale)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(3)
    except Exception:  # never an exit code that could be taken for a verdict
        import traceback
        traceback.print_exc()
        sys.exit(3)
