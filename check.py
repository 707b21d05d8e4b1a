#!/usr/bin/env python3
"""Builds the monitors of one property from /repo's working tree, runs them and judges what they observed.

usage: check.py C01 [--tier quick|thorough] [--seed N]
exit 0: held on everything explored; exit 1 with VIOLATION line: broken; exit 2: the check itself failed.
"""
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from plan import TUS, PROPS  # noqa: E402

CXX = "g++"
INC = ["-D_USE_MATH_DEFINES", "-I/usr/include/eigen3", "-I" + REPO, "-I" + os.path.join(HERE, "harness")]
BASE = ["-std=c++17", "-fconcepts", "-g1", "-w"]
SAN = {
    # the three excluded checks break constant expressions of function-pointer template arguments, not run-time code
    "asan": ["-O1", "-fno-omit-frame-pointer", "-fopenmp", "-fsanitize=address,undefined",
             "-fno-sanitize=null,nonnull-attribute,returns-nonnull-attribute", "-fno-sanitize-recover=all"],
    "serial": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
               "-fno-sanitize=null,nonnull-attribute,returns-nonnull-attribute", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-fopenmp"],
    "plain": ["-O1", "-fopenmp"],
    "single": ["-O1", "-fno-omit-frame-pointer"],
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "HeuristicFlow"), os.path.join(HERE, "harness")]
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(name, tu, th, bdir):
    if tu.get("script"):  # a monitor that builds what it watches
        return os.path.join(HERE, "harness", tu["script"]), ""
    san = tu.get("san", "asan")
    flags = BASE + SAN[san] + INC + tu.get("flags", [])
    key = hashlib.sha256((th + "|" + name + "|" + " ".join(flags) + json.dumps(tu, sort_keys=True)).encode()).hexdigest()[:20]
    out = os.path.join(bdir, name + "-" + key)
    if os.path.exists(out):
        return out, ""
    srcs = [os.path.join(HERE, "harness", s) for s in tu["src"]]
    tmp = out + ".tmp%d" % os.getpid()
    if tu.get("objs"):  # sources compiled separately with their own flags, then linked
        objs = []
        for i, s in enumerate(srcs):
            o = tmp + "." + str(i) + ".o"
            r = sh([CXX] + flags + tu["objs"].get(os.path.basename(s), []) + ["-c", s, "-o", o])
            if r.returncode:
                return None, r.stdout
            objs.append(o)
        r = sh([CXX] + flags + objs + tu["link"] + ["-o", tmp])
        for o in objs:
            os.unlink(o)
    else:
        r = sh([CXX] + flags + srcs + tu.get("link", []) + ["-o", tmp])
    if r.returncode:
        return None, r.stdout
    os.rename(tmp, out)
    for f in os.listdir(bdir):  # older builds of this unit
        if f.startswith(name + "-") and f != os.path.basename(out):
            try:
                os.unlink(os.path.join(bdir, f))
            except OSError:
                pass
    return out, ""


def short_san(log):
    """first meaningful lines of a sanitizer report"""
    keep = []
    for line in log.splitlines():
        if re.search(r"(ERROR: |runtime error|WARNING: ThreadSanitizer|== (?:Invalid|Conditional|Use of uninit|Syscall|Mismatched|Source and)|SUMMARY|Assertion|terminate called|what\(\))", line):
            keep.append(line.strip()[:300])
        elif re.match(r"\s+#[0-4] ", line) and "HeuristicFlow" in line:
            m = re.search(r"(HeuristicFlow/\S+)", line)
            if m:
                keep.append("  at " + m.group(1)[:160])
        if len(keep) > 8:
            break
    return " | ".join(keep)[:1200]


def run_part(binary, tu, part, seed, tier, outdir, cpu, extra_env=None):
    out = os.path.join(outdir, "%s-%s-%d-%d.json" % (os.path.basename(binary), part, seed, os.getpid()))
    log = out[:-5] + ".log"
    for p in (out, log):
        if os.path.exists(p):
            os.unlink(p)
    env = dict(os.environ)
    env.update({
        "OMP_NUM_THREADS": str(tu.get("threads", 2)), "OMP_WAIT_POLICY": "passive",
        "ASAN_OPTIONS": "abort_on_error=0:detect_leaks=%d:detect_stack_use_after_return=1:allocator_may_return_null=1:exitcode=77"
                        % tu.get("leaks", 1),
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
        "TSAN_OPTIONS": "halt_on_error=0:exitcode=77:second_deadlock_stack=1:report_signal_unsafe=0:history_size=5",
        "LSAN_OPTIONS": "exitcode=77",
    })
    env.update(tu.get("env", {}))
    if extra_env:
        env.update(extra_env)
    cmd = tu.get("wrap", []) + [binary, "--part", part, "--seed", str(seed + tu.get("seed_add", 0)), "--tier", tier, "--out", out, "--cpu", str(cpu)]
    wall = 780 if tier == "quick" else 7000
    try:
        with open(log, "wb") as lf:
            rc = subprocess.run(cmd, env=env, stdout=lf, stderr=subprocess.STDOUT, timeout=wall,
                                cwd=outdir).returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    with open(log, "rb") as lf:
        text = lf.read(400000).decode("utf-8", "replace")
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
    return {"rc": rc, "rep": rep, "log": text, "cmd": " ".join(cmd), "part": part, "seed": seed}


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
        elif args[i] == "--seed":
            seed = int(args[i + 1])
        i += 2
    spec = PROPS[prop]
    t0 = time.time()
    bdir = os.path.join(HERE, "build", prop)
    rdir = os.path.join(bdir, "run")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    stale = os.path.join(HERE, "evidence", "replay-%s.txt" % prop)
    if os.path.exists(stale):
        os.unlink(stale)
    th = tree_hash()
    errors, jobs, bins = [], [], {}
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {ex.submit(build, n, TUS[n], th, bdir): n for n in spec["tus"]}
        for f in cf.as_completed(futs):
            b, err = f.result()
            n = futs[f]
            if b is None:
                lines = [l[:300] for l in err.splitlines() if "error" in l][:6] or [err[:600]]
                errors.append("build of %s failed: %s" % (n, " || ".join(lines)))
            else:
                bins[n] = b
    for n, pats in spec["tus"].items():
        if n not in bins:
            continue
        r = sh([bins[n], "--list"], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        parts = [p for p in r.stdout.split() if any(fnmatch.fnmatch(p, pat) for pat in pats)]
        if not parts:
            errors.append("no part of %s matches %s: %s" % (n, pats, r.stdout[:200]))
        seeds = [seed]
        if tier == "thorough":
            seeds = [seed + 1000 * k for k in range(spec.get("thorough_seeds", 4))]
        for p in parts:
            for s in seeds:
                jobs.append((n, p, s))
    cpu = spec.get("cpu", 40)
    results = []

    def one(job):
        n, p, s = job
        r = run_part(bins[n], TUS[n], p, s, tier, rdir, cpu)
        hang = r["rep"] and any(v["key"] == "HANG" for v in r["rep"]["violations"])
        if hang or r["rc"] == "timeout" or (r["rep"] is None):
            r2 = run_part(bins[n], TUS[n], p, s, tier, rdir, 2 * cpu)  # a verdict needs the same ending twice
            r2["second"] = True
            r = r2
        return n, r

    with cf.ThreadPoolExecutor(spec.get("jobs", 8)) as ex:
        for n, r in ex.map(one, jobs):
            results.append((n, r))

    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    listed = {(k["property"], k["key"]): k for k in known.get("findings", [])}
    evaluations = distinct = 0
    counters, samples, viol, seen_known = {}, [], [], []
    for n, r in results:
        rep = r["rep"]
        if rep is None:
            errors.append("%s/%s ended with %s and no report: %s" % (n, r["part"], r["rc"], r["log"][-400:].replace("\n", " ")))
            continue
        evaluations += rep["evaluations"]
        distinct += rep["distinct"]
        for k, v in rep["counters"].items():
            counters[k] = counters.get(k, 0) + v
        samples += ["%s: %s" % (r["part"], s) for s in rep["samples"][:3]]
        own = False
        san = short_san(r["log"]) if r["rc"] not in (0, 1, 7) else ""
        for v in rep["violations"]:
            key = v["key"]
            if key == "CRASH":
                v = dict(v, detail=(san or v["detail"]))
            elif key == "HANG":
                pass
            elif not key.startswith(prop + "/"):
                continue
            own = True
            if (prop, key) in listed:
                seen_known.append((key, v))
            else:
                viol.append((key, v, n, r))
        if r["rc"] == 77 and not any(v["key"] == "CRASH" for v in rep["violations"]):
            # a sanitizer that reports at exit (leaks, races)
            key = "LEAK" if "LeakSanitizer" in r["log"] else ("RACE" if "ThreadSanitizer" in r["log"] else "SANITIZER")
            v = {"key": key, "detail": san, "case": rep.get("last_case", ""), "count": 1}
            if (prop, key) in listed:
                seen_known.append((key, v))
            else:
                viol.append((key, v, n, r))
            own = True
        if not rep["complete"] and not own:
            errors.append("%s/%s stopped early with %s: %s" % (n, r["part"], r["rc"], r["log"][-400:].replace("\n", " ")))
        if rep["complete"] and (rep["evaluations"] == 0 or rep["distinct"] == 0):
            errors.append("%s/%s observed nothing" % (n, r["part"]))
    for key in sorted({k for k, _ in seen_known}):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, listed[(prop, key)].get("what", "")))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": spec["rule"],
            "samples": samples[:24], "observed": counters, "parts": sorted({r["part"] for _, r in results}),
            "processes": len(results),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if viol:
        rep_path = os.path.join(HERE, "evidence", "replay-%s.txt" % prop)
        with open(rep_path, "w") as f:
            for key, v, n, r in viol:
                f.write("key: %s (x%d)\ncase: %s\nobserved: %s\nrebuild: python3 %s/check.py %s --seed %d --tier %s\nrun: %s\n\n" % (
                    key, v["count"], v["case"], v["detail"], HERE, prop, seed, tier, r["cmd"]))
                if key in ("CRASH", "LEAK", "RACE", "SANITIZER", "HANG"):
                    f.write("\n".join(l[:240] for l in r["log"].splitlines()[:60]) + "\n\n")
        for key, v, n, r in viol[:12]:
            print("%s (x%d) in [%s]: %s" % (key, v["count"], v["case"], v["detail"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, rep_path))
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e, file=sys.stderr)
        return 2
    print("%s held: %d cases, %d distinct, %d processes, %.1f s" % (prop, evaluations, distinct, len(results), time.time() - t0))
    return 0


sys.exit(main())
