#!/usr/bin/env python3
"""C29: builds one program (outprog.cpp) in many ways, runs every build from the same random states, reads everything the library
prints and compares what the runs computed."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PARTS = ["builds"]
OUT = "-DHEU_DO_OUTPUT"
# (comparable class, flags): within a class every build has to compute the same
BUILDS = [("O1", ["-std=c++17", "-O1", "-fopenmp"]),
          ("O1", ["-std=c++17", "-O1", "-fopenmp", OUT]),
          ("O1", ["-std=c++17", "-O1", OUT]),
          ("O1", ["-std=c++17", "-O1", "-DNDEBUG"]),
          ("O1", ["-std=c++17", "-O1", "-fopenmp", "-DHEU_NO_THREADS", OUT]),
          ("O1", ["-std=c++20", "-O1", "-fopenmp", "-DNDEBUG"]),
          ("O1", ["-std=c++20", "-O1", OUT, "-DHEU_MAX_RUNTIME_OBJNUM=64"]),
          ("O2", ["-std=c++17", "-O2", "-fopenmp", "-DNDEBUG", OUT]),
          ("O2", ["-std=c++20", "-O2"]),
          ("O1", ["-std=c++17", "-O1", "-fopenmp", "-DHV_UNKNOWN_PROCESSORS"]),
          # what was never written reads differently in these
          ("O1", ["-std=c++17", "-O1", "-ftrivial-auto-var-init=pattern", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-DEIGEN_NO_DEBUG"]),
          ("O1", ["-std=c++17", "-O1", "-fopenmp", "-ftrivial-auto-var-init=zero", "-D_GLIBCXX_ASSERTIONS", OUT]),
          ("O2", ["-std=c++17", "-O2", "-fno-strict-aliasing", "-fwrapv", "-fno-exceptions", "-funsigned-char"]),
          ("clang", ["-std=c++17", "-O1", OUT]),
          ("clang", ["-std=c++20", "-O1", "-ftrivial-auto-var-init=pattern", "-DNDEBUG", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN"])]


def name(i):
    return " ".join(["clang++" if BUILDS[i][0] == "clang" else "g++"] + BUILDS[i][1])


def build(d, i):
    exe = os.path.join(d, "p%d" % i)
    flags = BUILDS[i][1]
    cmd = (["clang++"] if BUILDS[i][0] == "clang" else ["g++"] + (["-fconcepts"] if "-std=c++17" in flags else [])) + flags + [
        "-w", "-D_USE_MATH_DEFINES", "-I/usr/include/eigen3", "-I" + REPO, os.path.join(HERE, "outprog.cpp"), "-o", exe]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return exe if r.returncode == 0 else None, r.stdout[:600]


def play(d, i, exe, seed, n):
    base = os.path.join(d, "r%d-%d" % (i, seed))
    env = dict(os.environ, OMP_NUM_THREADS="2", OMP_WAIT_POLICY="passive", MALLOC_PERTURB_=str((37 * i + seed) % 255 + 1))
    with open(base + ".out", "wb") as o, open(base + ".err", "wb") as e, open(base + ".rep", "wb") as rp:
        try:
            rc = subprocess.run(["bash", "-c", "exec \"$0\" %d %d 3>&%d" % (seed, n, rp.fileno()), exe], stdout=o, stderr=e, env=env, cwd=d,
                                pass_fds=[rp.fileno()], timeout=600).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    texts = []
    for k in ("out", "err", "rep"):
        with open(base + "." + k, errors="replace") as f:
            texts.append(f.read())
        os.unlink(base + "." + k)
    return (rc,) + tuple(texts)


def sections(text):
    """what was printed in every run, and what was printed outside of all runs"""
    inside, outside, cur = {}, [], None
    for line in text.split("\n"):
        m = re.fullmatch(r"@@(run|end) (\d+)", line)
        if m:
            cur = int(m.group(2)) if m.group(1) == "run" else None
            if cur is not None:
                inside[cur] = []
        elif line.strip():
            (outside if cur is None else inside[cur]).append(line.strip())
    return inside, outside


def main():
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    if "--list" in sys.argv:
        print("\n".join(PARTS))
        return 0
    seed, tier = int(a.get("--seed", 1)), a.get("--tier", "quick")
    rounds, n = (8, 600) if tier == "quick" else (80, 2000)
    viol, samples, distinct = {}, [], set()
    counters = {"builds": 0, "runs_watched": 0, "runs_with_progress_output": 0, "generation_lines": 0, "stopped_by_generations": 0,
                "stopped_by_failures": 0, "silent_runs": 0, "results_compared": 0}

    def report(key, case, detail):
        v = viol.setdefault(key, {"key": key, "detail": detail[:600], "case": case, "count": 0})
        v["count"] += 1

    d = tempfile.mkdtemp(prefix="hfout")
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            exes = list(ex.map(lambda i: build(d, i), range(len(BUILDS))))
            if not any(e for e, _ in exes):
                print(exes[0][1])
                return 2
            for i, (e, msg) in enumerate(exes):
                if not e:
                    report("C29/does-not-compile", name(i), "a program that compiles otherwise does not: " + msg)
                else:
                    counters["builds"] += 1
            for k in range(rounds):
                s = seed * 1000 + k
                ref = {}
                jobs = [i for i in range(len(BUILDS)) if exes[i][0]]
                for i, (rc, out, err, rep) in zip(jobs, ex.map(lambda i: play(d, i, exes[i][0], s, n), jobs)):
                    cls, flags = BUILDS[i]
                    case = "%s, cases %d of seed %d" % (name(i), n, s)
                    lines = rep.split("\n")
                    if rc != 0 or "Z" not in lines:
                        report("C29/crash", case, "the program ends with %s after %d runs: %s" % (rc, sum(l.startswith("R ") for l in lines), err[-300:]))
                    judge(report, counters, samples, distinct, case, OUT in flags, out, err, lines)
                    # what the run computed, build by build
                    mine = [l.split(" ", 1)[1] if l.startswith("R ") else l for l in lines if l[:2] in ("R ", "N ", "D ")]
                    if cls not in ref:
                        ref[cls] = (mine, case)
                    else:
                        counters["results_compared"] += len(mine)
                        for x, y in zip(ref[cls][0], mine):
                            if x != y:
                                report("C29/build-changes-results", case, "[%s] instead of [%s] in the build %s" % (y, x, ref[cls][1]))
                                break
                if len(viol) > 4:
                    break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rep = {"part": "builds", "seed": seed, "complete": True, "evaluations": counters["runs_watched"], "distinct": len(distinct), "counters": counters,
           "samples": samples, "violations": list(viol.values()), "last_case": ""}
    if "--out" in a:
        json.dump(rep, open(a["--out"], "w"))
    for v in viol.values():
        print(v["key"], v["count"], v["case"], v["detail"])
    print(counters)
    return 1 if viol else 0


def judge(report, counters, samples, distinct, case, output, out, err, lines):
    inside, outside = sections(out)
    einside, eoutside = sections(err)
    for where, ls in [("stdout", outside), ("stderr", eoutside)]:
        if ls:
            report("C29/prints-outside-a-run", case, "%s: %s" % (where, " | ".join(ls[:3])))
    for i, line in enumerate(lines):
        if not line.startswith("R "):
            continue
        m = re.fullmatch(r"R (\d+) (.*) (\d) (\d+) (\d+) (\d+) (\d) (\d+) ([0-9a-f]+) ([0-9a-f]+)", line)
        if not m:
            continue
        cid, kind, progress = int(m.group(1)), m.group(2), m.group(3) == "1"
        gen, maxgen, maxfail, same = (int(m.group(k)) for k in (4, 5, 6, 7))
        nxt = lines[i + 1] if i + 1 < len(lines) else ""
        fails = int(nxt[2:]) if nxt.startswith("N ") else 0
        counters["runs_watched"] += 1
        said, esaid = inside.get(cid, []), einside.get(cid, [])
        where = "%s, run %d (%s)" % (case, cid, kind)
        distinct.add((kind, m.group(8), m.group(9), m.group(10)))
        if not same:
            report("C29/stream-state", where, "run() leaves std::cout in another state")
        if esaid:
            report("C29/prints-errors", where, " | ".join(esaid[:3]))
        if not (output and progress):
            counters["silent_runs"] += 1
            if said:
                report("C29/not-silent", where, "prints %s" % " | ".join(said[:3]))
            continue
        counters["runs_with_progress_output"] += 1
        counters["generation_lines"] += len(said) - 1
        numbers = [int(x.group()) for x in (re.search(r"\d+", l) for l in said[:-1]) if x]
        want = list(range(1, gen + 1))
        if len(numbers) != len(said) - 1 or numbers != want:
            report("C29/generations", where, "%d generations, printed: %s" % (gen, " | ".join(said)))
            continue
        last = said[-1].lower() if said else ""
        if not said or re.search(r"\d", last) or ("fail" in last) == ("generation" in last):
            report("C29/reason", where, "the last line names no limit: %s" % " | ".join(said[-2:]))
        elif "fail" in last:
            counters["stopped_by_failures"] += 1
            if not (maxfail > 0 and fails > maxfail):
                report("C29/reason", where, "[%s], with %d failures of %d" % (said[-1], fails, maxfail))
        else:
            counters["stopped_by_generations"] += 1
            if gen != maxgen:
                report("C29/reason", where, "[%s], after %d generations of %d" % (said[-1], gen, maxgen))
        if len(samples) < 4 and len(said) > 2 and cid > 3:
            samples.append("%s: %s" % (where, " | ".join(said)))


if __name__ == "__main__":
    sys.exit(main())
