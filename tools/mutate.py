#!/usr/bin/env python3
"""mutate.py OUT.jsonl FILE=COUNT... : small random edits of library files; which ones does no monitor notice?

Works in scratch copies of the headers under /tmp/mut, prints survivors. Not one of the checks: it measures them.
env: MUT_SEED, MUT_JOBS, MUT_BUDGET (seconds)
"""
import concurrent.futures as cf, fnmatch, json, os, random, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import TUS
SAN = ["-O1", "-fno-omit-frame-pointer", "-fopenmp", "-fsanitize=address,undefined",
       "-fno-sanitize=null,nonnull-attribute,returns-nonnull-attribute", "-fno-sanitize-recover=all"]
G = lambda n, r: ["%s%d" % (n, i) for i in r]
MAP = [
    ("Genetic/SOGA*", G("soga", range(6)) + ["meta0", "meta6", "fuzz0"]),
    ("Genetic/NSGA3*", ["moga3", "moga4", "moga7", "moga5", "moga6", "meta3", "fuzz2"]),
    ("Genetic/NSGA2*", ["moga0", "moga1", "moga2", "meta2", "fuzz1"]),
    ("Genetic/MOGA*", ["moga0", "moga3", "moga1", "moga4", "moga8", "meta2", "fuzz1"]),
    ("Genetic/NSGABase*", ["moga0", "moga3", "moga8", "moga4"]),
    ("Genetic/Misc*", G("ops", range(4)) + ["soga0"]),
    ("Genetic/*", ["soga0", "moga0", "ops0", "traits", "meta0", "fuzz0", "moga3", "soga5", "soga0s", "moga0s"]),
    ("EAGlobal/*Box*", G("box", range(5)) + ["ops2", "ops3", "aos0"]),
    ("EAGlobal/Pareto*", ["moga8", "moga0", "moga3"]),
    ("EAGlobal/*", G("func", range(3))),
    ("PSO/*", ["pso2", "pso0", "pso0s", "pso1", "pso3", "pso4", "meta4", "meta7", "fuzz3"]),
    ("AOS/*", ["aos2", "aos0", "aos0s", "aos1", "aos3", "aos4", "meta5", "meta7", "fuzz4"]),
    ("SimpleMatrix/MultiBit*", G("bits", range(4))),
    ("SimpleMatrix/*", G("mat", range(3))),
    ("Global/Conv*", G("codes", range(3))),
    ("Global/Templ*", G("codes", range(3)) + ["box0"]),
    ("Global/Enum*", ["traits"]),
    ("Global/Types*", ["traits", "box0", "bits0"]),
    ("Global/*", ["mathrand", "traits", "codes1", "soga0"]),
]
OPS = [
    (r" <= ", " < "), (r" >= ", " > "), (r" < ", " <= "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
    (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\.front\(\)", ".back()"), (r"\.back\(\)", ".front()"),
    (r" \+= ", " = "), (r" \+= ", " -= "), (r" \*= ", " = "), (r"\+\+(?=\w)", ""), (r"(?<=\w)\+\+;", ";"), (r"if \((.*)\) \{$", r"if (true) {"), (r"if \((.*)\) \{$", r"if (false) {"),
    (r"^(\s*)((?:this->|static_cast|\w+(?:\.|->|\[|\())[^=]*\(.*\);|[\w\.\->\[\]]+ [\+\-\*/]?= .*;)\s*$", r"\1;"),
]
BAD = re.compile(r"^\s*(//|\*|/\*|#|assert|static_assert|template|using|friend|class|struct|public|private|namespace|typename|\\|HEU_)|constexpr int [RC]|#pragma|requires|\\$")


def candidates(path):
    out, comment = [], False
    lines = open(path, "rb").read().decode("utf-8").split("\n")
    for i, l in enumerate(lines):
        t = l.rstrip("\r")
        if "/*" in t and "*/" not in t:
            comment = True
        if comment:
            if "*/" in t:
                comment = False
            continue
        if BAD.search(t) or not t.strip() or t.strip() in "{}":
            continue
        code = t.split("//")[0]
        if not code.strip():
            continue
        for k, (a, b) in enumerate(OPS):
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if new != code:
                    out.append((i, new, k))
    return lines, out


def env():
    e = dict(os.environ, OMP_NUM_THREADS="2", OMP_WAIT_POLICY="passive",
             ASAN_OPTIONS="detect_leaks=1:exitcode=77:hard_rss_limit_mb=3500:allocator_may_return_null=1:detect_stack_use_after_return=1",
             UBSAN_OPTIONS="halt_on_error=1:exitcode=77", LSAN_OPTIONS="exitcode=77")
    return e


def trial(w, f, i, new, lines):
    d = "/tmp/mut/w%d" % w
    tgt = d + "/HeuristicFlow/src/" + f
    old = open(tgt, "rb").read()
    cr = "\r" if lines[i].endswith("\r") else ""
    open(tgt, "wb").write("\n".join(lines[:i] + [new + cr] + lines[i + 1:]).encode("utf-8"))
    try:
        tus = next(t for p, t in MAP if fnmatch.fnmatch(f, p))
        for n in tus:
            tu = TUS[n]
            b = d + "/bin"
            cmd = ["g++", "-std=c++17", "-fconcepts", "-g1", "-w"] + SAN + ["-D_USE_MATH_DEFINES", "-I/usr/include/eigen3", "-I" + d, "-I/tmp/mut/harness"] + tu.get("flags", [])
            if tu.get("san") == "serial":
                cmd.remove("-fopenmp")
            r = subprocess.run(["timeout", "300"] + cmd + ["/tmp/mut/harness/" + s for s in tu["src"]] + ["-o", b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode:
                return "nocompile", n
            parts = subprocess.run([b, "--list"], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"), stdout=subprocess.PIPE, text=True).stdout.split()
            for p in parts:
                out = d + "/o.json"
                if os.path.exists(out):
                    os.unlink(out)
                try:
                    rc = subprocess.run([b, "--part", p, "--seed", "1", "--tier", "quick", "--out", out, "--cpu", "40"], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400, cwd=d).returncode
                except subprocess.TimeoutExpired:
                    return "caught", n + " timeout"
                try:
                    v = [x["key"] for x in json.load(open(out))["violations"]]
                except Exception:
                    v = ["NOREPORT"]
                if v or rc:
                    return "caught", "%s %s %s" % (n, rc, v[:3])
        return "SURVIVED", ""
    finally:
        open(tgt, "wb").write(old)


def main():
    outp, specs = sys.argv[1], sys.argv[2:]
    rng = random.Random(int(os.environ.get("MUT_SEED", "1")))
    jobs = []
    for s in specs:
        f, n = s.split("=")
        lines, c = candidates("/repo/HeuristicFlow/src/" + f)
        if ":" in n:  # FILE=N:FROM-TO
            n, r = n.split(":")
            a, b = map(int, r.split("-"))
            c = [x for x in c if a <= x[0] + 1 <= b]
        jobs += [(f,) + x + (lines,) for x in rng.sample(c, min(int(n), len(c)))]
    rng.shuffle(jobs)
    W = int(os.environ.get("MUT_JOBS", "8"))
    t0, budget = time.time(), float(os.environ.get("MUT_BUDGET", "1e9"))
    shutil.rmtree("/tmp/mut/harness", ignore_errors=True)
    shutil.copytree(HERE + "/harness", "/tmp/mut/harness")
    free, lock = list(range(W)), threading.Lock()
    for w in free:
        d = "/tmp/mut/w%d" % w
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree("/repo/HeuristicFlow", d + "/HeuristicFlow")

    def run(j):
        if time.time() - t0 > budget:
            return
        f, i, new, k, lines = j
        with lock:
            w = free.pop()
        t = time.time()
        try:
            st, by = trial(w, f, i, new, lines)
        except Exception as e:
            st, by = "ERROR", repr(e)
        with lock:
            free.append(w)
            open(outp, "a").write(json.dumps({"file": f, "line": i + 1, "old": lines[i].strip(), "new": new.strip(), "st": st, "by": by, "t": round(time.time() - t)}) + "\n")
    with cf.ThreadPoolExecutor(W) as ex:
        list(ex.map(run, jobs))


main()
