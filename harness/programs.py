#!/usr/bin/env python3
"""C26: generates whole programs of one to four translation units which include the public headers in random orders, builds them
the way a user would and watches them run: the units have to share one random generator and to compute the same."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
HEADERS = ["Global", "EAGlobal", "Genetic", "PSO", "AOS", "SimpleMatrix"]
PARTS = ["programs"]

COMMON = r'''
namespace {
struct Out { unsigned long long v; };
inline void put(unsigned long long& h, double d) {
  unsigned long long u;
  __builtin_memcpy(&u, &d, 8);
  h = (h ^ u) * 1099511628211ull + (h >> 29);
}
}
'''
# what a unit can do with one header; every function returns a digest of what it computed from the seed
BODY = {
    "Global": r'''
static unsigned long long doGlobal(unsigned s) {
  unsigned long long h = 7;
  heu::internal::global_mt19937().seed(s);
  for (int k = 0; k < 20; k++) { put(h, heu::randD()); put(h, heu::randD(-2, 3)); put(h, double(heu::randIdx(7))); put(h, double(heu::randIdx(3, 9))); }
  put(h, heu::decode(heu::encode(0.375 * s)));
  return h;
}
''',
    "EAGlobal": r'''
static unsigned long long doEAGlobal(unsigned s) {
  unsigned long long h = 7;
  std::array<double, 4> x = {{0.1 * s, 0.5, -0.3, 1.25}};
  std::array<double, 2> y = {{0.25, -0.01 * s}}, o;
  double f;
  heu::testFunctions<std::array<double, 4>>::rastrigin(&x, &f); put(h, f);
  heu::testFunctions<std::array<double, 2>>::ackley(&y, &f); put(h, f);
  heu::testFunctions<std::array<double, 2>, std::array<double, 2>>::BinhKorn(&y, &o); put(h, o[0]); put(h, o[1]);
  heu::ContinousBox<std::array<double, 4>, heu::BoxShape::SQUARE_BOX> box;
  box.setRange(-1, 1); box.setDelta(0.2);
  heu::internal::global_mt19937().seed(s);
  for (int k = 0; k < 5; k++) { box.initialize(&x); box.applyDelta(&x); for (double d : x) put(h, d); }
  return h;
}
''',
    "Genetic": r'''
namespace gen@K@ {
using V = std::array<double, 3>;
static void i(V* v) { for (double& d : *v) d = heu::randD(-1, 1); }
static void f(const V* v, double* o) { *o = 0; for (double d : *v) *o += d * d; }
template <class F> static void g(const V* v, F* o) { for (int k = 0; k < int(o->size()); k++) { (*o)[k] = 0; for (double d : *v) (*o)[k] += (d - 0.3 * k) * (d - 0.3 * k); } }
static void c(const V* a, const V* b, V* x, V* y) { const double r = heu::randD(); for (int k = 0; k < 3; k++) { (*x)[k] = r * (*a)[k] + (1 - r) * (*b)[k]; (*y)[k] = r * (*b)[k] + (1 - r) * (*a)[k]; } }
static void m(const V* a, V* x) { *x = *a; (*x)[heu::randIdx(3)] += heu::randD(-0.1, 0.1); }
template <class S> static void play(S& s, unsigned seed, unsigned long long& h) {
  s.setiFun(&i); s.setcFun(&c); s.setmFun(&m);
  heu::GAOption o; o.populationSize = 10; o.maxGenerations = 4; o.maxFailTimes = 0; o.crossoverProb = 0.8; o.mutateProb = 0.3;
  s.setOption(o);
  heu::internal::global_mt19937().seed(seed);
  s.initializePop(); s.run();
  for (auto& e : s.population()) for (double d : e.decision_variable) put(h, d);
}
}
static unsigned long long doGenetic(unsigned s) {
  unsigned long long h = 7;
  heu::SOGA<gen@K@::V, heu::FITNESS_LESS_BETTER, heu::RECORD_FITNESS, heu::SelectMethod::RunTimeSelectMethod> a;
  a.setSelectMethod(heu::SelectMethod(s % 10)); a.setfFun(&gen@K@::f); gen@K@::play(a, s, h);
  heu::NSGA2<gen@K@::V, 2> b;
  b.setfFun(&gen@K@::g<heu::NSGA2<gen@K@::V, 2>::Fitness_t>); gen@K@::play(b, s, h);
  heu::NSGA3<gen@K@::V, Eigen::Dynamic> d;
  d.setObjectiveNum(3); d.setReferencePointPrecision(3);
  d.setfFun(&gen@K@::g<heu::NSGA3<gen@K@::V, Eigen::Dynamic>::Fitness_t>); gen@K@::play(d, s, h);
  return h;
}
''',
    "PSO": r'''
namespace pso@K@ {
using V = std::array<double, 3>;
static void f(const V* v, double* o) { *o = 0; for (double d : *v) *o += d * d; }
}
static unsigned long long doPSO(unsigned s) {
  unsigned long long h = 7;
  heu::PSO<pso@K@::V, heu::BoxShape::SQUARE_BOX> p;
  p.setfFun(&pso@K@::f); p.setPVRange(-2, 2, 0.3);
  heu::PSOOption o; o.populationSize = 8; o.maxGeneration = 5; o.maxFailTimes = 0; p.setOption(o);
  heu::internal::global_mt19937().seed(s);
  p.initializePop(); p.run();
  for (auto& e : p.population()) for (double d : e.position) put(h, d);
  return h;
}
''',
    "AOS": r'''
namespace aos@K@ {
using V = std::array<double, 3>;
static void f(const V* v, double* o) { *o = 0; for (double d : *v) *o += d * d; }
}
static unsigned long long doAOS(unsigned s) {
  unsigned long long h = 7;
  heu::AOS<heu::ContinousBox<aos@K@::V, heu::BoxShape::SQUARE_BOX>> p;
  p.setfFun(&aos@K@::f); p.setRange(-2, 2); p.setDelta(0.1);
  heu::AOSOption o; o.electronNum = 8; o.maxLayerNum = 3; o.maxGeneration = 5; o.maxEarlyStop = 9; p.setOption(o);
  heu::internal::global_mt19937().seed(s);
  p.initializePop(); p.run();
  for (auto& e : p.electrons()) for (double d : e.state) put(h, d);
  return h;
}
''',
    "SimpleMatrix": r'''
static unsigned long long doSimpleMatrix(unsigned s) {
  unsigned long long h = 7;
  heu::MatrixDynamicSize<double> m(3, 2);
  for (int k = 0; k < 6; k++) m[k] = k * 0.5 + s;
  m.resize(2, 5); m.resize(2, 3);
  heu::MatrixFixedSize<double, 2, 2> q;
  q.fill(s);
  heu::multiBitSet<3> b;
  for (unsigned k = 0; k < 40; k++) b.push_back((k * s) % 8);
  for (int k = 0; k < 40; k++) put(h, double(b[k]));
  put(h, double(m.rows() * 100 + m.cols())); put(h, q(1, 1));
  return h;
}
''',
}
NEEDS_ENGINE = {"Global", "EAGlobal", "Genetic", "PSO", "AOS"}


def unit(k, headers, std_first, early):
    t = ""
    if std_first:
        t += "#include <array>\n#include <vector>\n#include <iostream>\n"
    t += "".join("#include <HeuristicFlow/%s>\n" % h for h in headers)
    t += "#include <array>\n" + COMMON
    have = sorted(set(headers), key=HEADERS.index)
    for h in have:
        t += BODY[h].replace("@K@", str(k))
    eng = bool(set(have) & NEEDS_ENGINE)
    # a program may draw numbers and ask for the number of threads before main()
    if eng and early:
        t += "static const double early = heu::randD() + 0 * heu::threadNum();\n"
    t += "double early%d() { return %s; }\n" % (k, "early" if eng and early else "0.5")
    if k % 2:  # these only set it
        t += "void setThreads%d(int n) { %s }\nint threads%d() { return -1; }\n" % (k, "heu::setThreadNum(n);" if eng else "", k)
    else:
        t += "void setThreads%d(int n) { %s }\nint threads%d() { return %s; }\n" % (
            k, "if (n > 5) heu::setThreadNum(n);" if eng and early else "", k, "heu::threadNum()" if eng else "-1")
    t += "bool sets%d() { return %s; }\n" % (k, "true" if eng and (k % 2) else "false")
    t += "unsigned long long unit%d(int what, unsigned s) {\n  switch (what) {\n" % k
    for h in have:
        t += "    case %d: return do%s(s);\n" % (HEADERS.index(h), h)
    t += "  }\n  return 0;\n}\n"
    t += "void* engine%d() { %s }\n" % (k, "return &heu::internal::global_mt19937();" if eng else "return nullptr;")
    t += "void seed%d(unsigned s) { %s }\n" % (k, "heu::internal::global_mt19937().seed(s);" if eng else "")
    t += "double draw%d() { %s }\n" % (k, "return heu::randD();" if eng else "return -1;")
    return t


def mainUnit(n):
    t = "#include <cstdio>\n#include <cstdlib>\n"
    for k in range(n):
        t += "unsigned long long unit%d(int, unsigned); void* engine%d(); void seed%d(unsigned); double draw%d(); double early%d(); void setThreads%d(int); int threads%d(); bool sets%d();\n" % ((k,) * 8)
    t += "int main() {\n"
    t += "  unsigned long long (*u[])(int, unsigned) = {%s};\n" % ", ".join("unit%d" % k for k in range(n))
    t += "  void* (*e[])() = {%s};\n  void (*sd[])(unsigned) = {%s};\n  double (*dr[])() = {%s};\n" % tuple(
        ", ".join("%s%d" % (w, k) for k in range(n)) for w in ("engine", "seed", "draw"))
    t += "  double (*ea[])() = {%s};\n  void (*st[])(int) = {%s};\n  int (*th[])() = {%s};\n  bool (*ss[])() = {%s};\n" % tuple(
        ", ".join("%s%d" % (w, k) for k in range(n)) for w in ("early", "setThreads", "threads", "sets"))
    t += r'''
  const int n = %d;
  for (int k = 0; k < n; k++) printf("F %%d %%d\n", k, int(ea[k]() >= 0 && ea[k]() < 1));
  for (int a = 0; a < n; a++)
    if (ss[a]()) {
      st[a](2 + a);
      for (int k = 0; k < n; k++) if (th[k]() != -1) printf("T %%d %%d %%d %%d\n", a, k, 2 + a, th[k]());
    }
  for (int what = 0; what < 6; what++)
    for (unsigned s = 1; s < 4; s++)
      for (int k = 0; k < n; k++) printf("U %%d %%d %%u %%llx\n", k, what, s, u[k](what, s));
  for (int k = 0; k < n; k++) printf("E %%d %%p\n", k, e[k]());
  // one stream of numbers, drawn by one unit or by all of them in turns
  for (int a = 0; a < n; a++) {
    if (!e[a]()) continue;
    double x[12];
    sd[a](99);
    for (double& d : x) d = dr[a]();
    sd[a](99);
    int bad = 0, k = a;
    for (double d : x) { bad += dr[k]() != d; do k = (k + 1) %% n; while (!e[k]()); }
    printf("S %%d %%d\n", a, bad);
  }
  return 0;
}
''' % n
    return t


CONFIGS = [("g++", s, o, m, x) for s in ("-std=c++17", "-std=c++20") for o in ("-O0", "-O2") for m in (["-fopenmp"], []) for x in
           ([], ["-fsanitize=address"], ["-DNDEBUG"], ["-DHEU_DO_OUTPUT"], ["-DHEU_MAX_RUNTIME_OBJNUM=64"], ["-DHEU_NO_THREADS"])]
CONFIGS += [("clang++", s, "-O1", [], x) for s in ("-std=c++17", "-std=c++20") for x in ([], ["-fsanitize=address,undefined"])]


def program(seed, out):
    rng = random.Random(seed)
    n = rng.choice([1, 2, 2, 3, 4])
    units = []
    for k in range(n):
        hs = [rng.choice(HEADERS) for _ in range(rng.randint(1, 7))]
        units.append((hs, rng.random() < 0.4, rng.random() < 0.3))
    cxx, std, opt, omp, extra = rng.choice(CONFIGS)
    flags = [std, opt] + (["-fconcepts"] if cxx == "g++" and std == "-std=c++17" else []) + omp + extra
    flags += ["-w", "-D_USE_MATH_DEFINES", "-I/usr/include/eigen3", "-I" + REPO]
    case = "%s %s: %s" % (cxx, " ".join([std, opt] + omp + extra), " | ".join(("std," if sf else "") + ("early," if ea else "") + ",".join(hs) for hs, sf, ea in units))
    r = {"case": case, "viol": [], "units": n, "digests": [], "threads": 0, "cls": "%s %s %s" % (cxx, std, opt)}
    d = tempfile.mkdtemp(prefix="hfprog")
    try:
        objs = []
        for k in range(n + 1):
            src = os.path.join(d, "u%d.cpp" % k)
            open(src, "w").write(unit(k, *units[k]) if k < n else mainUnit(n))
            p = subprocess.run([cxx] + flags + ["-c", src, "-o", src + ".o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode:
                e = [l for l in p.stdout.splitlines() if "error" in l][:3]
                r["viol"].append(("C26/compile", "a unit with %s does not compile: %s" % (",".join(units[k][0]) if k < n else "main", " || ".join(x[:250] for x in e))))
                return r
            objs.append(src + ".o")
        rng.shuffle(objs)
        p = subprocess.run([cxx] + flags + objs + ["-o", os.path.join(d, "prog")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode:
            e = [l for l in p.stdout.splitlines() if "multiple definition" in l or "undefined reference" in l or "error" in l][:3]
            r["viol"].append(("C26/link", "the program does not link: " + " || ".join(x[-250:] for x in e)))
            return r
        env = dict(os.environ, OMP_NUM_THREADS="2", ASAN_OPTIONS="detect_odr_violation=2:exitcode=77", OMP_WAIT_POLICY="passive")
        try:
            p = subprocess.run([os.path.join(d, "prog")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=120)
        except subprocess.TimeoutExpired:
            r["viol"].append(("C26/run", "the program did not end within 120 s"))
            return r
        if p.returncode:
            e = [l for l in p.stderr.splitlines() if "ERROR" in l or "runtime error" in l or "Assertion" in l][:2]
            r["viol"].append(("C26/run", "the program ended with %d: %s" % (p.returncode, " ".join(e)[:300])))
            return r
        eng = set()
        for l in p.stdout.splitlines():
            w = l.split()
            if not w:
                continue
            if w[0] == "U" and w[4] != "0":
                r["digests"].append((int(w[2]), int(w[3]), int(w[1]), w[4]))
            elif w[0] == "E" and w[2] not in ("(nil)", "0x0", "0"):
                eng.add(w[2])
            elif w[0] == "T":
                r["threads"] += 1
                if w[3] != w[4]:
                    r["viol"].append(("C26/threads", "unit %s set %s threads, unit %s reads %s" % (w[1], w[3], w[2], w[4])))
            elif w[0] == "F" and w[2] != "1":
                r["viol"].append(("C26/early", "a number drawn before main() is outside [0,1)"))
            elif w[0] == "S" and w[2] != "0":
                r["viol"].append(("C26/stream", "numbers drawn in turns by several units are not one stream (%s of 12 differ)" % w[2]))
        if len(eng) > 1:
            r["viol"].append(("C26/engine", "%d units use %d random generators" % (n, len(eng))))
        seen = {}
        for what, s, k, v in r["digests"]:
            if seen.setdefault((what, s), v) != v:
                r["viol"].append(("C26/same-program", "%s gives other results in unit %d than in another unit of the program" % (HEADERS[what], k)))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    if "--list" in sys.argv:
        print("\n".join(PARTS))
        return 0
    seed, tier = int(a.get("--seed", 1)), a.get("--tier", "quick")
    n = 48 if tier == "quick" else 600
    viol, samples, kinds, ref = {}, [], set(), {}
    counters = {"programs": 0, "units": 0, "digests_compared": 0, "inclusion_orders": 0, "thread_numbers_read": 0}

    def report(key, case, detail):
        v = viol.setdefault(key, {"key": key, "detail": detail, "case": case, "count": 0})
        v["count"] += 1

    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda i: program("%d/%d" % (seed, i), None), range(n)):
            counters["programs"] += 1
            counters["units"] += r["units"]
            counters["thread_numbers_read"] += r["threads"]
            kinds.add(r["case"])
            if len(samples) < 4:
                samples.append(r["case"])
            for key, detail in r["viol"]:
                report(key, r["case"], detail)
            for what, s, k, v in r["digests"]:
                counters["digests_compared"] += 1
                first = ref.setdefault((r["cls"], what, s), (v, r["case"]))
                if first[0] != v:
                    report("C26/other-program", r["case"], "%s gives other results than in the program [%s]" % (HEADERS[what], first[1]))
    counters["inclusion_orders"] = len(kinds)
    rep = {"part": "programs", "seed": seed, "complete": True, "evaluations": counters["programs"], "distinct": len(kinds), "counters": counters,
           "samples": samples, "violations": list(viol.values()), "last_case": ""}
    if "--out" in a:
        json.dump(rep, open(a["--out"], "w"))
    for v in viol.values():
        print(v["key"], v["count"], v["case"], v["detail"])
    print(counters)
    return 1 if viol else 0


sys.exit(main())
