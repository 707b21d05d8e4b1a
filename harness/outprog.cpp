// C29: one program, built in many ways by outcheck.py. It runs every kind of solver with random options and writes what happened
// to descriptor 3; what the library writes to stdout and stderr stays apart from that, between marker lines.
#include <array>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <HeuristicFlow/Global>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>
#include <HeuristicFlow/SimpleMatrix>
using namespace heu;
#define LESS FITNESS_LESS_BETTER
#define GREATER FITNESS_GREATER_BETTER

#ifdef HV_UNKNOWN_PROCESSORS  // the standard lets this function return 0 when the number isn't known
unsigned std::thread::hardware_concurrency() noexcept { return 0; }
#endif

struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  double u() { return double(next() >> 11) * 0x1p-53; }
  bool coin(double p = 0.5) { return u() < p; }
  int range(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }
};
static uint64_t mix(uint64_t h, uint64_t v) { return (h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))) * 0xff51afd7ed558ccdull; }
static uint64_t num(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
template <class V>
static uint64_t hashV(const V& v) {
  uint64_t h = mix(5, uint64_t(v.size()));
  for (int i = 0; i < int(v.size()); i++) h = mix(h, num(double(v.data()[i])));
  return h;
}
static uint64_t hashV(double d) { return num(d); }

static FILE* report;
static std::atomic<uint64_t> visits{0}, visited{0};
static int land;
template <class V>
static double value(const V& v, int j) {
  double s = 0;
  for (int i = 0; i < int(v.size()); i++) {
    const double c = 0.25 * ((j * 3 + i) % 5) - 0.4, d = double(v.data()[i]) - c;
    s += land == 2 ? std::fabs(d) : d * d;
  }
  switch (land) {
    case 1: return std::floor(s * 4);
    case 3: return 7.5;  // every generation fails
    case 4: return -3 - s;
    default: return s;
  }
}
template <class V>
static void seen(const V& v) {
  visits.fetch_add(1, std::memory_order_relaxed);
  visited.fetch_add(hashV(v), std::memory_order_relaxed);
}
template <class V>
static void f1(const V* v, double* f) {
  seen(*v);
  *f = value(*v, 0);
}
template <class V, class B>
static void f1a(const V* v, const B*, double* f) { f1(v, f); }
template <class V, class F>
static void fM(const V* v, F* f) {
  seen(*v);
  for (int j = 0; j < int(f->size()); j++) (*f)[j] = value(*v, j);
}
static int DIM = 3;
template <class V>
static void iF(V* v) {
  v->resize(size_t(DIM));
  for (int i = 0; i < DIM; i++) v->data()[i] = randD(-2, 2);
}
template <class V>
static void cF(const V* a, const V* b, V* c, V* d) {
  *c = *a;
  *d = *b;
  for (int i = 0; i < int(a->size()); i++)
    if (randD() < 0.5) std::swap(c->data()[i], d->data()[i]);
}
template <class V>
static void mF(const V* a, V* b) {
  *b = *a;
  b->data()[randIdx(int(a->size()))] += randD(-0.5, 0.5);
}

static void start(uint64_t cs) {
  internal::global_mt19937().seed(uint32_t(cs * 2654435761u + 17));
  std::srand(unsigned(cs));
  visits = 0;
  visited = 0;
}
static void mark(const char* what, int id) {
  std::cout.flush();
  std::fflush(stdout);
  char b[64];
  const int n = snprintf(b, sizeof b, "\n@@%s %d\n", what, id);
  (void)!write(1, b, size_t(n));
  (void)!write(2, b, size_t(n));
}
static int caseId = 0;
// what one run() did
template <class S>
static void watch(const char* kind, S& s, uint64_t maxGen, uint64_t maxFail, uint64_t (*digest)(S&), bool progress) {
  const auto flags = std::cout.flags();
  const auto width = std::cout.width(), prec = std::cout.precision();
  mark("run", caseId);
  s.run();
  mark("end", caseId);
  const bool same = flags == std::cout.flags() && width == std::cout.width() && prec == std::cout.precision() && std::cout.good();
  fprintf(report, "R %d %s %d %llu %llu %llu %d %llu %llx %llx\n", caseId, kind, int(progress), (unsigned long long)s.generation(), (unsigned long long)maxGen,
          (unsigned long long)maxFail, int(same), (unsigned long long)visits.load(), (unsigned long long)visited.load(), (unsigned long long)digest(s));
  caseId++;
}
static void note(uint64_t h) { fprintf(report, "D %llx\n", (unsigned long long)h); }
static void fails(uint64_t n) { fprintf(report, "N %llu\n", (unsigned long long)n); }

template <class S>
static uint64_t gaDigest(S& s) {
  uint64_t h = 1;
  for (auto& g : s.population()) h = mix(mix(h, hashV(g.decision_variable)), hashV(g.fitness));
  return h;
}
template <class S>
static void fill(S& s, Rng& r, GAOption& o, int minPop) {
  o.populationSize = size_t(r.range(minPop, 20));
  o.maxGenerations = size_t(r.coin(0.1) ? 0 : r.range(1, r.coin(0.1) ? 40 : 9));
  o.maxFailTimes = size_t(r.coin() ? 0 : r.range(1, 4));
  o.crossoverProb = 0.2 * r.range(0, 5);
  o.mutateProb = 0.2 * r.range(0, 5);
  s.setOption(o);
}
template <class S, class X>
static void soga(const char* kind, Rng& r, X extra) {
  S s;
  GAOption o;
  fill(s, r, o, 5);
  extra(s);
  start(r.next());
  s.initializePop();
  for (int k = r.range(1, 2); k > 0; k--) {
    watch<S>(kind, s, o.maxGenerations, o.maxFailTimes, &gaDigest<S>, true);
    fails(s.failTimes());
    note(mix(hashV(s.result()), num(s.bestFitness())));
  }
}
template <FitnessOption fo, RecordOption ro, class V>
static void sogaRT(const char* kind, Rng& r) {
  using S = SOGA<V, fo, ro, SelectMethod::RunTimeSelectMethod>;
  static const SelectMethod all[] = {SelectMethod::RouletteWheel, SelectMethod::Tournament, SelectMethod::Truncation, SelectMethod::MonteCarlo, SelectMethod::Probability,
                                     SelectMethod::LinearRank, SelectMethod::ExponentialRank, SelectMethod::Boltzmann, SelectMethod::StochasticUniversal, SelectMethod::EliteReserved};
  const int m = r.range(0, 9), t = r.range(2, 4), e = r.range(1, 4), n = r.range(0, 1);
  const double best = 0.5 + 0.5 * r.u(), worst = 0.4 * r.u(), base = 0.9 * r.u(), strength = (fo == LESS ? -1 : 1) * (0.1 + r.u());
  soga<S>(kind, r, [&](S& s) {
    s.setiFun(&iF<V>);
    s.setfFun(&f1<V>);
    s.setcFun(&cF<V>);
    s.setmFun(&mF<V>);
    s.setSelectMethod(all[m]);
    if (n) {
      s.setTournamentSize(t);
      s.setLinearSelectProbability(worst, best);
      s.setExponetialSelectBase(base);
      s.setBoltzmannSelectStrength(strength);
      s.setEliteNum(e);
    }
  });
}
template <class V, class B, class S, class X>
static void sogaBox(const char* kind, Rng& r, X extra) {
  B b;
  extra(b);
  soga<S>(kind, r, [&](S& s) { s.setArgs(b); });
}
template <class S, class X>
static void moga(const char* kind, Rng& r, X extra) {
  using V = typename std::decay<decltype(S().population().front().decision_variable)>::type;
  S s;
  GAOption o;
  fill(s, r, o, 2);
  s.setiFun(&iF<V>);
  s.setfFun(&fM<V, typename S::Fitness_t>);
  s.setcFun(&cF<V>);
  s.setmFun(&mF<V>);
  extra(s);
  start(r.next());
  s.initializePop();
  for (int k = r.range(1, 2); k > 0; k--) {
    watch<S>(kind, s, o.maxGenerations, o.maxFailTimes, &gaDigest<S>, true);
    fails(s.failTimes());
    uint64_t h = 0;
    for (auto g : s.pfGenes()) h += hashV(g->decision_variable);
    note(mix(h, hashV(s.bestFitness())));
  }
}
template <class S>
static uint64_t psoDigest(S& s) {
  uint64_t h = 1;
  for (auto& p : s.population()) h = mix(mix(mix(h, hashV(p.position)), hashV(p.velocity)), mix(num(p.pBest.fitness), hashV(p.pBest.position)));
  return mix(h, mix(hashV(s.globalBest().position), num(s.globalBest().fitness)));
}
template <class S, class X>
static void pso(const char* kind, Rng& r, X extra) {
  S s;
  PSOOption o;
  o.populationSize = size_t(r.range(1, 20));
  o.maxGeneration = size_t(r.coin(0.1) ? 0 : r.range(1, r.coin(0.1) ? 40 : 9));
  o.maxFailTimes = size_t(r.coin() ? 0 : r.range(1, 4));
  o.inertiaFactor = 0.3 + r.u();
  o.learnFactorP = r.u() * 2;
  o.learnFactorG = r.u() * 2;
  s.setOption(o);
  extra(s);
  start(r.next());
  s.initializePop();
  for (int k = r.range(1, 2); k > 0; k--) {
    watch<S>(kind, s, o.maxGeneration, o.maxFailTimes, &psoDigest<S>, true);
    fails(s.failTimes());
  }
}
template <class S>
static uint64_t aosDigest(S& s) {
  uint64_t h = 1;
  for (auto& e : s.electrons()) h = mix(mix(h, hashV(e.state)), num(e.energy));
  for (auto& l : s.layers()) h = mix(mix(h, l.size()), num(l.bindingEnergy));
  return mix(h, mix(hashV(s.bestElectron().state), num(s.bestElectron().energy)));
}
template <class S, class X>
static void aos(const char* kind, Rng& r, X extra) {
  S s;
  AOSOption o;
  o.electronNum = size_t(r.range(2, 20));
  o.maxGeneration = size_t(r.range(0, 9));
  o.maxEarlyStop = size_t(r.range(1, 9));
  o.maxLayerNum = size_t(r.range(1, int(o.electronNum)));
  o.photonRate = 0.25 * r.range(0, 4);
  s.setOption(o);
  extra(s);
  start(r.next());
  s.initializePop();
  watch<S>(kind, s, o.maxGeneration, o.maxEarlyStop, &aosDigest<S>, false);
  fails(0);
}
// the parts of the library that are no solvers
static void others(Rng& r) {
  start(r.next());
  mark("run", caseId);
  uint64_t h = 1;
  {
    std::array<double, 4> x;
    std::vector<double> v(5);
    std::array<double, 2> p, q;
    for (double& d : x) d = r.u() * 4 - 2;
    for (double& d : v) d = r.u();
    for (double& d : p) d = r.u() * 2;
    double f;
    testFunctions<std::array<double, 4>>::rastrigin(&x, &f);
    h = mix(h, num(f));
    testFunctions<std::array<double, 2>>::ackley(&p, &f);
    h = mix(h, num(f));
    testFunctions<std::array<double, 2>, std::array<double, 2>>::BinhKorn(&p, &q);
    h = mix(h, hashV(q));
    std::array<double, 3> w;
    testFunctions<std::vector<double>, std::array<double, 3>>::DTLZ2(&v, &w);
    h = mix(h, hashV(w));
  }
  {
    ContinousBox<std::vector<double>, BoxShape::RECTANGLE_BOX> b;
    const int d = r.range(1, 5);
    std::vector<double> lo(size_t(d), -1.0), hi(size_t(d), 2.0), de(size_t(d), 0.4), v;
    b.setRange(lo, hi);
    b.setDelta(de);
    for (int k = 0; k < 8; k++) {
      b.initialize(&v);
      b.applyDelta(&v);
      v[0] += 3;
      b.applyConstraint(&v);
      h = mix(h, hashV(v));
    }
    GaussianBox<std::array<double, 3>> g;
    g.setMu(r.u());
    g.setSigma(0.1 + r.u());
    g.setDelta(0.3);
    std::array<double, 3> a;
    for (int k = 0; k < 8; k++) {
      g.initialize(&a);
      g.applyDelta(&a);
      h = mix(h, hashV(a));
    }
  }
  {
    MatrixDynamicSize<double> m(3, 2), c;
    for (int k = 0; k < 6; k++) m[k] = r.u();
    c = m;
    m.resize(2, 5);
    m.resize(2, 3);
    for (int k = 0; k < 6; k++) h = mix(h, num(c[k]));
    multiBitSet<3> b;
    for (int k = 0; k < 40; k++) b.push_back(unsigned(r.range(0, 7)));
    for (int k = 0; k < 40; k++) h = mix(h, unsigned(b[k]));
  }
  for (int k = 0; k < 20; k++) h = mix(mix(mix(h, num(randD())), num(randD(-3, 4))), uint64_t(randIdx(7) * 100 + randIdx(3, 9)));
  mark("end", caseId);
  fprintf(report, "R %d parts 0 0 0 0 1 0 0 %llx\n", caseId, (unsigned long long)h);
  fails(0);
  caseId++;
}
static void oneCase(Rng& r) {
  land = r.range(0, 4);
  DIM = r.range(1, 5);
  using V = std::vector<double>;
  constexpr auto REC = RECORD_FITNESS, NO = DONT_RECORD_FITNESS;
  switch (r.range(0, 13)) {
    case 0: return sogaRT<LESS, NO, V>("SOGA", r);
    case 1: return sogaRT<GREATER, REC, V>("SOGA recording", r);
    case 2: {
      using A = Eigen::ArrayXd;
      using B = ContinousBox<A, BoxShape::RECTANGLE_BOX>;
      using G = GADefaults<A, B>;
      return sogaBox<A, B, SOGA<A, LESS, REC, SelectMethod::Tournament, B, G::iFun<>, f1a<A, B>, G::cFunNd<>, G::mFun<>>>("SOGA in a real box", r, [](B& b) {
        const A lo = A::Constant(DIM, -2), hi = A::Constant(DIM, 1.5), d = A::Constant(DIM, 0.25);
        b.setRange(lo, hi);
        b.setDelta(d);
      });
    }
    case 3: {
      using W = std::vector<int>;
      using B = DiscretBox<W, BoxShape::SQUARE_BOX>;
      using G = GADefaults<W, B>;
      return sogaBox<W, B, SOGA<W, GREATER, NO, SelectMethod::RouletteWheel, B, G::iFun<>, f1a<W, B>, G::cFunSwapXs, G::mFun_s<>>>("SOGA in a symbolic box", r, [](B& b) {
        b.setDimensions(DIM);
        b.setRange(-4, 6);
      });
    }
    case 4: return moga<NSGA2<V, 2, LESS, REC>>("NSGA2", r, [](auto&) {});
    case 5: {
      const int m = r.range(2, 4);
      return moga<NSGA2<V, Eigen::Dynamic, GREATER, NO>>("NSGA2 run-time objectives", r, [m](auto& s) { s.setObjectiveNum(m); });
    }
    case 6: {
      const int p = r.range(1, 5);
      return moga<NSGA3<V, 3, NO, SINGLE_LAYER>>("NSGA3", r, [p](auto& s) { s.setReferencePointPrecision(size_t(p)); });
    }
    case 7: {
      const int m = r.range(2, 4), a = r.range(2, 3), b = r.range(2, 4);
      return moga<NSGA3<V, Eigen::Dynamic, REC, DOUBLE_LAYER>>("NSGA3 double layer", r, [m, a, b](auto& s) {
        s.setObjectiveNum(m);
        s.setReferencePointPrecision(size_t(a), size_t(b));
      });
    }
    case 8: return pso<PSO<V, BoxShape::SQUARE_BOX, LESS, REC>>("PSO", r, [](auto& s) {
        s.setDimensions(DIM);
        s.setfFun(&f1<V>);
        s.setPVRange(-2, 3, 0.4);
      });
    case 9: return pso<PSO<std::array<double, 3>, BoxShape::SQUARE_BOX, GREATER, NO>>("PSO array", r, [](auto& s) {
        s.setfFun(&f1<std::array<double, 3>>);
        s.setPVRange(-1, 1, 0.2);
      });
    case 10: return pso<PSO<Eigen::ArrayXd, BoxShape::RECTANGLE_BOX, LESS, NO>>("PSO Eigen", r, [](auto& s) {
        s.setDimensions(DIM);
        s.setfFun(&f1<Eigen::ArrayXd>);
        const Eigen::ArrayXd lo = Eigen::ArrayXd::Constant(DIM, -2), hi = Eigen::ArrayXd::Constant(DIM, 2), v = Eigen::ArrayXd::Constant(DIM, 0.5);
        s.setPVRange(lo, hi, v);
      });
    case 11: return aos<AOS<ContinousBox<V, BoxShape::SQUARE_BOX>, LESS, RECORD_FITNESS>>("AOS", r, [](auto& s) {
        s.setDimensions(DIM);
        s.setfFun(&f1<V>);
        s.setRange(-2, 3);
        s.setDelta(0.2);
      });
    case 12: return aos<AOS<ContinousBox<std::array<double, 3>, BoxShape::SQUARE_BOX>, GREATER>>("AOS array", r, [](auto& s) {
        s.setfFun(&f1<std::array<double, 3>>);
        s.setRange(-2, 3);
        s.setDelta(0.2);
      });
    default: return others(r);
  }
}
int main(int argc, char** argv) {
  report = fdopen(3, "w");
  if (!report || argc < 3) return 3;
  Rng r{strtoull(argv[1], nullptr, 10)};
  const int n = atoi(argv[2]);
  if (threadNum() < 1) return 5;  // the default
#if !defined(HEU_NO_THREADS) && !defined(HV_UNKNOWN_PROCESSORS)
  setThreadNum(2);
#endif
  for (int k = 0; k < n; k++) {
    Rng c{r.next()};
    oneCase(c);
  }
  fprintf(report, "Z\n");
  fclose(report);
  return 0;
}
