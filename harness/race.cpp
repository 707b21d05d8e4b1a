// C06: parallel execution of every solver is free of data races and gives the results of serial execution.
// Linked with ompshim.cpp. Built twice: with ThreadSanitizer (runs in this process, RACE_GROUP parts race_*) and plain
// (every run in a child of its own, one serial baseline against several schedules, parts same_*).
#include "hv.hpp"
#include <thread>
#include <array>
#include <atomic>
#include <sched.h>
#include <sys/wait.h>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>
#include <HeuristicFlow/SimpleMatrix>
#include "ompshim.hpp"
#include <HeuristicFlow/Global>
using namespace hv;
using namespace heu;

#define LESS FitnessOption::FITNESS_LESS_BETTER
#define GREATER FitnessOption::FITNESS_GREATER_BETTER
#define REC RecordOption::RECORD_FITNESS
#define NOREC RecordOption::DONT_RECORD_FITNESS

// ---- what a run did, field by field
enum Field { VISITED, NVISITED, CREATED, POPULATION, BEST, FRONT, RECORD, COUNTERS, NFIELDS };
static const char* fieldName[] = {"visited individuals", "number of evaluations", "created individuals", "final population",
                                  "best solution", "Pareto front", "record", "counters"};
struct Digest {
  uint64_t f[NFIELDS] = {};
  uint64_t regions = 0, chunks = 0, schedule = 0, badChunks = 0, team = 0, iterations = 0, tooMany = 0, tooFew = 0;
};
#ifdef __SANITIZE_THREAD__
// nothing that orders the threads may be added here
static inline void visit(uint64_t) {}
static inline void linger(uint64_t) {}
#else
static std::atomic<uint64_t> visitedHash{0}, visitedCount{0};
static inline void visit(uint64_t h) {
  visitedHash.fetch_add(h, std::memory_order_relaxed);
  visitedCount.fetch_add(1, std::memory_order_relaxed);
}
static bool lingers = false;
static inline void linger(uint64_t h) {
  if (!lingers) return;
  if (h % 7 == 0) sched_yield();
  if (h % 97 == 0) usleep(30);
}
#endif

template <class V>
static uint64_t hv_(const V& v) {
  uint64_t h = mix(5, uint64_t(v.size()));
  for (size_t i = 0; i < size_t(v.size()); i++) h = mix(h, bits(double(v.data()[i])));
  return h;
}
static uint64_t hv_(double d) { return mix(9, bits(d)); }

struct Land {
  int land = 0, objs = 1, dim = 4;
  double lo = -2, hi = 2;
};
template <class V>
static double value(int land, const V& v, int j = 0) {
  const size_t n = size_t(v.size());
  double s = 0;
  for (size_t i = 0; i < n; i++) {
    const double c = std::sin(1.7 * j + 2.3 * double(i) + 0.5);
    s += (v.data()[i] - c) * (v.data()[i] - c);
  }
  switch (land % 7) {
    case 0: return s;
    case 1: {
      double r = s;
      for (size_t i = 0; i < n; i++) r += 3 * (1 - std::cos(6 * v.data()[i] + j));
      return r;
    }
    case 2: return std::round(s);
    case 3: return -1000 - s;
    case 4: return std::floor(v.data()[size_t(j) % n] * 2) + 0.25 * (j + 1);
    case 5: return j ? s : std::round(v.data()[0]);
    default: return 4.5;
  }
}
template <class V>
static void fSingle(const V* v, const Land* c, double* f) {
  const uint64_t h = hv_(*v);
  visit(h);
  linger(h);
  *f = value(c->land, *v);
}
template <class V, class F>
static void fMulti(const V* v, const Land* c, F* f) {
  const uint64_t h = hv_(*v);
  visit(h);
  linger(h);
  for (int j = 0; j < c->objs; j++) (*f)[j] = value(c->land, *v, j);
}
static uint64_t created = 0;  // touched by the calling thread only
template <class V>
static void iFun(V* v, const Land* c) {
  if constexpr (!std::is_same_v<V, std::array<double, 4>>) v->resize(size_t(c->dim));
  for (int i = 0; i < int(v->size()); i++) v->data()[i] = randD(c->lo, c->hi);
  created = mix(created, hv_(*v));
}
template <class V>
static void cFun(const V* a, const V* b, V* c, V* d, const Land*) {
  *c = *a;
  *d = *b;
  for (int i = 0; i < int(a->size()); i++)
    if (randD() < 0.5) std::swap(c->data()[i], d->data()[i]);
  created = mix(mix(created, hv_(*c)), hv_(*d));
}
template <class V>
static void mFun(const V* a, V* b, const Land* c) {
  *b = *a;
  const int i = randIdx(int(a->size()));
  b->data()[i] = std::min(c->hi, std::max(c->lo, b->data()[i] + randD(-0.5, 0.5)));
  created = mix(created, hv_(*b));
}

static GAOption gaOpt(Rng& rng, int minPop) {
  GAOption o;
  o.populationSize = size_t(rng.coin(0.1) ? minPop : rng.coin(0.1) ? rng.range(60, 150) : rng.range(std::max(2, minPop), 30));
  o.maxGenerations = size_t(rng.range(1, 8));
  o.maxFailTimes = size_t(rng.coin(0.8) ? 0 : rng.range(1, 4));
  static const std::vector<double> p{0.3, 0.6, 0.8, 1.0};
  o.crossoverProb = rng.pick(p);
  o.mutateProb = rng.pick(p);
  return o;
}
template <class S>
static void digestGA(const S& s, Digest& d) {
  for (auto& g : s.population()) d.f[POPULATION] = mix(mix(d.f[POPULATION], hv_(g.decision_variable)), hv_(g.fitness));
  d.f[CREATED] = created;
  d.f[COUNTERS] = mix(s.generation(), s.population().size());
  if constexpr (requires { s.record(); })
    for (auto& r : s.record()) d.f[RECORD] = mix(d.f[RECORD], hv_(r));
}

template <class V, FitnessOption fo, RecordOption rec, SelectMethod sm>
static Digest soga(Rng& rng) {
  heu::SOGA<V, fo, rec, sm, Land> s;
  Land c;
  c.land = int(rng.range(0, 6));
  c.dim = int(rng.range(1, 6));
  s.setArgs(c);
  s.setiFun(&iFun<V>);
  s.setfFun(&fSingle<V>);
  s.setcFun(&cFun<V>);
  s.setmFun(&mFun<V>);
  int minPop = sm == SelectMethod::Tournament ? 4 : 1;
  if constexpr (sm == SelectMethod::RunTimeSelectMethod) {
    static const std::vector<SelectMethod> all{SelectMethod::RouletteWheel, SelectMethod::Tournament, SelectMethod::Truncation, SelectMethod::MonteCarlo,
                                               SelectMethod::Probability, SelectMethod::LinearRank, SelectMethod::ExponentialRank, SelectMethod::Boltzmann,
                                               SelectMethod::StochasticUniversal, SelectMethod::EliteReserved};
    const SelectMethod m = rng.pick(all);
    s.setSelectMethod(m);
    if (m == SelectMethod::Boltzmann) s.setBoltzmannSelectStrength(fo == LESS ? -1 : 1);
    minPop = 4;
  }
  const int runs = int(rng.range(1, 2));
  Digest d;
  for (int r = 0; r < runs; r++) {
    s.setOption(gaOpt(rng, minPop));
    if (r == 0 || rng.coin()) s.initializePop();
    s.run();
    digestGA(s, d);
    d.f[BEST] = mix(d.f[BEST], mix(hv_(s.result()), hv_(s.bestFitness())));
    d.f[COUNTERS] = mix(d.f[COUNTERS], s.failTimes());
  }
  return d;
}
template <class S>
static void frontOf(const S& s, Digest& d) {
  std::vector<uint64_t> hs;
  for (auto g : s.pfGenes()) hs.push_back(mix(hv_(g->decision_variable), hv_(g->fitness)));
  std::sort(hs.begin(), hs.end());
  for (uint64_t h : hs) d.f[FRONT] = mix(d.f[FRONT], h);
}
template <class S>
static Digest mogaRun(S& s, Rng& rng, int objs) {
  using V = std::array<double, 4>;
  using F = typename S::Fitness_t;
  Land c;
  c.land = int(rng.range(0, 6));
  c.objs = objs;
  s.setArgs(c);
  s.setiFun(&iFun<V>);
  s.setfFun(&fMulti<V, F>);
  s.setcFun(&cFun<V>);
  s.setmFun(&mFun<V>);
  const int runs = int(rng.range(1, 2));
  Digest d;
  for (int r = 0; r < runs; r++) {
    s.setOption(gaOpt(rng, 1));
    if (r == 0 || rng.coin()) s.initializePop();
    s.run();
    digestGA(s, d);
    frontOf(s, d);
    d.f[BEST] = mix(d.f[BEST], hv_(s.bestFitness()));
  }
  return d;
}
template <int M, FitnessOption fo>
static Digest nsga2(Rng& rng) {
  heu::NSGA2<std::array<double, 4>, M, fo, REC, Land> s;
  int m = M;
  if constexpr (M == Eigen::Dynamic) s.setObjectiveNum(m = int(rng.range(2, 5)));
  return mogaRun(s, rng, m);
}
template <int M, ReferencePointOption rp>
static Digest nsga3(Rng& rng) {
  heu::NSGA3<std::array<double, 4>, M, REC, rp, Land> s;
  int m = M;
  if constexpr (M == Eigen::Dynamic) s.setObjectiveNum(m = int(rng.range(2, 5)));
  if constexpr (rp == ReferencePointOption::SINGLE_LAYER) s.setReferencePointPrecision(size_t(rng.range(2, 6)));
  else s.setReferencePointPrecision(size_t(rng.range(2, 4)), size_t(rng.range(2, 5)));
  return mogaRun(s, rng, m);
}
template <class V, BoxShape BS, FitnessOption fo, RecordOption rec>
static Digest pso(Rng& rng) {
  heu::PSO<V, BS, fo, rec, Land> s;
  Land c;
  c.land = int(rng.range(0, 6));
  s.setArgs(c);
  s.setfFun(&fSingle<V>);
  int dim = int(V().size());
  V a{}, b{}, w{};
  if constexpr (!array_traits<V>::isFixedSize) {
    dim = int(rng.range(1, 6));
    s.setDimensions(dim);
    a.resize(dim);
    b.resize(dim);
    w.resize(dim);
  }
  for (int i = 0; i < dim; i++) {
    a.data()[i] = rng.d(-3, 0);
    b.data()[i] = rng.d(0.1, 3);
    w.data()[i] = rng.d(0.05, 1);
  }
  if constexpr (BS == BoxShape::SQUARE_BOX) s.setPVRange(a.data()[0], b.data()[0], w.data()[0]);
  else s.setPVRange(a, b, w);
  PSOOption o;
  o.populationSize = size_t(rng.coin(0.15) ? rng.range(60, 160) : rng.range(1, 30));
  o.maxGeneration = size_t(rng.range(1, 10));
  o.maxFailTimes = size_t(rng.coin(0.8) ? 0 : rng.range(1, 4));
  s.setOption(o);
  s.initializePop();
  const int runs = int(rng.range(1, 2));
  Digest d;
  for (int r = 0; r < runs; r++) {
    s.run();
    for (auto& p : s.population())
      d.f[POPULATION] = mix(mix(mix(d.f[POPULATION], hv_(p.position)), mix(hv_(p.velocity), hv_(p.fitness))), mix(hv_(p.pBest.position), hv_(p.pBest.fitness)));
    d.f[BEST] = mix(d.f[BEST], mix(hv_(s.globalBest().position), hv_(s.bestFitness())));
    d.f[COUNTERS] = mix(d.f[COUNTERS], mix(s.generation(), s.failTimes()));
    if constexpr (rec == REC)
      for (auto& r2 : s.record()) d.f[RECORD] = mix(d.f[RECORD], hv_(r2));
  }
  return d;
}
template <class Box, FitnessOption fo, RecordOption rec>
static Digest aos(Rng& rng) {
  using V = typename Box::Var_t;
  heu::AOS<Box, fo, rec, Land> s;
  Land c;
  c.land = int(rng.range(0, 6));
  s.setArg(c);
  s.setfFun(&fSingle<V>);
  if constexpr (!array_traits<V>::isFixedSize) s.setDimensions(int(rng.range(1, 6)));
  const int dim = s.dimensions();
  if constexpr (Box::Shape == BoxShape::SQUARE_BOX) {
    s.setRange(-2, 3);
    s.setDelta(0.5);
  } else {
    V a{}, b{}, w{};
    if constexpr (!array_traits<V>::isFixedSize) {
      a.resize(dim);
      b.resize(dim);
      w.resize(dim);
    }
    for (int i = 0; i < dim; i++) {
      a.data()[i] = rng.d(-3, 0);
      b.data()[i] = rng.d(0.1, 3);
      w.data()[i] = rng.d(0.05, 1);
    }
    s.setRange(a, b);
    s.setDelta(w);
  }
  AOSOption o;
  o.electronNum = size_t(rng.coin(0.15) ? rng.range(40, 120) : rng.range(1, 30));
  o.maxLayerNum = size_t(rng.range(1, std::min<int64_t>(6, int64_t(o.electronNum))));
  o.maxGeneration = size_t(rng.range(1, 8));
  o.maxEarlyStop = size_t(rng.coin(0.8) ? 100 : rng.range(1, 4));
  o.photonRate = rng.pick(std::vector<double>{0.1, 0.5, 0.9});
  s.setOption(o);
  s.initializePop();
  s.run();
  Digest d;
  for (auto& e : s.electrons()) d.f[POPULATION] = mix(mix(d.f[POPULATION], hv_(e.state)), hv_(e.energy));
  for (auto& l : s.layers()) d.f[FRONT] = mix(d.f[FRONT], mix(l.size(), mix(hv_(l.bindingState), hv_(l.bindingEnergy))));
  d.f[BEST] = mix(hv_(s.bestElectron().state), hv_(s.bestElectron().energy));
  d.f[COUNTERS] = mix(s.generation(), s.earlyStopCounter());
  if constexpr (rec == REC)
    for (auto& r2 : s.record()) d.f[RECORD] = mix(d.f[RECORD], hv_(r2));
  return d;
}

// the shipped benchmark functions as fitness
template <class V>
struct SFun {
  using fun = void (*)(const V*, double*);
  using T = heu::testFunctions<V, double>;
  static fun pick(uint64_t k) {
    static const fun two[] = {[](const V* x, double* f) { T::ackley(x, f); },        [](const V* x, double* f) { T::beale(x, f); },
                              [](const V* x, double* f) { T::holderTable(x, f); },   [](const V* x, double* f) { T::GoldsteinPrice(x, f); },
                              [](const V* x, double* f) { T::schaffer4(x, f); },     [](const V* x, double* f) { T::easom(x, f); },
                              [](const V* x, double* f) { T::rastrigin(x, f); },     [](const V* x, double* f) { T::rosenbrock(x, f); },
                              [](const V* x, double* f) { T::styblinskiTang(x, f); }, [](const V* x, double* f) { T::sphere(x, f); }};
    return two[k % 10];
  }
};
template <class V, RecordOption rec>
static Digest psoFun(Rng& rng) {
  heu::PSO<V, BoxShape::SQUARE_BOX, LESS, rec> s;
  s.setfFun(SFun<V>::pick(rng.next()));
  if constexpr (!array_traits<V>::isFixedSize) s.setDimensions(2);
  s.setPVRange(-4, 4, 0.5);
  PSOOption o;
  o.populationSize = size_t(rng.range(2, 60));
  o.maxGeneration = size_t(rng.range(1, 8));
  o.maxFailTimes = 0;
  s.setOption(o);
  s.initializePop();
  s.run();
  Digest d;
  for (auto& p : s.population()) d.f[POPULATION] = mix(mix(mix(d.f[POPULATION], hv_(p.position)), hv_(p.velocity)), hv_(p.fitness));
  d.f[BEST] = mix(hv_(s.globalBest().position), hv_(s.bestFitness()));
  return d;
}
template <class V, int M>
static Digest nsgaFun(Rng& rng) {
  heu::NSGA2<V, M, LESS, NOREC, void> s;
  using F = typename decltype(s)::Fitness_t;
  using T = heu::testFunctions<V, F>;
  using fun = void (*)(const V*, F*);
  static const fun fs[] = {[](const V* x, F* f) { T::DTLZ1(x, f); }, [](const V* x, F* f) { T::DTLZ2(x, f); }, [](const V* x, F* f) { T::DTLZ3(x, f); },
                           [](const V* x, F* f) { T::DTLZ5(x, f); }, [](const V* x, F* f) { T::DTLZ6(x, f); }, [](const V* x, F* f) { T::DTLZ7(x, f); }};
  s.setfFun(fs[rng.next() % 6]);
  s.setiFun([](V* v) {
    if constexpr (!array_traits<V>::isFixedSize) v->resize(8);
    for (int i = 0; i < int(v->size()); i++) v->data()[i] = randD();
  });
  s.setcFun([](const V* a, const V* b, V* c, V* d) {
    *c = *a;
    *d = *b;
    for (int i = 0; i < int(a->size()); i++)
      if (randD() < 0.5) std::swap(c->data()[i], d->data()[i]);
  });
  s.setmFun([](const V* a, V* b) {
    *b = *a;
    b->data()[randIdx(int(a->size()))] = randD();
  });
  s.setOption(gaOpt(rng, 2));
  s.initializePop();
  s.run();
  Digest d;
  digestGA(s, d);
  frontOf(s, d);
  return d;
}

struct Kind {
  const char* name;
  Digest (*run)(Rng&);
};
using S4 = std::array<double, 4>;
using SV = std::vector<double>;
using A4 = Eigen::Array<double, 4, 1>;
using AX = Eigen::ArrayXd;
#define SQ BoxShape::SQUARE_BOX
#define RC BoxShape::RECTANGLE_BOX
#define SL ReferencePointOption::SINGLE_LAYER
#define DL ReferencePointOption::DOUBLE_LAYER
static const std::vector<Kind> gaKinds{
    {"SOGA array less rt", &soga<S4, LESS, REC, SelectMethod::RunTimeSelectMethod>},
    {"SOGA vector greater rt", &soga<SV, GREATER, NOREC, SelectMethod::RunTimeSelectMethod>},
    {"SOGA Eigen less tournament", &soga<AX, LESS, REC, SelectMethod::Tournament>},
    {"SOGA array greater truncation", &soga<S4, GREATER, REC, SelectMethod::Truncation>},
};
static const std::vector<Kind> moKinds{
    {"NSGA2 2", &nsga2<2, LESS>},       {"NSGA2 3", &nsga2<3, GREATER>},          {"NSGA2 rt", &nsga2<Eigen::Dynamic, LESS>},
    {"NSGA3 3", &nsga3<3, SL>}, {"NSGA3 rt", &nsga3<Eigen::Dynamic, SL>}, {"NSGA3 double 4", &nsga3<4, DL>},
};
static const std::vector<Kind> psKinds{
    {"PSO array4 square", &pso<A4, SQ, LESS, REC>},  {"PSO arrayX rect", &pso<AX, RC, GREATER, NOREC>},
    {"PSO std::array rect", &pso<S4, RC, LESS, REC>}, {"PSO std::vector square", &pso<SV, SQ, GREATER, REC>},
};
static const std::vector<Kind> aoKinds{
    {"AOS array4 square", &aos<ContinousBox<A4, SQ>, LESS, REC>},  {"AOS arrayX rect", &aos<ContinousBox<AX, RC>, GREATER, REC>},
    {"AOS std::array rect", &aos<ContinousBox<S4, RC>, LESS, NOREC>}, {"AOS std::vector square", &aos<ContinousBox<SV, SQ>, GREATER, REC>},
};

static const std::vector<Kind> fnKinds{
    {"PSO shipped function array2", &psoFun<Eigen::Array2d, NOREC>}, {"PSO shipped function vector", &psoFun<SV, REC>},
    {"NSGA2 DTLZ std::array", &nsgaFun<std::array<double, 8>, 3>},   {"NSGA2 DTLZ ArrayX", &nsgaFun<AX, 4>},
};

struct Schedule {
  int threads, mode, thN;
  uint64_t seed;
  bool delays;
  int heap;
};
static void* volatile sink;
static Digest perform(const Kind& k, uint64_t caseSeed, const Schedule& s) {
  if (s.seed % 4 == 1) std::thread([&s] { heu::setThreadNum(s.thN); }).join();  // a program may set it in any of its threads
  else heu::setThreadNum(s.thN);
  const shim::State before = shim::state;
  shim::state.threads = s.threads;
  shim::state.mode = s.mode;
  shim::state.seed = s.seed;
  shim::state.delays = s.delays;
  shim::state.limit = s.thN;
  shim::state.asked = 0;
#ifndef __SANITIZE_THREAD__
  visitedHash = 0;
  visitedCount = 0;
  lingers = s.delays;
#endif
  created = 0;
  if (s.heap) {  // another layout of the heap
    Rng h(uint64_t(s.heap));
    std::vector<void*> p;
    for (int i = 0; i < 200; i++) p.push_back(malloc(size_t(h.range(8, 300))));
    for (int i = 0; i < 200; i++)
      if (h.coin()) free(p[size_t(i)]);
    sink = p[0];
  }
  heu::internal::global_mt19937().seed(uint32_t(caseSeed * 2654435761u));
  std::srand(unsigned(caseSeed));
  Rng rng(caseSeed);
  Digest d = k.run(rng);
#ifndef __SANITIZE_THREAD__
  d.f[VISITED] = visitedHash;
  d.f[NVISITED] = visitedCount;
#endif
  d.regions = shim::state.regions - before.regions;
  d.chunks = shim::state.chunks - before.chunks;
  d.iterations = shim::state.iterations - before.iterations;
  d.schedule = shim::state.schedule - before.schedule;
  d.badChunks = shim::state.badChunks - before.badChunks;
  d.team = shim::state.busiestTeam;
  d.tooMany = shim::state.tooMany - before.tooMany;
  d.tooFew = shim::state.tooFew - before.tooFew;
  return d;
}
static void account(const Digest& d) {
  HV_CHECK(d.badChunks == 0, "C06/chunk-size", "a parallel loop was given a chunk size of 0 or less %llu times", (unsigned long long)d.badChunks);
  HV_CHECK(d.tooMany == 0, "C06/more-threads", "%llu of %llu parallel loops use more threads than were set with setThreadNum", (unsigned long long)d.tooMany, (unsigned long long)d.regions);
  HV_CHECK(d.tooFew == 0, "C06/fewer-threads", "%llu of %llu parallel loops use fewer threads than were set with setThreadNum", (unsigned long long)d.tooFew, (unsigned long long)d.regions);
  count("parallel_regions", d.regions);
  count("chunks_scheduled", d.chunks);
  count("loop_iterations", d.iterations);
  if (d.chunks) observed(mix(d.schedule, d.chunks));
}

#ifndef __SANITIZE_THREAD__
// one run in a child of its own
static bool inChild(const Kind& k, uint64_t caseSeed, const Schedule& s, Digest& d) {
  int fd[2];
  if (pipe(fd)) _exit(9);
  const pid_t pid = fork();
  if (pid < 0) _exit(9);
  if (pid == 0) {
    close(fd[0]);
    R.out = "/dev/null";
    signal(SIGABRT, SIG_DFL);
    struct itimerval tv;
    tv.it_interval.tv_sec = tv.it_value.tv_sec = 1;
    tv.it_interval.tv_usec = tv.it_value.tv_usec = 0;
    R.cpuTicks = 0;
    setitimer(ITIMER_PROF, &tv, nullptr);
    Digest r = perform(k, caseSeed, s);
    ssize_t n = write(fd[1], &r, sizeof r);
    _exit(n == ssize_t(sizeof r) ? 0 : 9);
  }
  close(fd[1]);
  size_t got = 0;
  while (got < sizeof d) {
    ssize_t n = read(fd[0], reinterpret_cast<char*>(&d) + got, sizeof d - got);
    if (n <= 0) break;
    got += size_t(n);
  }
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && got == sizeof d) return true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 7) violation("C06/hang", "a run used more than its CPU budget");
  else violation("C06/crash", fmt("a run ended with status %d", st));
  return false;
}
static Schedule randomSchedule(Rng& rng) {
  static const std::vector<int> th{2, 3, 4, 8, 5}, thN{1, 2, 3, 8, 8, 64, 64};
  return {rng.pick(th), rng.coin(0.4) ? -1 : int(rng.range(0, shim::NMODES - 1)), rng.pick(thN), rng.next(), rng.coin(0.6), rng.coin(0.5) ? int(rng.range(1, 1000)) : 0};
}
static void compare(Rng& rng, const std::vector<Kind>& kinds, int n) {
  for (int i = 0; i < n; i++) {
    const Kind& k = kinds[size_t(i) % kinds.size()];
    const uint64_t cs = rng.next();
    beginCase(fmt("%s case=%llx", k.name, (unsigned long long)cs));
    const Schedule serial{1, shim::FIRST_TAKES_ALL, 1, 1, false, 0};
    Digest base, d;
    if (!inChild(k, cs, serial, base)) continue;
    account(base);
    const int others = scale(3, 3);
    for (int j = 0; j < others; j++) {
      const Schedule s = randomSchedule(rng);
      if (!inChild(k, cs, s, d)) continue;
      account(d);
      HV_CHECK(d.iterations == 0 || d.team >= 1, "C06/shim", "no team");
      for (int f = 0; f < NFIELDS; f++)
        HV_CHECK(d.f[f] == base.f[f], std::string("C06/differs-") + fieldName[f], "%s: %s of a run with %d threads (schedule %d/%llx, threadNum %d, heap %d) differ from the serial run", k.name,
                 fieldName[f], s.threads, s.mode, (unsigned long long)s.seed, s.thN, s.heap);
      count("schedules_compared");
      count("evaluations_of_fitness", d.f[NVISITED]);
    }
  }
}
HV_PART(same_soga) { compare(rng, gaKinds, scale(1200)); }
HV_PART(same_moga) { compare(rng, moKinds, scale(900)); }
HV_PART(same_pso) { compare(rng, psKinds, scale(1200)); }
HV_PART(same_aos) { compare(rng, aoKinds, scale(1200)); }
HV_PART(same_functions) { compare(rng, fnKinds, scale(900)); }
#else
static void chase(Rng& rng, const std::vector<Kind>& kinds, int n) {
  static const std::vector<int> thNs{1, 2, 3, 4, 8, 8, 64, 64};
  for (int i = 0; i < n; i++) {
    const Kind& k = kinds[size_t(i) % kinds.size()];
    const uint64_t cs = rng.next();
    const int thN = rng.pick(thNs);
    static const std::vector<int> th{2, 3, 4, 8};
    const Schedule s{rng.pick(th), rng.coin(0.5) ? shim::RANDOM : int(rng.range(0, shim::NMODES - 1)), thN, rng.next(), rng.coin(0.3), 0};
    beginCase(fmt("%s case=%llx threads=%d schedule=%d/%llx threadNum=%d", k.name, (unsigned long long)cs, s.threads, s.mode, (unsigned long long)s.seed, thN));
    account(perform(k, cs, s));
    count("runs_under_race_detection");
  }
}
HV_PART(race_soga) { chase(rng, gaKinds, scale(600)); }
HV_PART(race_moga) { chase(rng, moKinds, scale(600)); }
HV_PART(race_pso) { chase(rng, psKinds, scale(600)); }
HV_PART(race_aos) { chase(rng, aoKinds, scale(600)); }
HV_PART(race_functions) { chase(rng, fnKinds, scale(600)); }
#endif
