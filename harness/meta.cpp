// C23: compile-time and run-time configuration are interchangeable. C24: a solver that is configured and initialized again
// behaves like a new one, and every setting is read back.
#include "hv.hpp"
#include <array>
#include <atomic>
#include <list>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>
#include <HeuristicFlow/Global>
using namespace hv;
using namespace heu;

#define LESS FitnessOption::FITNESS_LESS_BETTER
#define GREATER FitnessOption::FITNESS_GREATER_BETTER
#define REC RecordOption::RECORD_FITNESS
#define NOREC RecordOption::DONT_RECORD_FITNESS
#ifndef ME_GROUP
#define ME_GROUP 0
#endif

// ---- what a run did, field by field
enum Field { VISITED, NVISITED, POPULATION, BEST, FRONT, COUNTERS, RECORD, NFIELDS };
static const char* fieldName[] = {"visited individuals", "number of evaluations", "final population", "best solution", "Pareto front or layers", "counters", "record"};
struct Digest {
  uint64_t f[NFIELDS] = {};
};
static std::atomic<uint64_t> visitedHash{0}, visitedCount{0};

template <class V>
static uint64_t hv_(const V& v) {
  uint64_t h = mix(5, uint64_t(v.size()));
  for (size_t i = 0; i < size_t(v.size()); i++) h = mix(h, bits(double(v.data()[i])));
  return h;
}
static uint64_t hv_(double d) { return mix(9, bits(d)); }

// relations between different fitness values: fitness itself is left out of the digests
static bool ignoreFitness = false;
template <class F>
static uint64_t fh(const F& f) { return ignoreFitness ? 1 : hv_(f); }

struct Land {
  int land = 0, objs = 1, dim = 4;
  int sign = 1, shift[32] = {}, stretch = 0;  // an exact, strictly monotone transformation of the fitness
  double lo = -2, hi = 2;
  bool operator==(const Land& o) const { return land == o.land && objs == o.objs && dim == o.dim && lo == o.lo && hi == o.hi; }
};
// sign * 2^shift * f, and f = m*2^e becomes m*2^(2e+e) when stretched: order kept, no rounding
static double transform(const Land& c, double f, int j = 0) {
  if (c.stretch && f != 0) {
    int e;
    const double m = std::frexp(f, &e);
    f = std::ldexp(m, 3 * e);
  }
  return c.sign * std::ldexp(f, c.shift[j]);
}
static Land G;  // for the solvers without Args
static Land wanted;  // transformation to use
static void useTransform(Land& c) {
  c.sign = wanted.sign;
  c.stretch = wanted.stretch;
  for (int j = 0; j < 32; j++) c.shift[j] = wanted.shift[j];
}
template <class V>
static double value(int land, const V& v, int j = 0) {
  const size_t n = size_t(v.size());
  double s = 0;
  for (size_t i = 0; i < n; i++) {
    const double c = std::sin(1.7 * j + 2.3 * double(i) + 0.5);
    s += (v.data()[i] - c) * (v.data()[i] - c);
  }
  switch (land % 7) {
    case 0: return s;
    case 1: {
      double r = s;
      for (size_t i = 0; i < n; i++) r += 3 * (1 - std::cos(6 * v.data()[i] + j));
      return r;
    }
    case 2: return std::round(s);
    case 3: return -1000 - s;
    case 4: return std::floor(v.data()[size_t(j) % n] * 2) + 0.25 * (j + 1);
    case 5: return j ? s : std::round(v.data()[0]);
    default: return 4.5;
  }
}
template <class V>
static void visit(const V& v) {
  visitedHash.fetch_add(hv_(v), std::memory_order_relaxed);
  visitedCount.fetch_add(1, std::memory_order_relaxed);
}
template <class V>
static void fS(const V* v, const Land* c, double* f) {
  visit(*v);
  *f = transform(*c, value(c->land, *v));
}
template <class V>
static void fS0(const V* v, double* f) { fS(v, &G, f); }
template <class V, class F>
static void fM(const V* v, const Land* c, F* f) {
  visit(*v);
  for (int j = 0; j < c->objs; j++) (*f)[j] = transform(*c, value(c->land, *v, j), j);
}
template <class V, class F>
static void fM0(const V* v, F* f) { fM<V, F>(v, &G, f); }
template <class V>
static void iF(V* v, const Land* c) {
  if constexpr (!array_traits<V>::isFixedSize) v->resize(size_t(c->dim));
  for (int i = 0; i < int(v->size()); i++) v->data()[i] = randD(c->lo, c->hi);
}
template <class V>
static void iF0(V* v) { iF(v, &G); }
template <class V>
static void cF(const V* a, const V* b, V* c, V* d, const Land*) {
  *c = *a;
  *d = *b;
  for (int i = 0; i < int(a->size()); i++)
    if (randD() < 0.5) std::swap(c->data()[i], d->data()[i]);
}
template <class V>
static void cF0(const V* a, const V* b, V* c, V* d) { cF(a, b, c, d, &G); }
template <class V>
static void mF(const V* a, V* b, const Land* c) {
  *b = *a;
  const int i = randIdx(int(a->size()));
  b->data()[i] = std::min(c->hi, std::max(c->lo, b->data()[i] + randD(-0.5, 0.5)));
}
template <class V>
static void mF0(const V* a, V* b) { mF(a, b, &G); }
// PSO: position and velocity
template <class V>
static void pI(V* p, V* v, const V* lo, const V* hi, const V* vm, const Land*) {
  if constexpr (!array_traits<V>::isFixedSize) {
    p->resize(lo->size());
    v->resize(lo->size());
  }
  for (int i = 0; i < int(p->size()); i++) {
    p->data()[i] = randD(lo->data()[i], hi->data()[i]);
    v->data()[i] = 0.5 * vm->data()[i];
  }
}

static void seedAll(uint64_t s) {
  heu::internal::global_mt19937().seed(uint32_t(s * 2654435761u + 17));
  std::srand(unsigned(s));
  visitedHash = 0;
  visitedCount = 0;
}
static void takeVisits(Digest& d) {
  d.f[VISITED] = visitedHash;
  d.f[NVISITED] = visitedCount;
}

static void sameDigest(const std::string& key, const Digest& a, const Digest& b, const char* what, bool record = false) {
  for (int f = 0; f < (record ? NFIELDS : int(RECORD)); f++)
    HV_CHECK(a.f[f] == b.f[f], key, "%s: the %s differ", what, fieldName[f]);
}
static uint64_t sig(const Digest& d) {
  uint64_t h = 1;
  for (int f = 0; f < RECORD; f++) h = mix(h, d.f[f]);
  return h;
}

static GAOption gaOpt(Rng& rng, int minPop) {
  GAOption o;
  o.populationSize = size_t(rng.coin(0.1) ? minPop : rng.coin(0.1) ? rng.range(60, 110) : rng.range(std::max(2, minPop), 24));
  o.maxGenerations = size_t(rng.coin(0.1) ? 0 : rng.range(1, 8));
  o.maxFailTimes = size_t(rng.coin(0.7) ? 0 : rng.range(1, 4));
  static const std::vector<double> p{0, 0.3, 0.6, 0.8, 1.0};
  o.crossoverProb = rng.pick(p);
  o.mutateProb = rng.pick(p);
  return o;
}
template <class A, class B>
static bool sameOpt(const A& a, const B& b) {
  if constexpr (requires { a.crossoverProb; })
    return a.populationSize == b.populationSize && a.maxFailTimes == b.maxFailTimes && a.maxGenerations == b.maxGenerations && a.crossoverProb == b.crossoverProb &&
           a.mutateProb == b.mutateProb;
  else if constexpr (requires { a.inertiaFactor; })
    return a.populationSize == b.populationSize && a.maxGeneration == b.maxGeneration && a.maxFailTimes == b.maxFailTimes && a.inertiaFactor == b.inertiaFactor &&
           a.learnFactorP == b.learnFactorP && a.learnFactorG == b.learnFactorG;
  else
    return a.electronNum == b.electronNum && a.maxGeneration == b.maxGeneration && a.maxEarlyStop == b.maxEarlyStop && a.maxLayerNum == b.maxLayerNum &&
           a.photonRate == b.photonRate;
}
template <class S>
static void setOptionBack(S& s, const decltype(S().option())& o) {
  s.setOption(o);
  HV_CHECK(sameOpt(s.option(), o), "C24/option", "the options read back differ from the ones that were set");
}
template <class S>
static void digestGA(const S& s, Digest& d) {
  std::vector<uint64_t> p;
  for (auto& g : s.population()) p.push_back(mix(hv_(g.decision_variable), fh(g.fitness)));
  std::sort(p.begin(), p.end());
  for (uint64_t h : p) d.f[POPULATION] = mix(d.f[POPULATION], h);
  d.f[COUNTERS] = mix(d.f[COUNTERS], mix(s.generation(), s.population().size()));
  if constexpr (requires { s.record(); })
    for (auto& r : s.record()) d.f[RECORD] = mix(d.f[RECORD], fh(r));
}

// sets functions that are not given at compile time, and reads all of them back
template <class V, class S, class FF, class FF0>
static void setGAFuns(S& s, const Land& c, FF ff, FF0 ff0) {
  if constexpr (S::HasParameters) {
    s.setArgs(c);
    HV_CHECK(s.args() == c, "C24/args", "the args read back differ from the ones that were set");
    if constexpr (requires { s.setiFun(&iF<V>); }) s.setiFun(&iF<V>);
    if constexpr (requires { s.setfFun(ff); }) s.setfFun(ff);
    if constexpr (requires { s.setcFun(&cF<V>); }) s.setcFun(&cF<V>);
    if constexpr (requires { s.setmFun(&mF<V>); }) s.setmFun(&mF<V>);
    HV_CHECK(s.iFun() == &iF<V> && s.fFun() == ff && s.cFun() == &cF<V> && s.mFun() == &mF<V>, "C24/functions", "a function read back is not the one that was set");
  } else {
    if constexpr (requires { s.setiFun(&iF0<V>); }) s.setiFun(&iF0<V>);
    if constexpr (requires { s.setfFun(ff0); }) s.setfFun(ff0);
    if constexpr (requires { s.setcFun(&cF0<V>); }) s.setcFun(&cF0<V>);
    if constexpr (requires { s.setmFun(&mF0<V>); }) s.setmFun(&mF0<V>);
    HV_CHECK(s.iFun() == &iF0<V> && s.fFun() == ff0 && s.cFun() == &cF0<V> && s.mFun() == &mF0<V>, "C24/functions", "a function read back is not the one that was set");
  }
}

// ------------------------------------------------------------------------------------------------------------ SOGA
static const std::vector<std::pair<SelectMethod, const char*>> methods{
    {SelectMethod::RouletteWheel, "RouletteWheel"}, {SelectMethod::Tournament, "Tournament"}, {SelectMethod::Truncation, "Truncation"},
    {SelectMethod::MonteCarlo, "MonteCarlo"}, {SelectMethod::Probability, "Probability"}, {SelectMethod::LinearRank, "LinearRank"},
    {SelectMethod::ExponentialRank, "ExponentialRank"}, {SelectMethod::Boltzmann, "Boltzmann"}, {SelectMethod::StochasticUniversal, "StochasticUniversal"},
    {SelectMethod::EliteReserved, "EliteReserved"}};

template <class S>
static void configureSOGA(S& s, uint64_t cs, SelectMethod m, FitnessOption fo, bool fixedDim) {
  Rng rng(cs);
  Land c;
  c.land = int(rng.range(0, 6));
  const int dm = int(rng.range(1, 6));
  c.dim = fixedDim ? 4 : dm;
  useTransform(c);
  G = c;
  using V = typename std::decay<decltype(s.result())>::type;
  setGAFuns<V>(s, c, &fS<V>, &fS0<V>);
  if constexpr (requires { s.setSelectMethod(m); }) {
    s.setSelectMethod(m);
    HV_CHECK(s.selectMethod() == m, "C24/select-method", "the selection method read back differs from the one that was set");
  }
  const GAOption o = gaOpt(rng, 4);
  setOptionBack(s, o);
  const int ts = int(rng.range(2, 3));
  const double worst = rng.coin() ? 0.0 : rng.d(0, 0.4), best = rng.coin() ? 1.0 : rng.d(0.5, 1), base = rng.d(0, 0.95), strength = (fo == LESS ? -1 : 1) * rng.d(0.1, 3), power = rng.d(0.2, 3);
  const int elites = int(rng.range(1, int64_t(o.populationSize)));
  if constexpr (requires { s.setTournamentSize(ts); }) {
    s.setTournamentSize(ts);
    HV_CHECK(s.tournamentSize() == ts, "C24/tournament-size", "tournament size %d reads back %d", ts, int(s.tournamentSize()));
  }
  if constexpr (requires { s.setLinearSelectProbability(worst, best); }) {
    s.setLinearSelectProbability(worst, best);
    HV_CHECK(s.linearSelectBestProbability() == best, "C24/linear", "linear rank probabilities read back differ");
    if constexpr (requires { s.linearSelectWrostProbability(); }) HV_CHECK(s.linearSelectWrostProbability() == worst, "C24/linear", "linear rank probabilities read back differ");
  }
  if constexpr (requires { s.setExponetialSelectBase(base); }) {
    s.setExponetialSelectBase(base);
    HV_CHECK(s.exponetialSelectBase() == base, "C24/exponential", "base %g reads back %g", base, double(s.exponetialSelectBase()));
  }
  if constexpr (requires { s.setBoltzmannSelectStrength(strength); }) {
    s.setBoltzmannSelectStrength(strength);
    HV_CHECK(s.boltzmannSelectStrength() == strength, "C24/boltzmann", "strength %g reads back %g", strength, double(s.boltzmannSelectStrength()));
  }
  if constexpr (requires { s.setEliteNum(elites); }) {
    s.setEliteNum(elites);
    HV_CHECK(int(s.eliteNum()) == elites, "C24/elites", "elite number %d reads back %d", elites, int(s.eliteNum()));
  }
  (void)power;
}
template <class S>
static Digest playSOGA(S& s, uint64_t cs, int runs) {
  Digest d;
  seedAll(cs);
  s.initializePop();
  for (int r = 0; r < runs; r++) {
    s.run();
    digestGA(s, d);
    d.f[BEST] = mix(d.f[BEST], mix(hv_(s.result()), fh(s.bestFitness())));
    d.f[COUNTERS] = mix(d.f[COUNTERS], s.failTimes());
  }
  takeVisits(d);
  return d;
}
using S4 = std::array<double, 4>;
using SV = std::vector<double>;
template <SelectMethod M, FitnessOption fo>
static void sogaVariants(Rng& rng, const char* name, int n) {
  constexpr auto RT = SelectMethod::RunTimeSelectMethod;
  for (int i = 0; i < n; i++) {
    const uint64_t cs = rng.next();
    const int runs = int(rng.range(1, 2));
    beginCase(fmt("SOGA %s %s case=%llx", name, fo == LESS ? "less" : "greater", (unsigned long long)cs));
    heu::SOGA<S4, fo, REC, M, Land> a;                                            // reference: Args, run-time functions
    heu::SOGA<S4, fo, NOREC, RT, Land, &iF<S4>, &fS<S4>, &cF<S4>, &mF<S4>> b;      // run-time method, compile-time functions
    heu::SOGA<S4, fo, REC, RT, void> c;                                           // run-time everything, no Args
    heu::SOGA<S4, fo, NOREC, M, void, &iF0<S4>, &fS0<S4>, &cF0<S4>, &mF0<S4>> d;   // compile-time everything
    heu::SOGA<SV, fo, REC, M, Land, nullptr, &fS<SV>> e;                          // another container, one compile-time function
    configureSOGA(a, cs, M, fo, true);
    const Digest A = playSOGA(a, cs, runs);
    configureSOGA(b, cs, M, fo, true);
    sameDigest("C23/soga-method-and-functions", A, playSOGA(b, cs, runs), "run-time method, compile-time functions, no record");
    configureSOGA(c, cs, M, fo, true);
    sameDigest("C23/soga-no-args", A, playSOGA(c, cs, runs), "run-time method, no Args", true);
    configureSOGA(d, cs, M, fo, true);
    sameDigest("C23/soga-compile-time", A, playSOGA(d, cs, runs), "everything at compile time, no Args, no record");
    configureSOGA(e, cs, M, fo, true);
    sameDigest("C23/soga-vector", A, playSOGA(e, cs, runs), "std::vector instead of std::array", true);
    count("variants_compared", 4);
    observed(sig(A));
  }
}
// the solver `used` has a history; after configuration and initialization it is like new
template <class Make, class Configure, class Play>
static void reuse(Rng& rng, const char* name, int n, Make make, Configure configure, Play play) {
  for (int i = 0; i < n; i++) {
    beginCase(fmt("reused %s case=%d", name, i));
    auto used = make();
    const int past = int(rng.range(1, 3));
    for (int p = 0; p < past; p++) {
      const uint64_t cs = rng.next();
      configure(*used, cs);
      play(*used, cs, int(rng.range(1, 2)));
    }
    const uint64_t cs = rng.next();
    const int runs = int(rng.range(1, 2));
    configure(*used, cs);
    const Digest U = play(*used, cs, runs);
    auto fresh = make();
    configure(*fresh, cs);
    const Digest F = play(*fresh, cs, runs);
    sameDigest(std::string("C24/reused-") + name, F, U, "a solver used before, configured and initialized again", true);
    count("histories_before_reuse", uint64_t(past));
    observed(sig(U));
  }
}
template <SelectMethod M, FitnessOption fo>
static void sogaReuse(Rng& rng, int n) {
  using S = heu::SOGA<SV, fo, REC, M, Land>;
  reuse(
      rng, "SOGA", n, [] { return std::make_unique<S>(); },
      [](S& s, uint64_t cs) { configureSOGA(s, cs, M == SelectMethod::RunTimeSelectMethod ? methods[cs % methods.size()].first : M, fo, false); },
      [](S& s, uint64_t cs, int runs) { return playSOGA(s, cs, runs); });
}
#if ME_GROUP == 0
#define SOGA_PART(M)                                                           \
  HV_PART(static_soga_##M) {                                                   \
    sogaVariants<SelectMethod::M, LESS>(rng, #M, scale(60));                   \
    sogaReuse<SelectMethod::M, LESS>(rng, scale(60));                          \
  }
SOGA_PART(RouletteWheel)
SOGA_PART(Tournament)
SOGA_PART(Truncation)
SOGA_PART(MonteCarlo)
SOGA_PART(Probability)
HV_PART(reuse_soga_less) { sogaReuse<SelectMethod::RunTimeSelectMethod, LESS>(rng, scale(400)); }
#endif
#if ME_GROUP == 1
#define SOGA_PART(M)                                                           \
  HV_PART(static_soga_##M) {                                                   \
    sogaVariants<SelectMethod::M, GREATER>(rng, #M, scale(60));                \
    sogaReuse<SelectMethod::M, GREATER>(rng, scale(60));                       \
  }
SOGA_PART(LinearRank)
SOGA_PART(ExponentialRank)
SOGA_PART(Boltzmann)
SOGA_PART(StochasticUniversal)
SOGA_PART(EliteReserved)
HV_PART(reuse_soga_greater) { sogaReuse<SelectMethod::RunTimeSelectMethod, GREATER>(rng, scale(400)); }
#endif

// ------------------------------------------------------------------------------------------------------------ NSGA
template <class S>
static void configureMOGA(S& s, uint64_t cs, int fixedM) {
  using V = typename std::decay<decltype(s.population().front().decision_variable)>::type;
  using F = typename S::Fitness_t;
  Rng rng(cs);
  Land c;
  c.land = int(rng.range(0, 6));
  c.objs = rng.coin(0.25) ? int(rng.range(6, 9)) : int(rng.range(2, 5));
  if (fixedM > 0) c.objs = fixedM;
  useTransform(c);
  G = c;
  setGAFuns<V>(s, c, &fM<V, F>, &fM0<V, F>);
  if constexpr (requires { s.setObjectiveNum(2); }) s.setObjectiveNum(c.objs);
  HV_CHECK(int(s.objectiveNum()) == c.objs, "C24/objective-number", "%d objectives read back as %d", c.objs, int(s.objectiveNum()));
  setOptionBack(s, gaOpt(rng, 1));
  const int few = c.objs > 5 ? 3 : 0;
  const size_t p = size_t(rng.range(1, 6 - few)), in = size_t(rng.range(2, few ? 2 : 4)), out = size_t(rng.range(2, 5 - few / 2));
  if constexpr (requires { s.setReferencePointPrecision(p); }) {
    s.setReferencePointPrecision(p);
    HV_CHECK(s.referencePointPrecision() == p, "C24/precision", "the precision read back differs");
  }
  if constexpr (requires { s.setReferencePointPrecision(in, out); }) {
    s.setReferencePointPrecision(in, out);
    HV_CHECK(s.innerPrecision() == in && s.outerPrecision() == out, "C24/precision", "the precisions read back differ");
  }
}
template <class S>
static Digest playMOGA(S& s, uint64_t cs, int runs) {
  Digest d;
  seedAll(cs);
  s.initializePop();
  for (int r = 0; r < runs; r++) {
    s.run();
    digestGA(s, d);
    std::vector<uint64_t> hs;
    for (auto g : s.pfGenes()) hs.push_back(mix(hv_(g->decision_variable), fh(g->fitness)));
    std::sort(hs.begin(), hs.end());
    for (uint64_t h : hs) d.f[FRONT] = mix(d.f[FRONT], h);
    if constexpr (requires { s.referencePoints(); })
      for (int k = 0; k < int(s.referencePoints().cols()); k++)
        for (int j = 0; j < int(s.referencePoints().rows()); j++) d.f[FRONT] = mix(d.f[FRONT], hv_(s.referencePoints()(j, k)));
    d.f[BEST] = mix(d.f[BEST], fh(s.bestFitness()));
  }
  takeVisits(d);
  return d;
}
template <class A, class B, class C, class D>
static void mogaVariants(Rng& rng, const char* name, int M, int n) {
  for (int i = 0; i < n; i++) {
    const uint64_t cs = rng.next();
    const int runs = int(rng.range(1, 2));
    beginCase(fmt("%s M=%d case=%llx", name, M, (unsigned long long)cs));
    A a;
    B b;
    C c;
    D d;
    configureMOGA(a, cs, M);
    const Digest X = playMOGA(a, cs, runs);
    configureMOGA(b, cs, M);
    sameDigest("C23/moga-functions", X, playMOGA(b, cs, runs), "compile-time functions, no record");
    configureMOGA(c, cs, M);
    sameDigest("C23/moga-no-args", X, playMOGA(c, cs, runs), "no Args, other kind of objective number", true);
    configureMOGA(d, cs, M);
    sameDigest("C23/moga-compile-time", X, playMOGA(d, cs, runs), "compile-time functions, no Args, std::vector, other kind of objective number");
    count("variants_compared", 3);
    observed(sig(X));
  }
}
template <int M>
using FT = Eigen::Array<double, M, 1>;
constexpr int DY = Eigen::Dynamic;
template <int M, FitnessOption fo>
static void nsga2Variants(Rng& rng, int n) {
  mogaVariants<heu::NSGA2<S4, M, fo, REC, Land>, heu::NSGA2<S4, M, fo, NOREC, Land, &iF<S4>, &fM<S4, FT<M>>, &cF<S4>, &mF<S4>>, heu::NSGA2<S4, DY, fo, REC, void>,
               heu::NSGA2<SV, DY, fo, NOREC, void, &iF0<SV>, &fM0<SV, FT<DY>>, &cF0<SV>, &mF0<SV>>>(rng, "NSGA2", M, n);
}
// a fixed and a run-time number of objectives solve for the hyperplane with differently rounding code: not compared
template <int M, int MT, ReferencePointOption rp>
static void nsga3Variants(Rng& rng, int n) {
  mogaVariants<heu::NSGA3<S4, MT, REC, rp, Land>, heu::NSGA3<S4, MT, NOREC, rp, Land, &iF<S4>, &fM<S4, FT<MT>>, &cF<S4>, &mF<S4>>, heu::NSGA3<S4, MT, REC, rp, void>,
               heu::NSGA3<SV, MT, NOREC, rp, void, &iF0<SV>, &fM0<SV, FT<MT>>, &cF0<SV>, &mF0<SV>>>(rng, rp == SINGLE_LAYER ? "NSGA3" : "NSGA3 double", M, n);
}
template <class S>
static void mogaReuse(Rng& rng, const char* name, int M, int n) {
  reuse(
      rng, name, n, [] { return std::make_unique<S>(); }, [M](S& s, uint64_t cs) { configureMOGA(s, cs, M); },
      [](S& s, uint64_t cs, int runs) { return playMOGA(s, cs, runs); });
}
#if ME_GROUP == 2
HV_PART(static_nsga2) {
  nsga2Variants<2, LESS>(rng, scale(100));
  nsga2Variants<3, GREATER>(rng, scale(100));
  nsga2Variants<6, LESS>(rng, scale(100));
  nsga2Variants<17, GREATER>(rng, scale(50));
}
HV_PART(reuse_nsga2) {
  mogaReuse<heu::NSGA2<S4, 2, LESS, REC, Land>>(rng, "NSGA2", 2, scale(200));
  mogaReuse<heu::NSGA2<SV, DY, GREATER, REC, void>>(rng, "NSGA2", -1, scale(200));
}
#endif
#if ME_GROUP == 3
HV_PART(static_nsga3) {
  nsga3Variants<3, 3, SINGLE_LAYER>(rng, scale(100));
  nsga3Variants<3, DY, SINGLE_LAYER>(rng, scale(60));
  nsga3Variants<4, 4, DOUBLE_LAYER>(rng, scale(60));
  nsga3Variants<5, DY, DOUBLE_LAYER>(rng, scale(30));
}
HV_PART(reuse_nsga3) {
  mogaReuse<heu::NSGA3<S4, 3, REC, SINGLE_LAYER, Land>>(rng, "NSGA3", 3, scale(100));
  mogaReuse<heu::NSGA3<S4, DY, REC, SINGLE_LAYER, Land>>(rng, "NSGA3", -1, scale(150));
  mogaReuse<heu::NSGA3<S4, DY, REC, DOUBLE_LAYER, void>>(rng, "NSGA3-double", -1, scale(100));
}
#endif

// ------------------------------------------------------------------------------------------------------------- PSO
template <class V>
static V filled(int dim, Rng& rng, double lo, double hi, bool square) {
  V v{};
  if constexpr (!array_traits<V>::isFixedSize) v.resize(size_t(dim));
  const double x = rng.d(lo, hi);
  for (int i = 0; i < int(v.size()); i++) {
    const double y = rng.d(lo, hi);
    v.data()[i] = square ? x : y;
  }
  return v;
}
template <class V>
static void iP(V* p, V* v, const Land* c) {
  if constexpr (!array_traits<V>::isFixedSize) {
    p->resize(size_t(c->dim));
    v->resize(size_t(c->dim));
  }
  for (int i = 0; i < int(p->size()); i++) {
    p->data()[i] = randD(-0.1, 0.1);
    v->data()[i] = randD(-0.01, 0.01);
  }
}
template <class V>
static void iP0(V* p, V* v) { iP(p, v, &G); }

template <class S>
static void configurePSO(S& s, uint64_t cs, bool square, bool fixedDim) {
  using V = typename std::decay<decltype(s.globalBest().position)>::type;
  Rng rng(cs);
  Land c;
  c.land = int(rng.range(0, 6));
  const int dm = int(rng.range(1, 6));
  c.dim = fixedDim ? 4 : dm;
  useTransform(c);
  G = c;
  constexpr bool args = requires { s.setArgs(c); };
  if constexpr (args) {
    s.setArgs(c);
    HV_CHECK(s.args() == c, "C24/args", "the args read back differ from the ones that were set");
    if constexpr (requires { s.setfFun(&fS<V>); }) s.setfFun(&fS<V>);
    HV_CHECK(s.fFun() == &fS<V>, "C24/functions", "the fitness function read back is not the one that was set");
    if constexpr (requires { s.setiFun(&iP<V>); }) {
      s.setiFun(&iP<V>);
      HV_CHECK(s.iFun() == &iP<V>, "C24/functions", "the initialization function read back is not the one that was set");
    }
  } else {
    if constexpr (requires { s.setfFun(&fS0<V>); }) s.setfFun(&fS0<V>);
    HV_CHECK(s.fFun() == &fS0<V>, "C24/functions", "the fitness function read back is not the one that was set");
    if constexpr (requires { s.setiFun(&iP0<V>); }) {
      s.setiFun(&iP0<V>);
      HV_CHECK(s.iFun() == &iP0<V>, "C24/functions", "the initialization function read back is not the one that was set");
    }
  }
  if constexpr (!array_traits<V>::isFixedSize) {
    s.setDimensions(c.dim);
    HV_CHECK(int(s.dimensions()) == c.dim, "C24/dimensions", "%d dimensions read back as %d", c.dim, int(s.dimensions()));
  }
  const V a = filled<V>(c.dim, rng, -3, -0.2, square), b = filled<V>(c.dim, rng, 0.2, 3, square), w = filled<V>(c.dim, rng, 0.05, 1, square);
  if constexpr (requires { s.setPVRange(0.0, 1.0, 1.0); s.posMin() + 1.0; s.posMin() < 1.0 ? 1 : 0; }) {
    if (square && S::Shape == BoxShape::SQUARE_BOX) s.setPVRange(a.data()[0], b.data()[0], w.data()[0]);
  }
  if constexpr (S::Shape == BoxShape::RECTANGLE_BOX) s.setPVRange(a, b, w);
  for (int i = 0; i < c.dim; i++)
    HV_CHECK(s.posMin(i) == a.data()[i] && s.posMax(i) == b.data()[i] && s.maxVelocity(i) == w.data()[i], "C24/range", "range of dimension %d reads back [%g,%g] %g, not [%g,%g] %g", i,
             double(s.posMin(i)), double(s.posMax(i)), double(s.maxVelocity(i)), a.data()[i], b.data()[i], w.data()[i]);
  PSOOption o;
  o.populationSize = size_t(rng.coin(0.1) ? rng.range(50, 100) : rng.range(1, 24));
  o.maxGeneration = size_t(rng.coin(0.1) ? 0 : rng.range(1, 10));
  o.maxFailTimes = size_t(rng.coin(0.7) ? 0 : rng.range(1, 4));
  o.inertiaFactor = rng.d(0, 1);
  o.learnFactorP = rng.d(0, 2);
  o.learnFactorG = rng.d(0, 2);
  setOptionBack(s, o);
}
template <class S>
static Digest playPSO(S& s, uint64_t cs, int runs) {
  Digest d;
  seedAll(cs);
  s.initializePop();
  for (int r = 0; r < runs; r++) {
    s.run();
    for (auto& p : s.population())
      d.f[POPULATION] = mix(mix(mix(d.f[POPULATION], hv_(p.position)), mix(hv_(p.velocity), fh(p.fitness))), mix(hv_(p.pBest.position), fh(p.pBest.fitness)));
    d.f[BEST] = mix(d.f[BEST], mix(hv_(s.globalBest().position), fh(s.bestFitness())));
    d.f[COUNTERS] = mix(d.f[COUNTERS], mix(s.generation(), s.failTimes()));
    if constexpr (requires { s.record(); })
      for (auto& r2 : s.record()) d.f[RECORD] = mix(d.f[RECORD], fh(r2));
  }
  takeVisits(d);
  return d;
}
template <class A, class B, class C, class D>
static void psoVariants(Rng& rng, const char* name, bool square, int n) {
  for (int i = 0; i < n; i++) {
    const uint64_t cs = rng.next();
    const int runs = int(rng.range(1, 2));
    beginCase(fmt("PSO %s case=%llx", name, (unsigned long long)cs));
    A a;
    B b;
    C c;
    D d;
    configurePSO(a, cs, square, true);
    const Digest X = playPSO(a, cs, runs);
    configurePSO(b, cs, square, true);
    sameDigest("C23/pso-functions", X, playPSO(b, cs, runs), "compile-time functions, no record");
    configurePSO(c, cs, square, true);
    sameDigest("C23/pso-dimension", X, playPSO(c, cs, runs), "run-time dimension, no Args", true);
    configurePSO(d, cs, square, true);
    sameDigest("C23/pso-compile-time", X, playPSO(d, cs, runs), "run-time dimension, compile-time functions, no Args");
    count("variants_compared", 3);
    observed(sig(X));
  }
}
template <class VF, class VD, BoxShape BS, FitnessOption fo>
static void psoKinds(Rng& rng, const char* name, int n) {
  const bool sq = BS == SQUARE_BOX;
  psoVariants<heu::PSO<VF, BS, fo, REC, Land>, heu::PSO<VF, BS, fo, NOREC, Land, &fS<VF>>, heu::PSO<VD, BS, fo, REC, void>, heu::PSO<VD, BS, fo, NOREC, void, &fS0<VD>>>(rng, name, sq, n);
  // with an initialization function of the user's
  psoVariants<heu::PSO<VF, BS, fo, REC, Land, nullptr, nullptr>, heu::PSO<VF, BS, fo, NOREC, Land, &fS<VF>, &iP<VF>>, heu::PSO<VD, BS, fo, REC, void, nullptr, nullptr>,
              heu::PSO<VD, BS, fo, NOREC, void, &fS0<VD>, &iP0<VD>>>(rng, name, sq, n);
}
template <class S>
static void psoReuse(Rng& rng, const char* name, bool square, int n) {
  using V = typename std::decay<decltype(S().globalBest().position)>::type;
  reuse(
      rng, name, n, [] { return std::make_unique<S>(); }, [square](S& s, uint64_t cs) { configurePSO(s, cs, square, array_traits<V>::isFixedSize); },
      [](S& s, uint64_t cs, int runs) { return playPSO(s, cs, runs); });
}
using A4 = Eigen::Array<double, 4, 1>;
using AX = Eigen::ArrayXd;
#if ME_GROUP == 4
HV_PART(static_pso) {
  psoKinds<A4, AX, SQUARE_BOX, LESS>(rng, "Eigen square", scale(60));
  psoKinds<A4, AX, RECTANGLE_BOX, GREATER>(rng, "Eigen rectangle", scale(60));
  psoKinds<S4, SV, SQUARE_BOX, GREATER>(rng, "std square", scale(60));
  psoKinds<S4, SV, RECTANGLE_BOX, LESS>(rng, "std rectangle", scale(60));
}
HV_PART(reuse_pso) {
  psoReuse<heu::PSO<AX, SQUARE_BOX, LESS, REC, Land>>(rng, "PSO", true, scale(120));
  psoReuse<heu::PSO<AX, RECTANGLE_BOX, GREATER, REC, void>>(rng, "PSO", false, scale(120));
  psoReuse<heu::PSO<SV, RECTANGLE_BOX, LESS, REC, Land, nullptr, nullptr>>(rng, "PSO", false, scale(120));
  psoReuse<heu::PSO<S4, SQUARE_BOX, GREATER, REC, void>>(rng, "PSO", true, scale(120));
}
#endif

// ------------------------------------------------------------------------------------------------------------- AOS
template <class S>
static void configureAOS(S& s, uint64_t cs, bool square, bool fixedDim) {
  using V = typename std::decay<decltype(s.bestElectron().state)>::type;
  Rng rng(cs);
  Land c;
  c.land = int(rng.range(0, 6));
  const int dm = int(rng.range(1, 6));
  c.dim = fixedDim ? 4 : dm;
  useTransform(c);
  G = c;
  if constexpr (requires { s.setArg(c); }) {
    s.setArg(c);
    HV_CHECK(s.arg() == c, "C24/args", "the args read back differ from the ones that were set");
    if constexpr (requires { s.setfFun(&fS<V>); }) s.setfFun(&fS<V>);
    HV_CHECK(s.fFun() == &fS<V>, "C24/functions", "the fitness function read back is not the one that was set");
    if constexpr (requires { s.setiFun(&iF<V>); }) {
      s.setiFun(&iF<V>);
      HV_CHECK(s.iFun() == &iF<V>, "C24/functions", "the initialization function read back is not the one that was set");
    }
  } else {
    if constexpr (requires { s.setfFun(&fS0<V>); }) s.setfFun(&fS0<V>);
    HV_CHECK(s.fFun() == &fS0<V>, "C24/functions", "the fitness function read back is not the one that was set");
    if constexpr (requires { s.setiFun(&iF0<V>); }) {
      s.setiFun(&iF0<V>);
      HV_CHECK(s.iFun() == &iF0<V>, "C24/functions", "the initialization function read back is not the one that was set");
    }
  }
  if constexpr (!array_traits<V>::isFixedSize) {
    s.setDimensions(c.dim);
    HV_CHECK(int(s.dimensions()) == c.dim, "C24/dimensions", "%d dimensions read back as %d", c.dim, int(s.dimensions()));
  }
  const V a = filled<V>(c.dim, rng, -2, -0.2, square), b = filled<V>(c.dim, rng, 0.2, 2, square), w = filled<V>(c.dim, rng, 0.05, 1, square);
  if constexpr (requires { s.setRange(a.data()[0], b.data()[0]); s.setDelta(w.data()[0]); s.min() < 1.0 ? 1 : 0; }) {
    s.setRange(square ? -2.0 : a.data()[0], 2.0);
    s.setDelta(0.5);
    for (int i = 0; i < c.dim; i++)
      HV_CHECK(s.min(i) == -2.0 && s.max(i) == 2.0 && s.delta(i) == 0.5, "C24/range", "range reads back [%g,%g] %g", double(s.min(i)), double(s.max(i)), double(s.delta(i)));
  } else if constexpr (requires { s.setRange(a, b); s.setDelta(w); }) {
    s.setRange(a, b);
    s.setDelta(w);
    for (int i = 0; i < c.dim; i++)
      HV_CHECK(s.min(i) == a.data()[i] && s.max(i) == b.data()[i] && s.delta(i) == w.data()[i], "C24/range", "range of dimension %d reads back [%g,%g] %g", i, double(s.min(i)),
               double(s.max(i)), double(s.delta(i)));
  }
  AOSOption o;
  o.electronNum = size_t(rng.coin(0.1) ? rng.range(40, 90) : rng.range(1, 24));
  o.maxLayerNum = size_t(rng.range(1, std::min<int64_t>(6, int64_t(o.electronNum))));
  o.maxGeneration = size_t(rng.coin(0.1) ? 0 : rng.range(1, 8));
  o.maxEarlyStop = size_t(rng.coin(0.7) ? 100 : rng.range(1, 4));
  o.photonRate = rng.pick(std::vector<double>{0, 0.1, 0.5, 0.9, 1});
  setOptionBack(s, o);
}
template <class S>
static Digest playAOS(S& s, uint64_t cs, int runs) {
  Digest d;
  seedAll(cs);
  s.initializePop();
  for (int r = 0; r < runs; r++) {
    s.run();
    for (auto& e : s.electrons()) d.f[POPULATION] = mix(mix(d.f[POPULATION], hv_(e.state)), fh(e.energy));
    for (auto& l : s.layers()) d.f[FRONT] = mix(d.f[FRONT], mix(l.size(), mix(hv_(l.bindingState), fh(l.bindingEnergy))));
    d.f[BEST] = mix(d.f[BEST], mix(hv_(s.bestElectron().state), fh(s.bestElectron().energy)));
    d.f[COUNTERS] = mix(d.f[COUNTERS], mix(s.generation(), s.earlyStopCounter()));
    if constexpr (requires { s.record(); })
      for (auto& r2 : s.record()) d.f[RECORD] = mix(d.f[RECORD], fh(r2));
  }
  takeVisits(d);
  return d;
}
template <class A, class B, class C, class D>
static void aosVariants(Rng& rng, const char* name, bool square, int n) {
  for (int i = 0; i < n; i++) {
    const uint64_t cs = rng.next();
    const int runs = int(rng.range(1, 2));
    beginCase(fmt("AOS %s case=%llx", name, (unsigned long long)cs));
    A a;
    B b;
    C c;
    D d;
    configureAOS(a, cs, square, true);
    const Digest X = playAOS(a, cs, runs);
    configureAOS(b, cs, square, true);
    sameDigest("C23/aos-functions", X, playAOS(b, cs, runs), "compile-time functions, no record");
    configureAOS(c, cs, square, true);
    sameDigest("C23/aos-no-args", X, playAOS(c, cs, runs), "no Args", true);
    configureAOS(d, cs, square, true);
    sameDigest("C23/aos-compile-time", X, playAOS(d, cs, runs), "compile-time functions, no Args");
    count("variants_compared", 3);
    observed(sig(X));
  }
}
template <class Box, class BoxB, FitnessOption fo>
static void aosKinds(Rng& rng, const char* name, bool sq, int n) {
  using V = typename Box::Var_t;
  using W = typename BoxB::Var_t;
  aosVariants<heu::AOS<Box, fo, REC, Land>, heu::AOS<Box, fo, NOREC, Land, &fS<V>>, heu::AOS<BoxB, fo, REC, void>, heu::AOS<BoxB, fo, NOREC, void, &fS0<W>>>(rng, name, sq, n);
  aosVariants<heu::AOS<Box, fo, REC, Land, nullptr, nullptr>, heu::AOS<Box, fo, NOREC, Land, &fS<V>, &iF<V>>, heu::AOS<BoxB, fo, REC, void, nullptr, nullptr>,
              heu::AOS<BoxB, fo, NOREC, void, &fS0<W>, &iF0<W>>>(rng, name, sq, n);
}
// a range given at compile time
template <class BoxRT, class BoxCT, FitnessOption fo>
static void aosRange(Rng& rng, const char* name, int n) {
  using V = typename BoxRT::Var_t;
  for (int i = 0; i < n; i++) {
    const uint64_t cs = rng.next();
    const int runs = int(rng.range(1, 2));
    beginCase(fmt("AOS %s case=%llx", name, (unsigned long long)cs));
    heu::AOS<BoxRT, fo, REC, Land> a;
    heu::AOS<BoxCT, fo, NOREC, Land, &fS<V>> b;
    configureAOS(a, cs, true, array_traits<V>::isFixedSize);
    const Digest X = playAOS(a, cs, runs);
    configureAOS(b, cs, true, array_traits<V>::isFixedSize);
    sameDigest("C23/aos-range", X, playAOS(b, cs, runs), "the box given at compile time");
    count("variants_compared", 1);
    observed(sig(X));
  }
}
template <class S>
static void aosReuse(Rng& rng, const char* name, bool square, int n) {
  using V = typename std::decay<decltype(S().bestElectron().state)>::type;
  reuse(
      rng, name, n, [] { return std::make_unique<S>(); }, [square](S& s, uint64_t cs) { configureAOS(s, cs, square, array_traits<V>::isFixedSize); },
      [](S& s, uint64_t cs, int runs) { return playAOS(s, cs, runs); });
}
#if ME_GROUP == 5
HV_PART(static_aos) {
  aosKinds<ContinousBox<A4, SQUARE_BOX>, ContinousBox<AX, SQUARE_BOX>, LESS>(rng, "Eigen square", true, scale(60));
  aosKinds<ContinousBox<A4, RECTANGLE_BOX>, ContinousBox<AX, RECTANGLE_BOX>, GREATER>(rng, "Eigen rectangle", false, scale(60));
  aosKinds<ContinousBox<S4, SQUARE_BOX>, ContinousBox<SV, SQUARE_BOX>, GREATER>(rng, "std square", true, scale(60));
  aosKinds<ContinousBox<S4, RECTANGLE_BOX>, ContinousBox<SV, RECTANGLE_BOX>, LESS>(rng, "std rectangle", false, scale(60));
}
#define BOX17(V) FixedContinousBox17<V, encode(-2.0), encode(2.0), encode(0.5)>
HV_PART(static_aos_range) {
  aosRange<ContinousBox<A4, SQUARE_BOX>, BOX17(A4), LESS>(rng, "Eigen", scale(80));
  aosRange<ContinousBox<AX, SQUARE_BOX>, BOX17(AX), GREATER>(rng, "Eigen dynamic", scale(80));
  aosRange<ContinousBox<S4, SQUARE_BOX>, BOX17(S4), GREATER>(rng, "std::array", scale(80));
  aosRange<ContinousBox<SV, SQUARE_BOX>, BOX17(SV), LESS>(rng, "std::vector", scale(80));
#if __cplusplus >= 202002L
  aosRange<ContinousBox<A4, SQUARE_BOX>, FixedContinousBox20<A4, -2.0, 2.0, 0.5>, LESS>(rng, "Eigen C++20", scale(80));
  aosRange<ContinousBox<SV, SQUARE_BOX>, FixedContinousBox20<SV, -2.0, 2.0, 0.5>, GREATER>(rng, "std::vector C++20", scale(80));
#endif
}
HV_PART(reuse_aos) {
  aosReuse<heu::AOS<ContinousBox<AX, SQUARE_BOX>, LESS, REC, Land>>(rng, "AOS", true, scale(150));
  aosReuse<heu::AOS<ContinousBox<AX, RECTANGLE_BOX>, GREATER, REC, void>>(rng, "AOS", false, scale(150));
  aosReuse<heu::AOS<ContinousBox<SV, RECTANGLE_BOX>, LESS, REC, Land, nullptr, nullptr>>(rng, "AOS", false, scale(150));
  aosReuse<heu::AOS<ContinousBox<S4, SQUARE_BOX>, GREATER, REC, void>>(rng, "AOS", true, scale(150));
}
#endif

// ------------------------------------------------------------------------- C25: maximizing f is minimizing -f, and scales don't count
#if ME_GROUP == 6 || ME_GROUP == 7
static void plain() {
  wanted = Land();
  ignoreFitness = false;
}
template <class L, class Gt, class Configure, class Play>
static void mirrored(Rng& rng, const char* key, const char* name, int n, bool scales, bool stretches, int objs, Configure configure, Play play) {
  for (int i = 0; i < n; i++) {
    const uint64_t cs = rng.next();
    const int runs = int(rng.range(1, 2));
    beginCase(fmt("mirrored %s case=%llx", name, (unsigned long long)cs));
    ignoreFitness = true;
    wanted = Land();
    L a;
    Gt b;
    configure(a, cs);
    const Digest A = play(a, cs, runs);
    wanted.sign = -1;
    configure(b, cs);
    sameDigest(std::string("C25/direction-") + key, A, play(b, cs, runs), "maximizing -f instead of minimizing f");
    count("mirrored_runs");
    if (scales) {
      L c;
      wanted.sign = 1;
      for (int j = 0; j < 32; j++) wanted.shift[j] = int(rng.range(-40, 40));
      if (objs == 1)
        for (int j = 1; j < 32; j++) wanted.shift[j] = wanted.shift[0];
      configure(c, cs);
      sameDigest(std::string("C25/scale-") + key, A, play(c, cs, runs), "fitness times a power of two");
      count("scaled_runs");
    }
    if (stretches) {
      Gt d;
      wanted.sign = -1;
      wanted.stretch = 1;
      configure(d, cs);
      sameDigest(std::string("C25/order-") + key, A, play(d, cs, runs), "another fitness of the same order");
      count("stretched_runs");
    }
    plain();
    observed(sig(A));
  }
}
template <SelectMethod M>
static void mirroredSOGA(Rng& rng, const char* name, bool scales, bool stretches, int n) {
  using L = heu::SOGA<S4, LESS, REC, M, Land>;
  using Gt = heu::SOGA<S4, GREATER, REC, M, Land>;
  mirrored<L, Gt>(
      rng, name, name, n, scales, stretches, 1,
      [](auto& s, uint64_t cs) { configureSOGA(s, cs, M, std::is_same_v<std::decay_t<decltype(s)>, L> ? LESS : GREATER, true); },
      [](auto& s, uint64_t cs, int runs) { return playSOGA(s, cs, runs); });
}
#endif
#if ME_GROUP == 6
HV_PART(mirror_soga) {
  const int n = scale(120);
  mirroredSOGA<SelectMethod::RouletteWheel>(rng, "RouletteWheel", true, false, n);
  mirroredSOGA<SelectMethod::Tournament>(rng, "Tournament", true, true, n);
  mirroredSOGA<SelectMethod::Truncation>(rng, "Truncation", true, true, n);
  mirroredSOGA<SelectMethod::MonteCarlo>(rng, "MonteCarlo", true, true, n);
  mirroredSOGA<SelectMethod::Probability>(rng, "Probability", true, false, n);
  mirroredSOGA<SelectMethod::LinearRank>(rng, "LinearRank", true, true, n);
  mirroredSOGA<SelectMethod::ExponentialRank>(rng, "ExponentialRank", true, true, n);
  mirroredSOGA<SelectMethod::Boltzmann>(rng, "Boltzmann", false, false, n);
  mirroredSOGA<SelectMethod::StochasticUniversal>(rng, "StochasticUniversal", true, false, n);
  mirroredSOGA<SelectMethod::EliteReserved>(rng, "EliteReserved", true, false, n);
}
#endif
#if ME_GROUP == 7
// NSGA2 is left out on purpose: which of several individuals with the same objective value is an end of the front is decided
// by the order an unstable sort leaves them in, which may differ between the directions
HV_PART(mirror_pso) {
  const int n = scale(150);
  auto play = [](auto& s, uint64_t cs, int runs) { return playPSO(s, cs, runs); };
  mirrored<heu::PSO<A4, SQUARE_BOX, LESS, REC, Land>, heu::PSO<A4, SQUARE_BOX, GREATER, REC, Land>>(rng, "pso", "PSO Eigen", n, true, true, 1, [](auto& s, uint64_t cs) { configurePSO(s, cs, true, true); }, play);
  mirrored<heu::PSO<AX, RECTANGLE_BOX, LESS, REC, Land>, heu::PSO<AX, RECTANGLE_BOX, GREATER, REC, Land>>(rng, "pso", "PSO Eigen dynamic", n, true, true, 1, [](auto& s, uint64_t cs) { configurePSO(s, cs, false, false); }, play);
  mirrored<heu::PSO<S4, RECTANGLE_BOX, LESS, REC, Land>, heu::PSO<S4, RECTANGLE_BOX, GREATER, REC, Land>>(rng, "pso", "PSO std", n, true, true, 1, [](auto& s, uint64_t cs) { configurePSO(s, cs, false, true); }, play);
  mirrored<heu::PSO<SV, SQUARE_BOX, LESS, REC, Land>, heu::PSO<SV, SQUARE_BOX, GREATER, REC, Land>>(rng, "pso", "PSO std dynamic", n, true, true, 1, [](auto& s, uint64_t cs) { configurePSO(s, cs, true, false); }, play);
}
HV_PART(mirror_aos) {
  const int n = scale(150);
  auto play = [](auto& s, uint64_t cs, int runs) { return playAOS(s, cs, runs); };
  mirrored<heu::AOS<ContinousBox<A4, SQUARE_BOX>, LESS, REC, Land>, heu::AOS<ContinousBox<A4, SQUARE_BOX>, GREATER, REC, Land>>(rng, "aos", "AOS Eigen", n, true, false, 1, [](auto& s, uint64_t cs) { configureAOS(s, cs, true, true); }, play);
  mirrored<heu::AOS<ContinousBox<AX, RECTANGLE_BOX>, LESS, REC, Land>, heu::AOS<ContinousBox<AX, RECTANGLE_BOX>, GREATER, REC, Land>>(rng, "aos", "AOS Eigen dynamic", n, true, false, 1, [](auto& s, uint64_t cs) { configureAOS(s, cs, false, false); }, play);
  mirrored<heu::AOS<ContinousBox<S4, RECTANGLE_BOX>, LESS, REC, Land>, heu::AOS<ContinousBox<S4, RECTANGLE_BOX>, GREATER, REC, Land>>(rng, "aos", "AOS std", n, true, false, 1, [](auto& s, uint64_t cs) { configureAOS(s, cs, false, true); }, play);
  mirrored<heu::AOS<ContinousBox<SV, SQUARE_BOX>, LESS, REC, Land>, heu::AOS<ContinousBox<SV, SQUARE_BOX>, GREATER, REC, Land>>(rng, "aos", "AOS std dynamic", n, true, false, 1, [](auto& s, uint64_t cs) { configureAOS(s, cs, true, false); }, play);
}
#endif
