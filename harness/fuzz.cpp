// C22: random legal call sequences over every solver, watched by the sanitizers (and memcheck), a hang detector and
// checks of everything the solver hands out. -DFZ_GROUP selects the family.
#include "hv.hpp"
#include "engine.hpp"
#include <array>
#include <memory>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>
#include <HeuristicFlow/Global>
using namespace hv;
using namespace heu;

#define LESS FitnessOption::FITNESS_LESS_BETTER
#define GREATER FitnessOption::FITNESS_GREATER_BETTER
#define REC RecordOption::RECORD_FITNESS
#define NOREC RecordOption::DONT_RECORD_FITNESS

template <class V>
static auto el(const V& v, int i) {
  if constexpr (requires { v(0); }) return v(i);
  else return v[size_t(i)];
}
// ---- landscapes: finite everywhere, otherwise as unpleasant as possible
static int gLand = 0, gObjs = 1;
template <class V>
static double land(int which, const V& v, int j = 0) {
  double s = 0, first = 0;
  const size_t n = size_t(v.size());
  for (size_t i = 0; i < n; i++) {
    const double x = double(el(v, int(i)));
    if (i == 0) first = x;
    s += (x - 0.3 * j) * (x - 0.3 * j) + 0.1 * x * double(i);
  }
  switch (which % 14) {
    case 0: return s;
    case 1: return 0;
    case 2: return std::floor(first);
    case 3: return 1e300 * (1 + 0.001 * (s / (1 + std::fabs(s)))) ;
    case 4: return -1e300 + 1e290 * (s / (1 + std::fabs(s)));
    case 5: return first > 0 ? 1e200 : -1e200;
    case 6: return 1e-310 * (1 + std::fabs(s));
    case 7: return j ? s : 7;
    case 8: return first > 0 ? 0.0 : -0.0;
    case 9: return -s * 1e9;
    case 10: return s > 1 ? 1e15 : s;
    case 11: return (first > 0 ? 1.7e308 : -1.7e308) * std::tanh(s);
    case 12: return first > 1 ? INFINITY : (s > 5 && j == 1 ? -INFINITY : s);
    default: return std::sin(10 * s) + j;
  }
}
struct Touched {
  uint64_t h = 7;
  template <class V>
  void var(const V& v) {
    h = mix(h, uint64_t(v.size()));
    for (size_t i = 0; i < size_t(v.size()); i++) h = mix(h, bits(double(el(v, int(i)))));
  }
  template <class F>
  void fit(const F& f) {
    if constexpr (std::is_arithmetic_v<F>) num(f);
    else
      for (int i = 0; i < int(f.size()); i++) num(f[i]);
  }
  void num(double d) {
    HV_CHECK(!std::isnan(d), "C22/not-a-number", "a landscape without NaN gave fitness %g", d);
    h = mix(h, bits(d));
  }
};
static void shake(Rng& rng) {
  const double p = rng.u();
  if (p < 0.35) return;
  auto& mt = heu::internal::global_mt19937();
  if (p < 0.7) {
    auto w = eng::hostile(rng);
    w.resize(std::min<size_t>(w.size(), 600));
    for (int i = 0; i < 20; i++) w.push_back(uint32_t(rng.next()) | 1u);  // never (close to) the absorbing all-zero state
    eng::force(mt, w);
  } else {
    mt.seed(uint32_t(rng.next()));
    srand(uint32_t(rng.next()));
  }
}
static double prob(Rng& rng) {
  static const std::vector<double> p{0, 1, 0.5, 1e-9, 0.999999, 0.2, 0.8};
  return rng.pick(p);
}
static size_t population(Rng& rng, int least) {
  static const std::vector<int> p{1, 2, 3, 4, 5, 7, 8, 16, 17, 33, 50};
  return size_t(std::max<int>(least, rng.pick(p)));
}
static size_t limit(Rng& rng, int most) {
  return size_t(rng.coin(0.15) ? 0 : rng.range(1, most));
}
// a generation limit that nobody means to reach
template <class Opt>
static void unreachableLimit(Opt& o, Rng& rng) {
  const size_t l = rng.pick(std::vector<size_t>{size_t(1) << 40, size_t(1e15), ~size_t(0) - 1});
  if constexpr (requires { o.maxGenerations; }) o.maxGenerations = l;
  else o.maxGeneration = l;
}
static GAOption gaOpt(Rng& rng, int least) {
  GAOption o;
  o.populationSize = population(rng, least);
  o.maxGenerations = limit(rng, 9);
  o.maxFailTimes = rng.coin(0.5) ? 0 : limit(rng, 4);
  if (rng.coin(0.1)) o.maxFailTimes = size_t(-1);
  o.crossoverProb = prob(rng);
  o.mutateProb = prob(rng);
  return o;
}

#if FZ_GROUP <= 2
// ---- problems: how individuals are made and changed
template <class V>
static void cDef(const V* a, const V* b, V* c, V* d) {
  *c = *a;
  *d = *b;
  if (a->size() > 0 && randD() < 0.7) {
    const int i = int(randIdx(size_t(a->size())));
    auto t = (*c)[i];
    (*c)[i] = (*d)[i];
    (*d)[i] = t;
  }
}
// an arithmetic crossover rounds
static double slack(double a, double b) { return 1e-12 * (std::fabs(a) + std::fabs(b)); }
using A3 = std::array<double, 3>;
using VI = std::vector<int>;
using B16 = std::array<bool, 16>;
using VX = Eigen::ArrayXd;
using MX = Eigen::ArrayXXd;
using V3 = Eigen::Array3d;

struct BoxA3 : ContinousBox<A3, BoxShape::SQUARE_BOX> {
  using Var = A3;
  template <class S>
  static void install(S& s) {
    s.setiFun(&GADefaults<A3, BoxA3>::template iFun<>);
    s.setcFun(&GADefaults<A3, BoxA3>::template cFunNd<>);
    s.setmFun(&GADefaults<A3, BoxA3>::template mFun<>);
  }
  void random(Rng& rng) {
    const double a = rng.coin(0.2) ? -1e8 : rng.d(-4, 1);
    setRange(a, rng.coin(0.2) ? 1e8 : a + rng.d(0.01, 5));
    setDelta(rng.coin(0.2) ? 1e9 : rng.d(0.01, 2));
  }
  bool has(const Var& v) const {
    for (double x : v)
      if (!(x >= min() - slack(min(), max()) && x <= max() + slack(min(), max()))) return false;
    return true;
  }
};
struct BoxVI : DiscretBox<VI, BoxShape::RECTANGLE_BOX> {
  using Var = VI;
  template <class S>
  static void install(S& s) {
    s.setiFun(&GADefaults<VI, BoxVI>::template iFun<>);
    s.setcFun(&GADefaults<VI, BoxVI>::cFunSwapXs);
    s.setmFun(&GADefaults<VI, BoxVI>::template mFun_s<>);
  }
  void random(Rng& rng) {
    const int n = int(rng.range(1, 6));
    setDimensions(n);
    VI a(static_cast<size_t>(n)), b(static_cast<size_t>(n));
    for (size_t i = 0; i < size_t(n); i++) {
      a[i] = int(rng.coin(0.1) ? std::numeric_limits<int>::min() : rng.range(-5, 3));
      b[i] = int(rng.coin(0.1) ? std::numeric_limits<int>::max() : rng.coin(0.2) ? std::max<int64_t>(3, a[i]) : rng.range(std::max(3, a[i]), 9));
    }
    setRange(a, b);
  }
  bool has(const Var& v) const {
    if (int(v.size()) != dimensions()) return false;
    for (size_t i = 0; i < v.size(); i++)
      if (v[i] < min(int(i)) || v[i] > max(int(i))) return false;
    return true;
  }
};
struct BoxB16 : DiscretBox<B16, BoxShape::SQUARE_BOX> {
  using Var = B16;
  template <class S>
  static void install(S& s) {
    s.setiFun(&GADefaults<B16, BoxB16>::template iFun<>);
    s.setcFun(&GADefaults<B16, BoxB16>::template cFunRandNs<>);
    s.setmFun(&GADefaults<B16, BoxB16>::template mFun<>);
  }
  void random(Rng&) {}
  bool has(const Var&) const { return true; }
};
template <class M, bool two>
struct BoxE : ContinousBox<M, BoxShape::RECTANGLE_BOX> {
  using Var = M;
  template <class S>
  static void install(S& s) {
    s.setiFun(&GADefaults<M, BoxE>::template iFun<>);
    if constexpr (two) s.setcFun(&GADefaults<M, BoxE>::template cFunNd<DivEncode<1, 3>::code>);
    else s.setcFun(&GADefaults<M, BoxE>::template cFunRandXs<>);
    s.setmFun(&GADefaults<M, BoxE>::template mFun<>);
  }
  void random(Rng& rng) {
    const int r = int(rng.range(1, 5)), c = two ? int(rng.range(1, 4)) : 1;
    if constexpr (two) this->setDimensions(r, c);
    else this->setDimensions(r);
    M a, b, d;
    a.resize(r, c);
    b.resize(r, c);
    d.resize(r, c);
    for (int i = 0; i < r * c; i++) {
      a(i) = rng.d(-3, 0);
      b(i) = rng.d(0.1, 3);
      d(i) = rng.d(0.01, 4);
    }
    this->setRange(a, b);
    this->setDelta(d);
  }
  bool has(const Var& v) const {
    for (int i = 0; i < int(v.size()); i++)
      if (!(v(i) >= this->min(i) - slack(this->min(i), this->max(i)) && v(i) <= this->max(i) + slack(this->min(i), this->max(i)))) return false;
    return true;
  }
};
#endif

#if FZ_GROUP <= 1
template <class S>
static void randomParameters(S& s, SelectMethod m, bool less, size_t pop, Rng& rng) {
  if constexpr (requires { s.setTournamentSize(2); })
    if (m == SelectMethod::Tournament || rng.coin(0.2))
      if (pop > 2) s.setTournamentSize(size_t(rng.range(2, int64_t(pop) - 1)));
  if constexpr (requires { s.setEliteNum(1); })
    if (m == SelectMethod::EliteReserved || rng.coin(0.2)) s.setEliteNum(int(rng.range(1, int64_t(pop))));
  if constexpr (requires { s.setBoltzmannSelectStrength(1.0); }) {
    static const std::vector<double> b{1, 10, 0.01, 100, 1e-9, 1e6};
    s.setBoltzmannSelectStrength((less ? -1 : 1) * rng.pick(b));
  }
  if constexpr (requires { s.setLinearSelectProbability(0, 1); })
    if (rng.coin()) s.setLinearSelectProbability(rng.pick(std::vector<double>{0, 0.1, 0.3}), rng.pick(std::vector<double>{0.4, 0.9, 1}));
  if constexpr (requires { s.setExponetialSelectBase(0.5); })
    if (rng.coin()) s.setExponetialSelectBase(rng.pick(std::vector<double>{0.8, 0.5, 0.1, 0.01, 0.999, 0}));
}
template <class Args, FitnessOption fo, RecordOption rec, SelectMethod sm>
struct SogaCase {
  using V = typename Args::Var;
  using S = heu::SOGA<V, fo, rec, sm, Args>;
  static void fFun(const V* v, const Args* c, double* f) {
    if (!c->has(*v)) {
      std::string t;
      if constexpr (requires { c->min(0); })
        for (int i = 0; i < int(v->size()); i++) t += fmt(" %.17g in [%.17g,%.17g]", double(el(*v, i)), double(c->min(i)), double(c->max(i)));
      violation("C22/outside-box", "an individual left its box:" + t);
    }
    *f = land(gLand, *v);
  }
  static void touch(const S& s, bool inited, bool ran, Touched& t) {
    (void)s.option();
    t.h = mix(t.h, mix(s.generation(), s.failTimes()));
    if (!inited) return;
    t.h = mix(t.h, s.population().size());
    for (auto& g : s.population()) {
      t.var(g.decision_variable);
      if (ran) t.fit(g.fitness);
    }
    if (!ran) return;
    t.num(s.bestFitness());
    t.var(s.result());
    t.var(s.bestGene().decision_variable);
    if constexpr (rec == REC)
      for (double d : s.record()) t.num(d);
  }
  static void run(Rng& rng) {
    Touched t;
    auto s = std::make_unique<S>();
    Args::install(*s);
    s->setfFun(&fFun);
    bool inited = false, ran = false, opted = false, evaluatedAll = false;
    const int n = int(rng.range(5, 16));
    SelectMethod m = sm;
    size_t pop = 0;
    std::string seq;
    Args box;
    box.random(rng);
    s->setArgs(box);
    for (int k = 0; k < n; k++) {
      int a = int(rng.range(0, 7));
      if (!opted && a != 5) a = 0;
      else if (!inited && a >= 2 && a <= 4) a = 1;
      seq += char('0' + a);
      beginCase(fmt("SOGA method %d (compile time %d) %s sequence %s landscape %d", int(m), int(sm), typeid(V).name(), seq.c_str(), gLand));
      switch (a) {
        case 0: {
          if constexpr (sm == SelectMethod::RunTimeSelectMethod) {
            static const std::vector<SelectMethod> all{
                SelectMethod::RouletteWheel, SelectMethod::Tournament,      SelectMethod::Truncation, SelectMethod::MonteCarlo,          SelectMethod::Probability,
                SelectMethod::LinearRank,    SelectMethod::ExponentialRank, SelectMethod::Boltzmann,  SelectMethod::StochasticUniversal, SelectMethod::EliteReserved};
            m = rng.pick(all);
            s->setSelectMethod(m);
          }
          GAOption o = gaOpt(rng, m == SelectMethod::Tournament ? 4 : 1);
          pop = o.populationSize;
          s->setOption(o);
          randomParameters(*s, m, fo == LESS, pop, rng);
          opted = true;
          break;
        }
        case 1:
          if (rng.coin()) {
            box.random(rng);
            s->setArgs(box);
          }
          shake(rng);
          s->initializePop();
          inited = true;
          evaluatedAll = false;
          HV_CHECK(s->population().size() == pop, "C22/init-size", "%zu individuals initialized, %zu configured", s->population().size(), pop);
          break;
        case 2:
        case 3:
        case 4:
          gLand = evaluatedAll && rng.coin(0.7) ? gLand : int(rng.range(0, 13));
          shake(rng);
          s->run();
          ran = evaluatedAll = true;
          count("runs");
          break;
        case 5: touch(*s, inited, evaluatedAll, t); break;
        case 6: {
          // results outlive the solver
          if (!evaluatedAll) break;
          auto best = s->result();
          auto popc = s->population();
          t.var(best);
          if (rng.coin(0.3)) {
            s = std::make_unique<S>();
            Args::install(*s);
            s->setfFun(&fFun);
            s->setArgs(box);
            inited = opted = ran = evaluatedAll = false;
            count("solvers_destroyed");
          }
          for (auto& g : popc) t.var(g.decision_variable);
          t.var(best);
          break;
        }
        default:
          // a smaller or larger population while one exists
          if (inited) {
            GAOption o = gaOpt(rng, m == SelectMethod::Tournament ? 4 : 1);
            o.maxGenerations = limit(rng, 4);
            if (o.maxFailTimes == 1 || o.maxFailTimes == 2) unreachableLimit(o, rng);
            pop = o.populationSize;
            s->setOption(o);
            randomParameters(*s, m, fo == LESS, pop, rng);
          }
          break;
      }
    }
    if (inited) touch(*s, inited, evaluatedAll, t);
    observed(t.h);
    count("sequences");
  }
};
#endif

#if FZ_GROUP == 0
#define RT SelectMethod::RunTimeSelectMethod
using BoxV = BoxE<VX, false>;
using BoxM = BoxE<MX, true>;
HV_PART(fz_soga_array) {
  for (int k = 0; k < scale(260); k++) rng.coin() ? SogaCase<BoxA3, LESS, REC, RT>::run(rng) : SogaCase<BoxA3, GREATER, NOREC, RT>::run(rng);
}
HV_PART(fz_soga_symbols) {
  for (int k = 0; k < scale(260); k++) rng.coin() ? SogaCase<BoxVI, LESS, NOREC, RT>::run(rng) : SogaCase<BoxVI, GREATER, REC, RT>::run(rng);
}
HV_PART(fz_soga_bool) {
  for (int k = 0; k < scale(260); k++) rng.coin() ? SogaCase<BoxB16, LESS, REC, RT>::run(rng) : SogaCase<BoxB16, GREATER, NOREC, RT>::run(rng);
}
HV_PART(fz_soga_eigen) {
  for (int k = 0; k < scale(260); k++) rng.coin() ? SogaCase<BoxV, GREATER, REC, RT>::run(rng) : SogaCase<BoxM, LESS, REC, RT>::run(rng);
}
#elif FZ_GROUP == 1
#define FZ_CT(NAME, SM)                                                                                                                        \
  HV_PART(fz_soga_##NAME) {                                                                                                                    \
    for (int k = 0; k < scale(110); k++) rng.coin() ? SogaCase<BoxA3, LESS, REC, SM>::run(rng) : SogaCase<BoxA3, GREATER, NOREC, SM>::run(rng); \
  }
FZ_CT(roulette, SelectMethod::RouletteWheel)
FZ_CT(tournament, SelectMethod::Tournament)
FZ_CT(truncation, SelectMethod::Truncation)
FZ_CT(montecarlo, SelectMethod::MonteCarlo)
FZ_CT(probability, SelectMethod::Probability)
FZ_CT(linear, SelectMethod::LinearRank)
FZ_CT(exponential, SelectMethod::ExponentialRank)
FZ_CT(boltzmann, SelectMethod::Boltzmann)
FZ_CT(universal, SelectMethod::StochasticUniversal)
FZ_CT(elite, SelectMethod::EliteReserved)
#elif FZ_GROUP == 2
template <class S, bool nsga3, bool dbl, bool rt>
struct MogaCase {
  using F = typename S::Fitness_t;
  using V = A3;
  static void fFun(const V* v, F* f) {
    if constexpr (rt) HV_CHECK(int(f->size()) == gObjs, "C22/objectives", "fitness of %d objectives, configured %d", int(f->size()), gObjs);
    for (int j = 0; j < int(f->size()); j++) (*f)[j] = land(gLand, *v, j);
  }
  static void touch(const S& s, bool evaluated, Touched& t) {
    t.h = mix(t.h, mix(s.generation(), s.failTimes()));
    for (auto& g : s.population()) t.var(g.decision_variable);
    if (!evaluated) return;
    for (auto& g : s.population()) t.fit(g.fitness);
    t.fit(s.bestFitness());
    uint64_t sum = 0;
    for (auto g : s.pfGenes()) {
      Touched u;
      u.var(g->decision_variable);
      u.fit(g->fitness);
      sum += u.h;
    }
    t.h = mix(t.h, sum);
    std::vector<F> fr;
    s.paretoFront(fr);
    std::vector<std::pair<const V*, const F*>> fr2;
    s.paretoFront(fr2);
    HV_CHECK(fr.size() == s.pfGenes().size() && fr2.size() == fr.size(), "C22/front-size", "%zu genes in the front, listings of %zu and %zu", s.pfGenes().size(),
             fr.size(), fr2.size());
    for (auto& p : fr2) {
      Touched u;
      u.var(*p.first);
      u.fit(*p.second);
    }
    if constexpr (requires { s.record(); })
      for (auto& r : s.record()) t.fit(r);
    if constexpr (nsga3)
      for (int i = 0; i < int(s.referencePoints().size()); i++) t.num(s.referencePoints().data()[i]);
  }
  static void configure(S& s, Rng& rng) {
    if constexpr (rt) s.setObjectiveNum(gObjs = int(rng.range(2, 6)));
    if constexpr (nsga3 && !dbl) s.setReferencePointPrecision(size_t(rng.range(1, gObjs > 4 ? 3 : 6)));
    if constexpr (nsga3 && dbl) s.setReferencePointPrecision(size_t(rng.range(2, 3)), size_t(rng.range(2, 4)));
  }
  static void functions(S& s) {
    using G = GADefaults<V, void>;
    s.setiFun(&G::template iFunNd<>);
    s.setfFun(&fFun);
    s.setcFun(&G::template cFunNd<>);
    s.setmFun([](const V* a, V* b) {
      *b = *a;
      (*b)[randIdx(3)] = randD(-1, 2);
    });
  }
  static void run(Rng& rng, int M) {
    Touched t;
    gObjs = M;
    auto s = std::make_unique<S>();
    functions(*s);
    configure(*s, rng);
    bool inited = false, opted = false, evaluated = false;
    const int n = int(rng.range(5, 14));
    std::string seq;
    size_t pop = 0;
    for (int k = 0; k < n; k++) {
      int a = int(rng.range(0, 7));
      if (!opted && a != 5) a = 0;
      else if (!inited && a >= 2 && a <= 4) a = 1;
      seq += char('0' + a);
      beginCase(fmt("%s sequence %s landscape %d objectives %d", nsga3 ? "NSGA3" : "NSGA2", seq.c_str(), gLand, gObjs));
      switch (a) {
        case 0:
        case 7: {
          GAOption o = gaOpt(rng, 1);
          pop = o.populationSize;
          s->setOption(o);
          opted = true;
          break;
        }
        case 1:
          if (rng.coin()) configure(*s, rng);
          shake(rng);
          s->initializePop();
          inited = true;
          evaluated = false;
          HV_CHECK(s->population().size() == pop, "C22/init-size", "%zu individuals initialized, %zu configured", s->population().size(), pop);
          break;
        case 2:
        case 3:
        case 4:
          if (!evaluated || rng.coin(0.3)) gLand = int(rng.range(0, 13));
          shake(rng);
          s->run();
          evaluated = true;
          count("runs");
          break;
        case 5:
          touch(*s, evaluated && inited, t);
          break;
        default: {
          if (!evaluated) break;
          std::vector<F> fr;
          s->paretoFront(fr);
          auto popc = s->population();
          if (rng.coin(0.3)) {
            s = std::make_unique<S>();
            functions(*s);
            configure(*s, rng);
            inited = opted = evaluated = false;
            count("solvers_destroyed");
          }
          for (auto& f : fr) {
            Touched u;
            u.fit(f);
          }
          for (auto& g : popc) t.var(g.decision_variable);
          break;
        }
      }
    }
    if (inited) touch(*s, evaluated, t);
    observed(t.h);
    count("sequences");
  }
};
HV_PART(fz_nsga2) {
  for (int k = 0; k < scale(260); k++) switch (rng.range(0, 3)) {
      case 0: MogaCase<heu::NSGA2<A3, 2, LESS, REC>, false, false, false>::run(rng, 2); break;
      case 1: MogaCase<heu::NSGA2<A3, 3, GREATER, NOREC>, false, false, false>::run(rng, 3); break;
      case 2: MogaCase<heu::NSGA2<A3, 5, LESS, NOREC>, false, false, false>::run(rng, 5); break;
      default: MogaCase<heu::NSGA2<A3, Eigen::Dynamic, LESS, REC>, false, false, true>::run(rng, 2); break;
    }
}
HV_PART(fz_nsga3) {
  for (int k = 0; k < scale(260); k++) switch (rng.range(0, 2)) {
      case 0: MogaCase<heu::NSGA3<A3, 3, REC, ReferencePointOption::SINGLE_LAYER>, true, false, false>::run(rng, 3); break;
      case 1: MogaCase<heu::NSGA3<A3, 4, NOREC, ReferencePointOption::SINGLE_LAYER>, true, false, false>::run(rng, 4); break;
      default: MogaCase<heu::NSGA3<A3, Eigen::Dynamic, REC, ReferencePointOption::SINGLE_LAYER>, true, false, true>::run(rng, 3); break;
    }
}
HV_PART(fz_nsga3_double) {
  for (int k = 0; k < scale(200); k++)
    if (rng.coin()) MogaCase<heu::NSGA3<A3, 3, NOREC, ReferencePointOption::DOUBLE_LAYER>, true, true, false>::run(rng, 3);
    else MogaCase<heu::NSGA3<A3, Eigen::Dynamic, REC, ReferencePointOption::DOUBLE_LAYER>, true, true, true>::run(rng, 3);
}
#elif FZ_GROUP == 3
template <class V, BoxShape BS, FitnessOption fo, RecordOption rec, bool ownInit>
struct PsoCase {
  struct C {
    int n = 3;
    double a = -1;
  };
  static void init(V* x, V* v, const C* c) {
    if constexpr (!array_traits<V>::isFixedSize) {
      x->resize(c->n);
      v->resize(c->n);
    }
    for (int i = 0; i < int(x->size()); i++) {
      (*x)[i] = randD(c->a, c->a + 1);
      (*v)[i] = 0;
    }
  }
  static void fFun(const V* v, const C* c, double* f) {
    if constexpr (!array_traits<V>::isFixedSize) HV_CHECK(int(v->size()) == c->n, "C22/pso-size", "position of size %d, configured %d", int(v->size()), c->n);
    *f = land(gLand, *v);
  }
  using Pack = heu::internal::PSOParameterPack<V, double, C>;
  using S = std::conditional_t<ownInit, heu::PSO<V, BS, fo, rec, C, nullptr, nullptr>, heu::PSO<V, BS, fo, rec, C>>;
  static void touch(const S& s, Touched& t) {
    for (auto& p : s.population()) {
      t.var(p.position);
      t.var(p.velocity);
      t.fit(p.fitness);
      t.var(p.pBest.position);
      t.fit(p.pBest.fitness);
    }
    t.var(s.globalBest().position);
    t.num(s.bestFitness());
    t.h = mix(t.h, mix(s.generation(), s.failTimes()));
    if constexpr (rec == REC)
      for (double d : s.record()) t.num(d);
  }
  static void setup(S& s, C& c, Rng& rng) {
    c.n = int(rng.coin(0.2) ? 1 : rng.range(1, 7));
    V a{}, b{}, w{};
    int n = int(a.size());
    if constexpr (!array_traits<V>::isFixedSize) {
      n = c.n;
      s.setDimensions(n);
      a.resize(n);
      b.resize(n);
      w.resize(n);
    }
    for (int i = 0; i < n; i++) {
      a[i] = rng.coin(0.1) ? -1e8 : rng.d(-3, -1);
      b[i] = rng.coin(0.1) ? 1e8 : rng.d(0.5, 3);
      w[i] = rng.coin(0.1) ? 1e9 : rng.d(0.01, 2);
    }
    c.a = a[0] < -10 ? -1 : a[0];
    if constexpr (ownInit) {
      for (int i = 0; i < n; i++) {
        a[i] = -1;
        b[i] = 2;
      }
      c.a = -1;
    }
    if constexpr (BS == BoxShape::SQUARE_BOX) s.setPVRange(a[0], b[0], w[0]);
    else if (rng.coin()) s.setPVRange(a, b, w);
    else {
      s.setRange(a, b);
      s.setMaxVelocity(w);
    }
    s.setArgs(c);
    if constexpr (ownInit) s.setiFun(&init);
    s.setfFun(&fFun);
  }
  static void run(Rng& rng) {
    Touched t;
    auto s = std::make_unique<S>();
    C c;
    setup(*s, c, rng);
    bool inited = false, opted = false;
    const int n = int(rng.range(5, 14));
    std::string seq;
    size_t pop = 0;
    for (int k = 0; k < n; k++) {
      int a = int(rng.range(0, 6));
      if (!opted && a != 4) a = 0;
      else if (!inited && a != 4 && a >= 2) a = 1;
      seq += char('0' + a);
      beginCase(fmt("PSO %s sequence %s landscape %d", typeid(V).name(), seq.c_str(), gLand));
      switch (a) {
        case 0: {
          PSOOption o;
          o.populationSize = pop = population(rng, 1);
          o.maxGeneration = limit(rng, 9);
          o.maxFailTimes = rng.coin(0.1) ? size_t(-1) : rng.coin() ? 0 : limit(rng, 4);
          if ((o.maxFailTimes == 1 || o.maxFailTimes == 2) && rng.coin(0.3)) unreachableLimit(o, rng);
          o.inertiaFactor = rng.pick(std::vector<double>{0.8, 0, 1, 2});
          o.learnFactorP = rng.pick(std::vector<double>{2, 0, 0.5});
          o.learnFactorG = rng.pick(std::vector<double>{2, 0, 0.5});
          s->setOption(o);
          opted = true;
          break;
        }
        case 1:
          if (rng.coin()) setup(*s, c, rng);
          gLand = int(rng.range(0, 13));
          shake(rng);
          s->initializePop();
          inited = true;
          HV_CHECK(s->population().size() == pop, "C22/init-size", "%zu particles initialized, %zu configured", s->population().size(), pop);
          break;
        case 2:
        case 3:
          if (rng.coin(0.2)) gLand = int(rng.range(0, 13));
          shake(rng);
          s->run();
          count("runs");
          break;
        case 4:
          if (inited) touch(*s, t);
          else t.h = mix(t.h, mix(s->generation(), s->failTimes()));
          break;
        default: {
          auto g = s->globalBest();
          auto popc = s->population();
          if (rng.coin(0.3)) {
            s = std::make_unique<S>();
            setup(*s, c, rng);
            inited = opted = false;
            count("solvers_destroyed");
          }
          t.var(g.position);
          for (auto& p : popc) t.var(p.pBest.position);
          break;
        }
      }
    }
    if (inited) touch(*s, t);
    observed(t.h);
    count("sequences");
  }
};
using S3 = std::array<double, 3>;
using SV = std::vector<double>;
using A4 = Eigen::Array<double, 4, 1>;
using AX = Eigen::ArrayXd;
#define SQ BoxShape::SQUARE_BOX
#define RC BoxShape::RECTANGLE_BOX
HV_PART(fz_pso_std) {
  for (int k = 0; k < scale(260); k++) switch (rng.range(0, 5)) {
      case 0: PsoCase<S3, SQ, LESS, REC, false>::run(rng); break;
      case 1: PsoCase<S3, RC, GREATER, NOREC, true>::run(rng); break;
      case 2: PsoCase<SV, SQ, GREATER, REC, true>::run(rng); break;
      case 3: PsoCase<SV, SQ, LESS, NOREC, false>::run(rng); break;
      case 4: PsoCase<S3, RC, LESS, REC, false>::run(rng); break;
      default: PsoCase<SV, RC, LESS, REC, false>::run(rng); break;
    }
}
HV_PART(fz_pso_eigen) {
  for (int k = 0; k < scale(260); k++) switch (rng.range(0, 5)) {
      case 0: PsoCase<A4, SQ, LESS, REC, false>::run(rng); break;
      case 1: PsoCase<A4, RC, GREATER, NOREC, false>::run(rng); break;
      case 2: PsoCase<AX, SQ, GREATER, REC, true>::run(rng); break;
      case 3: PsoCase<AX, SQ, LESS, NOREC, false>::run(rng); break;
      case 4: PsoCase<AX, RC, LESS, REC, true>::run(rng); break;
      default: PsoCase<AX, RC, GREATER, REC, false>::run(rng); break;
    }
}
#elif FZ_GROUP == 4
template <class Box, FitnessOption fo, RecordOption rec, bool ownInit>
struct AosCase {
  using V = typename Box::Var_t;
  struct C {
    int n = 3;
  };
  static void init(V* x, const C* c) {
    if constexpr (!array_traits<V>::isFixedSize) x->resize(c->n);
    for (int i = 0; i < int(x->size()); i++) (*x)[i] = randD(-0.5, 0.5);
  }
  static void fFun(const V* v, const C* c, double* f) {
    if constexpr (!array_traits<V>::isFixedSize) HV_CHECK(int(v->size()) == c->n, "C22/aos-size", "state of size %d, configured %d", int(v->size()), c->n);
    *f = land(gLand, *v);
  }
  using S = std::conditional_t<ownInit, heu::AOS<Box, fo, rec, C, nullptr, nullptr>, heu::AOS<Box, fo, rec, C>>;
  static constexpr bool gauss = !requires(Box b) { b.delta(); };
  static void touch(const S& s, Touched& t) {
    for (auto& e : s.electrons()) {
      t.var(e.state);
      t.fit(e.energy);
    }
    for (auto& l : s.layers()) {
      t.h = mix(t.h, l.size());
      t.var(l.bindingState);
      t.fit(l.bindingEnergy);
      if (!l.empty()) {
        t.var(l.layerBestState());
        t.fit(l.layerBestEnergy());
      }
    }
    t.var(s.bestElectron().state);
    t.fit(s.bestElectron().energy);
    t.var(s.bindingState());
    t.h = mix(t.h, mix(s.generation(), s.earlyStopCounter()));
    if constexpr (rec == REC)
      for (double d : s.record()) t.num(d);
  }
  static void setup(S& s, C& c, Rng& rng) {
    c.n = int(rng.coin(0.2) ? 1 : rng.range(1, 7));
    if constexpr (!array_traits<V>::isFixedSize) s.setDimensions(c.n);
    const int n = s.dimensions();
    if constexpr (Box::Shape == BoxShape::SQUARE_BOX) {
      const double a = rng.d(-4, -1);
      s.setRange(a, a + rng.d(2, 6));
      s.setDelta(rng.coin(0.1) ? 100 : rng.d(0.01, 1));
    } else {
      V a{}, b{}, w{};
      if constexpr (!array_traits<V>::isFixedSize) {
        a.resize(n);
        b.resize(n);
        w.resize(n);
      }
      for (int i = 0; i < n; i++) {
        a[i] = rng.coin(0.1) ? -1e8 : rng.d(-3, -1);
        b[i] = rng.coin(0.1) ? 1e8 : rng.d(1, 3);
        w[i] = rng.d(0.05, 1);
      }
      s.setRange(a, b);
      s.setDelta(w);
    }
    s.setArg(c);
    if constexpr (ownInit) s.setiFun(&init);
    s.setfFun(&fFun);
  }
  static void run(Rng& rng) {
    Touched t;
    auto s = std::make_unique<S>();
    C c;
    setup(*s, c, rng);
    bool inited = false, ran = false, opted = false;
    const int n = int(rng.range(5, 14));
    std::string seq;
    size_t pop = 0;
    for (int k = 0; k < n; k++) {
      int a = int(rng.range(0, 6));
      if (!opted && a != 4) a = 0;
      else if (!inited && a != 4 && a >= 2) a = 1;
      seq += char('0' + a);
      beginCase(fmt("AOS %s sequence %s landscape %d", typeid(V).name(), seq.c_str(), gLand));
      switch (a) {
        case 0: {
          AOSOption o;
          // the number of layers may not exceed the number of electrons, also not while a population of the old size lives
          o.electronNum = pop = population(rng, 1);
          o.maxLayerNum = size_t(rng.range(1, std::min<int64_t>(6, int64_t(o.electronNum))));
          o.maxGeneration = limit(rng, 8);
          o.maxEarlyStop = limit(rng, 5);
          if (o.maxEarlyStop <= 2 && rng.coin(0.2)) unreachableLimit(o, rng);
          o.photonRate = rng.pick(std::vector<double>{0, 0.1, 0.5, 1});
          s->setOption(o);
          opted = true;
          inited = false;  // re-initialized before the next run
          break;
        }
        case 1:
          if (rng.coin()) setup(*s, c, rng);
          gLand = int(rng.range(0, 13));
          shake(rng);
          s->initializePop();
          inited = true;
          ran = false;
          HV_CHECK(s->electrons().size() == pop, "C22/init-size", "%zu electrons initialized, %zu configured", s->electrons().size(), pop);
          break;
        case 2:
        case 3:
          shake(rng);
          s->run();
          ran = true;
          count("runs");
          break;
        case 4:
          if (ran) touch(*s, t);
          else t.h = mix(t.h, mix(s->generation(), s->earlyStopCounter()));
          break;
        default: {
          if (!ran) break;
          auto g = s->bestElectron();
          auto es = s->electrons();
          if (rng.coin(0.3)) {
            s = std::make_unique<S>();
            setup(*s, c, rng);
            inited = opted = ran = false;
            count("solvers_destroyed");
          }
          t.var(g.state);
          for (auto& e : es) t.var(e.state);
          break;
        }
      }
    }
    if (ran) touch(*s, t);
    observed(t.h);
    count("sequences");
  }
};
using S3 = std::array<double, 3>;
using SV = std::vector<double>;
using A4 = Eigen::Array<double, 4, 1>;
using AX = Eigen::ArrayXd;
template <class V, BoxShape b>
using CB = ContinousBox<V, b>;
HV_PART(fz_aos_std) {
  for (int k = 0; k < scale(260); k++) switch (rng.range(0, 4)) {
      case 0: AosCase<CB<S3, BoxShape::SQUARE_BOX>, LESS, REC, false>::run(rng); break;
      case 1: AosCase<CB<S3, BoxShape::RECTANGLE_BOX>, GREATER, NOREC, true>::run(rng); break;
      case 2: AosCase<CB<SV, BoxShape::SQUARE_BOX>, GREATER, REC, false>::run(rng); break;
      case 3: AosCase<CB<SV, BoxShape::RECTANGLE_BOX>, LESS, REC, true>::run(rng); break;
      default: AosCase<CB<SV, BoxShape::RECTANGLE_BOX>, LESS, NOREC, false>::run(rng); break;
    }
}
HV_PART(fz_aos_eigen) {
  for (int k = 0; k < scale(260); k++) switch (rng.range(0, 4)) {
      case 0: AosCase<CB<A4, BoxShape::SQUARE_BOX>, LESS, REC, true>::run(rng); break;
      case 1: AosCase<CB<A4, BoxShape::RECTANGLE_BOX>, GREATER, NOREC, false>::run(rng); break;
      case 2: AosCase<CB<AX, BoxShape::SQUARE_BOX>, GREATER, REC, false>::run(rng); break;
      case 3: AosCase<CB<AX, BoxShape::RECTANGLE_BOX>, LESS, REC, true>::run(rng); break;
      default: AosCase<CB<AX, BoxShape::RECTANGLE_BOX>, GREATER, NOREC, false>::run(rng); break;
    }
}
#endif
