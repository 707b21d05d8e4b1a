// Monitors of the particle swarm solver (C14, and its share of C04, C05).
#include "swarm.hpp"
#include <HeuristicFlow/PSO>
using namespace hv;
using namespace heu;

#define LESS FitnessOption::FITNESS_LESS_BETTER
#define GREATER FitnessOption::FITNESS_GREATER_BETTER

template <class V>
static void fitArgs(const V* v, const SCtx* c, double* f) {
  if (c->magic != 0xFEED) elog().badArgs++;
  elog().add(hashV(*v));
  *f = sland(c->land, *v);
}
template <class V>
static void fitNoArgs(const V* v, double* f) {
  elog().add(hashV(*v));
  *f = sland(globalLand(), *v);
}

struct PTrace {
  std::vector<double> best;
  std::vector<size_t> fails;
  uint64_t sig = 0;
  bool inRun = false;
};

// attraction ratios that the velocities reveal
struct Ratios {
  double on = 0, os = 0, oq = 0;  // where only one of the two attracts
  void one(double a) {
    on++;
    os += a;
    oq += a * a;
  }
  double n = 0, s1 = 0, s2 = 0, q11 = 0, q22 = 0, q12 = 0, lag = 0, prev = -1, nl = 0, sp = 0;
  void add(double a, double b) {
    n++;
    s1 += a;
    s2 += b;
    q11 += a * a;
    q22 += b * b;
    q12 += a * b;
    if (prev >= 0) {
      lag += (a - 0.5) * (prev - 0.5);
      nl++;
    }
    prev = a;
  }
};

template <class V, BoxShape BS, FitnessOption fo, RecordOption rec, class Arg, typename internal::PSOParameterPack<V, double, Arg>::fFun_t ff = nullptr>
struct MonPSO : public PSO<V, BS, fo, rec, Arg, ff> {
  using Base = PSO<V, BS, fo, rec, Arg, ff>;
  static constexpr bool less = fo == LESS;
  static constexpr bool hasArg = !std::is_void_v<Arg>;
  PTrace tr;
  std::vector<std::vector<double>> x0, v0, pb0;
  std::vector<double> gb0, lo, hi, vm;
  bool moves = false;
  int rows = 1, cols = 1;
  std::vector<double> ownBest;  // per particle: best fitness ever evaluated
  double ownGBest = 0;
  Ratios rat;
  Starts starts;
  using Sc = typename array_traits<V>::Scalar_t;
  static constexpr bool single = std::is_same_v<Sc, float>;
  bool better(double a, double b) const { return less ? a < b : a > b; }
  double val(const V& v) const {
    if constexpr (hasArg)
      return sland(this->args().land, v);
    else
      return sland(globalLand(), v);
  }
  void checkBoxes(const char* when) {
    for (auto& p : this->population()) {
      if (!shapeIs(p.position, rows, cols) || !shapeIs(p.velocity, rows, cols)) {
        violation("C14/shape", fmt("position or velocity of the wrong shape %s", when));
        return;
      }
      for (size_t d = 0; d < lo.size(); d++) {
        const double x = vget(p.position, d), v = vget(p.velocity, d);
        HV_CHECK(x >= lo[d] && x <= hi[d], "C14/position-range", "x[%zu]=%.17g outside [%.17g,%.17g] %s", d, x, lo[d], hi[d], when);
        HV_CHECK(v >= -vm[d] && v <= vm[d], "C14/velocity-range", "v[%zu]=%.17g beyond %.17g %s", d, v, vm[d], when);
      }
    }
  }
  void initAndCheck() {
    elog().clear();
    this->initializePop();
    auto bag = elog().bag();
    HV_CHECK(this->population().size() == this->option().populationSize, "C14/init-size", "%zu particles, configured %zu", this->population().size(),
             this->option().populationSize);
    ownBest.clear();
    for (auto& p : this->population()) {
      ownBest.push_back(val(p.position));
      HV_CHECK(same(p.fitness, val(p.position)), "C05/pso-init-stale", "fitness %.17g is not that of the position", p.fitness);
      HV_CHECK(hashV(p.pBest.position) == hashV(p.position) && same(p.pBest.fitness, p.fitness), "C14/init-pbest", "personal best is not the initial point");
      if (--bag[hashV(p.position)] < 0) violation("C05/pso-init-count", "a particle was not evaluated at initialization");
    }
    for (auto& b : bag) HV_CHECK(b.second == 0, "C05/pso-init-count", "a position was evaluated %d times too often at initialization", b.second);
    bool member = false;
    for (auto& p : this->population()) member = member || hashV(p.position) == hashV(this->globalBest().position);
    HV_CHECK(member && same(this->globalBest().fitness, val(this->globalBest().position)), "C14/init-gbest", "global best is no particle");
    ownGBest = this->globalBest().fitness;
    HV_CHECK(this->generation() == 0 && this->failTimes() == 0, "C04/pso-init-counters", "counters not reset");
    checkBoxes("after initialization");
    if (!single && !eng::hostileRun())
      for (auto& p : this->population()) {
        std::vector<double> z;
        for (size_t d = 0; d < lo.size(); d++)
          if (std::fabs(lo[d]) < 1e100 && std::fabs(hi[d]) < 1e100) z.push_back((vget(p.position, d) - (lo[d] + hi[d]) / 2) / ((hi[d] - lo[d]) / std::sqrt(12.0)));
        starts.add(z);
      }
    tr = PTrace();
  }
  void __impl_clearRecord() {
    if constexpr (rec == RecordOption::RECORD_FITNESS) {
      Base::__impl_clearRecord();
    }
  }
  void __impl_computeAllFitness() {
    checkMove();
    std::vector<uint64_t> before;
    for (auto& p : this->population()) before.push_back(mix(hashV(p.position), mix(hashV(p.velocity), hashV(p.pBest.position))));
    elog().clear();
    Base::__impl_computeAllFitness();
    auto bag = elog().bag();
    size_t i = 0;
    for (auto& p : this->population()) {
      const double f = val(p.position);
      HV_CHECK(mix(hashV(p.position), mix(hashV(p.velocity), hashV(p.pBest.position))) == before[i], "C05/pso-moved", "evaluation moved a particle");
      HV_CHECK(same(p.fitness, f), "C05/pso-stale", "fitness %.17g, position has %.17g", p.fitness, f);
      if (--bag[hashV(p.position)] < 0) violation("C05/pso-count", "a particle was not evaluated in a generation");
      if (better(f, ownBest[i])) ownBest[i] = f;
      i++;
    }
    for (auto& b : bag) HV_CHECK(b.second == 0, "C05/pso-count", "a position was evaluated %d times too often", b.second);
    count("evaluations_of_fitness", elog().n);
  }
  void __impl_updatePGBest() {
    const double prev = this->globalBest().fitness;
    const size_t prevFails = this->failTimes();
    Base::__impl_updatePGBest();
    size_t i = 0;
    double best = ownBest[0];
    for (auto& p : this->population()) {
      HV_CHECK(same(p.pBest.fitness, ownBest[i]), "C14/pbest", "personal best %.17g, best ever visited %.17g", p.pBest.fitness, ownBest[i]);
      HV_CHECK(same(val(p.pBest.position), p.pBest.fitness), "C14/pbest-position", "personal best fitness %.17g is not that of its position", p.pBest.fitness);
      if (better(ownBest[i], best)) best = ownBest[i];
      i++;
    }
    const double g = this->globalBest().fitness;
    HV_CHECK(same(g, best), "C14/gbest", "global best %.17g, best personal best %.17g", g, best);
    HV_CHECK(same(val(this->globalBest().position), g), "C14/gbest-position", "global best fitness %.17g is not that of its position", g);
    HV_CHECK(!better(prev, g), "C14/gbest-worse", "global best went from %.17g to %.17g", prev, g);
    HV_CHECK(same(this->bestFitness(), g), "C14/bestFitness", "bestFitness() %.17g, globalBest %.17g", this->bestFitness(), g);
    const size_t wantFails = better(g, prev) ? 0 : prevFails + 1;
    HV_CHECK(this->failTimes() == wantFails, "C04/pso-failtimes", "failTimes %zu, expected %zu", this->failTimes(), wantFails);
    tr.best.push_back(g);
    tr.fails.push_back(this->failTimes());
    tr.sig = mix(tr.sig, bits(g));
    HV_CHECK(tr.best.size() <= this->option().maxGeneration + 1, "C04/pso-generations", "generation %zu with a limit of %zu", tr.best.size(), this->option().maxGeneration);
    if (this->option().maxFailTimes > 0 && tr.fails.size() > 1)
      HV_CHECK(tr.fails[tr.fails.size() - 2] <= this->option().maxFailTimes, "C04/pso-fail-limit", "went on with failTimes %zu, limit %zu", tr.fails[tr.fails.size() - 2],
               this->option().maxFailTimes);
    checkBoxes("in a generation");
    remember(true);
  }
  // what the particles look like when a generation is complete, or when a run starts
  void remember(bool willMove) {
    x0.clear();
    v0.clear();
    pb0.clear();
    for (auto& p : this->population()) {
      x0.push_back(tovec(p.position));
      v0.push_back(tovec(p.velocity));
      pb0.push_back(tovec(p.pBest.position));
    }
    gb0 = tovec(this->globalBest().position);
    moves = willMove;
  }
  // when the next generation is evaluated: every particle made exactly one move since
  void checkMove() {
    if (!moves) {
      size_t k = 0;
      for (auto& p : this->population()) {
        HV_CHECK(k < x0.size() && tovec(p.position) == x0[k] && tovec(p.velocity) == v0[k], "C14/moved-before-start", "particle %zu moved before the first evaluation of a run", k);
        k++;
      }
      return;
    }
    checkBoxes("after the move");
    HV_CHECK(tovec(this->globalBest().position) == gb0, "C14/gbest-moved", "the global best moved with the particles");
    HV_CHECK(this->population().size() == x0.size(), "C14/size-changed", "%zu particles became %zu", x0.size(), this->population().size());
    const double w = this->option().inertiaFactor, c1 = this->option().learnFactorP, c2 = this->option().learnFactorG;
    size_t i = 0;
    for (auto& p : this->population()) {
      HV_CHECK(tovec(p.pBest.position) == pb0[i], "C14/pbest-moved", "a personal best moved with its particle");
      std::vector<std::array<double, 4>> eq;
      std::vector<std::array<double, 2>> poly{{0, 0}, {1, 0}, {1, 1}, {0, 1}};
      auto clip = [&](double a, double b, double c, double eps) {  // keep a*r1+b*r2 <= c (+eps)
        std::vector<std::array<double, 2>> out;
        for (size_t k = 0; k < poly.size(); k++) {
          auto& P = poly[k];
          auto& Q = poly[(k + 1) % poly.size()];
          const double fp = a * P[0] + b * P[1] - c - eps, fq = a * Q[0] + b * Q[1] - c - eps;
          if (fp <= 0) out.push_back(P);
          if ((fp < 0 && fq > 0) || (fp > 0 && fq < 0)) {
            const double t = fp / (fp - fq);
            out.push_back({P[0] + t * (Q[0] - P[0]), P[1] + t * (Q[1] - P[1])});
          }
        }
        poly = out;
      };
      for (size_t d = 0; d < lo.size(); d++) {
        const double v1 = vget(p.velocity, d), x1 = vget(p.position, d);
        const double want = std::min(hi[d], std::max(lo[d], x0[i][d] + v1));
        HV_CHECK(near(x1, want, single ? 1e-6 : 1e-12, single ? 1e-6 : 1e-12), "C14/position-step", "x went from %.17g with v=%.17g to %.17g, expected %.17g", x0[i][d], v1, x1, want);
        const double a = c1 * (pb0[i][d] - x0[i][d]), b = c2 * (gb0[d] - x0[i][d]), c = v1 - w * v0[i][d];
        const double eps = (single ? 2e-6 : 1e-10) * (std::fabs(a) + std::fabs(b) + std::fabs(v1) + std::fabs(w * v0[i][d])) + (single ? 1e-6 : 1e-12);
        if (v1 >= vm[d]) clip(-a, -b, -c, eps);
        else if (v1 <= -vm[d]) clip(a, b, c, eps);
        else {
          clip(a, b, c, eps);
          clip(-a, -b, -c, eps);
        }
        // ratios are only sampled where no ratio at all could be cut off by the velocity limit (no selection bias)
        if (!single && std::fabs(w * v0[i][d]) + std::fabs(a) + std::fabs(b) < vm[d]) eq.push_back({a, b, c, double(d)});
      }
      HV_CHECK(!poly.empty(), "C14/velocity-formula", "no attraction ratios in [0,1] explain the new velocity of particle %zu", i);
      for (auto& q : eq) {
        if ((q[0] == 0) == (q[1] == 0)) continue;
        const double pull = q[0] + q[1], from = std::fabs(x0[i][size_t(q[3])]) + std::fabs(w * v0[i][size_t(q[3])]);
        if (std::fabs(pull) < 1e-3 * from) continue;
        rat.one(q[2] / pull);
        break;
      }
      for (size_t k = 1; k < eq.size(); k++) {
        const double det = eq[0][0] * eq[k][1] - eq[0][1] * eq[k][0];
        if (std::fabs(det) < 1e-3) continue;
        rat.add((eq[0][2] * eq[k][1] - eq[0][1] * eq[k][2]) / det, (eq[0][0] * eq[k][2] - eq[0][2] * eq[k][0]) / det);
        break;
      }
      i++;
    }
    count("particle_moves", i);
  }
  void run() {
    const double entry = this->globalBest().fitness;
    tr = PTrace();
    remember(false);
    this->template __impl_run<MonPSO>();
    (void)entry;
    const size_t S = tr.best.size();
    HV_CHECK(S > 0 && this->generation() + 1 == S, "C04/pso-generation-count", "%zu generations evaluated but generation()==%zu", S, this->generation());
    const auto& o = this->option();
    if (S > 0) {
      const bool byGen = S == o.maxGeneration + 1, byFail = o.maxFailTimes > 0 && tr.fails.back() > o.maxFailTimes;
      HV_CHECK(byGen || byFail, "C04/pso-early-stop", "stopped after %zu of %zu generations with failTimes %zu of %zu", S, o.maxGeneration + 1, tr.fails.back(), o.maxFailTimes);
      if constexpr (rec == RecordOption::RECORD_FITNESS) {
        HV_CHECK(this->record().size() == S, "C04/pso-record-size", "%zu entries for %zu generations", this->record().size(), S);
        for (size_t i = 0; i < std::min(S, this->record().size()); i++)
          HV_CHECK(same(this->record()[i], tr.best[i]), "C04/pso-record", "entry %zu is %.17g, best was %.17g", i, this->record()[i], tr.best[i]);
        if (!this->record().empty())
          HV_CHECK(same(this->record().back(), this->bestFitness()), "C04/pso-record-last", "last entry %.17g, best fitness %.17g", this->record().back(), this->bestFitness());
      }
    }
    HV_CHECK(elog().badArgs == 0, "C05/pso-args", "fitness function got wrong args");
    observed(mix(tr.sig, S));
  }
};

template <class Opt>
static void unreachableLimit(Opt& o, Rng& rng) {
  const size_t l = rng.pick(std::vector<size_t>{size_t(1) << 40, size_t(1e15), ~size_t(0) - 1});
  if constexpr (requires { o.maxGenerations; }) o.maxGenerations = l;
  else o.maxGeneration = l;
}
static PSOOption randomOpt(Rng& rng) {
  PSOOption o;
  o.populationSize = size_t(rng.coin(0.1) ? 1 : rng.coin(0.05) ? rng.range(25, 90) : rng.range(2, 20));
  o.maxGeneration = size_t(rng.coin(0.08) ? 0 : rng.range(1, 14));
  static const std::vector<size_t> mf{0, 0, 1, 2, 4, 50};
  o.maxFailTimes = rng.pick(mf);
  if (o.maxFailTimes >= 1 && o.maxFailTimes <= 2 && rng.coin(0.1)) {
    unreachableLimit(o, rng);
    count("runs_with_unreachable_generation_limit");
  }
  static const std::vector<double> w{0.8, 0.5, 0, 1.1, 0.7}, l{2, 2, 0.5, 0, 1.5, 3};
  o.inertiaFactor = rng.pick(w);
  o.learnFactorP = rng.pick(l);
  o.learnFactorG = rng.pick(l);
  static int drawn = 0;
  if (++drawn % 300 == 5) {
    o.populationSize = size_t(rng.pick(std::vector<int>{257, 300, 513, 1030}) + rng.range(0, 9));
    o.maxGeneration = size_t(rng.range(1, 4));
    count("runs_with_hundreds_of_particles");
  } else if (drawn % 300 == 11) {
    o.populationSize = size_t(rng.range(2, 8));
    o.maxGeneration = size_t(rng.range(130, 300));
    o.maxFailTimes = rng.coin() ? 0 : 270;
    count("runs_with_hundreds_of_generations");
  }
  return o;
}

template <class M, class V, BoxShape BS>
static void configureBox(M& m, Rng& rng) {
  if constexpr (!VTraits<V>::fixed) {
    if constexpr (VTraits<V>::mat) {
      m.rows = V::RowsAtCompileTime > 0 ? int(V::RowsAtCompileTime) : int(rng.range(1, 4));
      m.cols = V::ColsAtCompileTime > 0 ? int(V::ColsAtCompileTime) : int(rng.range(1, 4));
      m.setDimensions(m.rows, m.cols);
    } else {
      m.rows = int(VTraits<V>::roomy && rng.coin(0.02) ? rng.range(33, 140) : rng.range(1, 6));
      m.cols = 1;
      m.setDimensions(m.rows);
    }
    if constexpr (BS == BoxShape::RECTANGLE_BOX) {  // the limits have the new shape at once, so that their elements can be set
      const auto& cm = m;
      for (const V* v : {&cm.posMin(), &cm.posMax(), &cm.maxVelocity()}) {
        bool ok = int(v->size()) == m.rows * m.cols;
        if constexpr (VTraits<V>::mat) ok = ok && v->rows() == m.rows && v->cols() == m.cols;
        HV_CHECK(ok, "C14/dimensions", "a limit of the box has %zu elements and not the shape set (%dx%d)", size_t(v->size()), m.rows, m.cols);
      }
    }
  } else {
    V v{};
    m.rows = int(v.size());
    m.cols = 1;
    if constexpr (VTraits<V>::mat) {
      m.rows = int(v.rows());
      m.cols = int(v.cols());
    }
  }
  const int D = m.rows * m.cols;
  m.lo.assign(size_t(D), 0);
  m.hi = m.vm = m.lo;
  V a = makeVar<V>(m.rows, m.cols), b = makeVar<V>(m.rows, m.cols), c = makeVar<V>(m.rows, m.cols);
  for (int d = 0; d < D; d++) {
    if (d == 0 || BS == BoxShape::RECTANGLE_BOX) {
      m.lo[size_t(d)] = rng.coin(0.2) ? -1e-3 : rng.d(-5, 1);
      m.hi[size_t(d)] = m.lo[size_t(d)] + (rng.coin(0.1) ? 1e-3 : rng.d(0.1, 6));
      m.vm[size_t(d)] = rng.coin(0.3) ? 100 : rng.d(0.01, 1.5);
      for (auto* x : {&m.lo, &m.hi, &m.vm}) (*x)[size_t(d)] = typename M::Sc((*x)[size_t(d)]);
    } else {
      m.lo[size_t(d)] = m.lo[0];
      m.hi[size_t(d)] = m.hi[0];
      m.vm[size_t(d)] = m.vm[0];
    }
    a.data()[d] = m.lo[size_t(d)];
    b.data()[d] = m.hi[size_t(d)];
    c.data()[d] = m.vm[size_t(d)];
  }
  const bool split = rng.coin(), refs = rng.coin(0.3);
  if constexpr (BS == BoxShape::SQUARE_BOX) {
    if (refs) {
      m.posMin() = typename M::Sc(m.lo[0]);
      m.posMax() = typename M::Sc(m.hi[0]);
      m.maxVelocity() = typename M::Sc(m.vm[0]);
    } else if (split) {
      m.setRange(typename M::Sc(m.lo[0]), typename M::Sc(m.hi[0]));
      m.setMaxVelocity(typename M::Sc(m.vm[0]));
    } else
      m.setPVRange(typename M::Sc(m.lo[0]), typename M::Sc(m.hi[0]), typename M::Sc(m.vm[0]));
    const auto& cm = m;
    HV_CHECK(cm.posMin() == m.lo[0] && cm.posMax() == m.hi[0] && cm.maxVelocity() == m.vm[0], "C14/readback", "square range reads back changed");
  } else {
    if (refs) {
      for (int d = 0; d < D; d++) {
        at(m.posMin(), d) = typename M::Sc(m.lo[size_t(d)]);
        at(m.posMax(), d) = typename M::Sc(m.hi[size_t(d)]);
        at(m.maxVelocity(), d) = typename M::Sc(m.vm[size_t(d)]);
      }
    } else if (split) {
      m.setRange(a, b);
      m.setMaxVelocity(c);
    } else
      m.setPVRange(a, b, c);
    const auto& cm = m;
    HV_CHECK(tovec(cm.posMin()) == m.lo && tovec(cm.posMax()) == m.hi && tovec(cm.maxVelocity()) == m.vm, "C14/readback", "range reads back changed");
  }
  HV_CHECK(m.dimensions() == D, "C14/dimensions", "dimensions() %d, set %d", m.dimensions(), D);
  for (int d = 0; d < D; d++)
    HV_CHECK(m.posMin(d) == m.lo[size_t(d)] && m.posMax(d) == m.hi[size_t(d)] && m.maxVelocity(d) == m.vm[size_t(d)], "C14/readback-index", "element %d of the range reads back [%g,%g] %g, set [%g,%g] %g",
             d, m.posMin(d), m.posMax(d), m.maxVelocity(d), m.lo[size_t(d)], m.hi[size_t(d)], m.vm[size_t(d)]);
  if constexpr (VTraits<V>::mat && !VTraits<V>::fixed)
    HV_CHECK(m.boxRows() == m.rows && m.boxCols() == m.cols, "C14/dimensions", "box is %dx%d, set %dx%d", m.boxRows(), m.boxCols(), m.rows, m.cols);
}

template <class V, BoxShape BS, FitnessOption fo, RecordOption rec, bool args, bool ct>
static void histories(Rng& rng, int n) {
  using Arg = std::conditional_t<args, SCtx, void>;
  Ratios all;
  Starts allStarts;
  for (int it = 0; it < n; it++) {
    eng::start(heu::internal::global_mt19937(), rng);
    std::unique_ptr<MonPSO<V, BS, fo, rec, Arg>> mp;
    auto go = [&](auto& m) {
      const int land = int(rng.range(0, NSLAND - 1));
      elog().badArgs = 0;
      globalLand() = land;
      PSOOption o = randomOpt(rng);
      beginCase(fmt("PSO %s %s %s%s%s land=%s pop=%zu gens=%zu fail=%zu w=%g p=%g g=%g seed-case=%d", VTraits<V>::name, BS == BoxShape::SQUARE_BOX ? "square" : "rect",
                    fo == LESS ? "less" : "greater", args ? " args" : "", ct ? " ctfun" : "", slandName(land), o.populationSize, o.maxGeneration, o.maxFailTimes,
                    o.inertiaFactor, o.learnFactorP, o.learnFactorG, it));
      if constexpr (args) {
        SCtx c;
        c.land = land;
        m.setArgs(c);
      }
      configureBox<std::decay_t<decltype(m)>, V, BS>(m, rng);
      HV_CHECK(m.generation() == 0 && m.failTimes() == 0, "C04/fresh-counters", "a new solver reports progress");
      m.setOption(o);
      m.initAndCheck();
      m.run();
      const int more = int(rng.range(0, 2));
      for (int k = 0; k < more; k++) {
        PSOOption p = randomOpt(rng);
        const int act = int(rng.range(0, 3));
        if (act == 0) {  // run on
        } else if (act == 1) {  // other limits and factors, same swarm
          p.populationSize = o.populationSize;
          m.setOption(p);
        } else if (act == 2) {  // a new swarm
          m.setOption(p);
          m.initAndCheck();
        } else {  // another space
          configureBox<std::decay_t<decltype(m)>, V, BS>(m, rng);
          m.setOption(p);
          m.initAndCheck();
        }
        o = m.option();
        m.run();
        if (rng.coin(0.2)) {  // results survive being copied
          auto copy = m.globalBest();
          HV_CHECK(hashV(copy.position) == hashV(m.globalBest().position), "C14/copy", "copied result differs");
        }
      }
      if (eng::hostileRun()) m.rat = Ratios();
      allStarts.add(m.starts);
      all.on += m.rat.on;
      all.os += m.rat.os;
      all.oq += m.rat.oq;
      all.n += m.rat.n;
      all.s1 += m.rat.s1;
      all.s2 += m.rat.s2;
      all.q11 += m.rat.q11;
      all.q22 += m.rat.q22;
      all.q12 += m.rat.q12;
      all.lag += m.rat.lag;
      all.nl += m.rat.nl;
    };
    if constexpr (ct) {
      if constexpr (args) {
        MonPSO<V, BS, fo, rec, Arg, &fitArgs<V>> m;
        go(m);
      } else {
        MonPSO<V, BS, fo, rec, Arg, &fitNoArgs<V>> m;
        go(m);
      }
    } else {
      MonPSO<V, BS, fo, rec, Arg> m;
      if constexpr (args)
        m.setfFun(&fitArgs<V>);
      else
        m.setfFun(&fitNoArgs<V>);
      go(m);
    }
  }
  allStarts.check("C14");
  if (all.on >= 500) {
    const double m1 = all.os / all.on, v = all.oq / all.on - m1 * m1;
    HV_CHECK(std::fabs(m1 - 0.5) < 8 * std::sqrt(1.0 / 12 / all.on), "C14/ratio-mean", "mean attraction ratio %.4f over %.0f moves towards a single best point", m1, all.on);
    HV_CHECK(std::fabs(v - 1.0 / 12) < 0.6 / std::sqrt(all.on), "C14/ratio-spread", "variance of the attraction ratio %.4f over %.0f moves towards a single best point", v, all.on);
    count("single_attraction_ratios", uint64_t(all.on));
  }
  if (all.n >= 1000) {
    const double sd = std::sqrt(1.0 / 12 / all.n), m1 = all.s1 / all.n, m2 = all.s2 / all.n;
    HV_CHECK(std::fabs(m1 - 0.5) < 8 * sd && std::fabs(m2 - 0.5) < 8 * sd, "C14/ratio-mean", "mean attraction ratios %.4f, %.4f over %.0f moves", m1, m2, all.n);
    const double cov = all.q12 / all.n - m1 * m2, csd = (1.0 / 12) / std::sqrt(all.n);
    HV_CHECK(std::fabs(cov) < 8 * csd, "C14/ratio-dependent", "covariance of the two attraction ratios %.5f over %.0f moves", cov, all.n);
    if (all.nl > 1000)
      HV_CHECK(std::fabs(all.lag / all.nl) < 8 * (1.0 / 12) / std::sqrt(all.nl), "C14/ratio-shared", "attraction ratios of successive particles have covariance %.5f", all.lag / all.nl);
    const double v1 = all.q11 / all.n - m1 * m1, v2 = all.q22 / all.n - m2 * m2;
    HV_CHECK(std::fabs(v1 - 1.0 / 12) < 0.6 / std::sqrt(all.n) && std::fabs(v2 - 1.0 / 12) < 0.6 / std::sqrt(all.n), "C14/ratio-spread", "variances of the attraction ratios %.4f, %.4f", v1, v2);
    count("attraction_ratios_recovered", uint64_t(all.n));
  }
}

#define SQ BoxShape::SQUARE_BOX
#define RC BoxShape::RECTANGLE_BOX
#define REC RecordOption::RECORD_FITNESS
#define NOREC RecordOption::DONT_RECORD_FITNESS
using AR = Eigen::Array<double, 1, Eigen::Dynamic>;  // containers that are used less often
using AR4 = Eigen::Array<double, 1, 4>;
using AXXr = Eigen::Array<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
using AX3 = Eigen::Array<double, Eigen::Dynamic, 3>;
using A23r = Eigen::Array<double, 2, 3, Eigen::RowMajor>;
using AX8 = Eigen::Array<double, Eigen::Dynamic, 1, 0, 8, 1>;
using A3 = Eigen::Array<double, 4, 1>;
using AX = Eigen::ArrayXd;
using AXX = Eigen::ArrayXXd;
using A23 = Eigen::Array<double, 2, 3>;
using S3 = std::array<double, 3>;
using SV = std::vector<double>;
#if PS_GROUP == 0
HV_PART(pso_fixed_eigen) {
  const int n = scale(260);
  histories<A3, SQ, LESS, REC, true, false>(rng, n);
  histories<A3, RC, GREATER, REC, false, true>(rng, n);
  histories<A23, RC, LESS, NOREC, true, true>(rng, n / 2);
}
#elif PS_GROUP == 1
HV_PART(pso_dynamic_eigen) {
  const int n = scale(260);
  histories<AX, SQ, GREATER, REC, true, true>(rng, n);
  histories<AX, RC, LESS, REC, false, false>(rng, n);
  histories<AXX, RC, GREATER, REC, true, false>(rng, n / 2);
  histories<AXX, SQ, LESS, REC, false, false>(rng, n / 2);
}
#elif PS_GROUP == 2
HV_PART(pso_std) {
  const int n = scale(260);
  histories<S3, SQ, LESS, REC, true, false>(rng, n);
  histories<S3, RC, GREATER, REC, false, false>(rng, n);
  histories<SV, RC, LESS, REC, true, true>(rng, n);
  histories<SV, SQ, GREATER, NOREC, false, false>(rng, n);
}
#elif PS_GROUP == 3
HV_PART(pso_rows) {
  const int n = scale(120);
  histories<AR, SQ, LESS, REC, true, false>(rng, n);
  histories<AR, RC, GREATER, REC, false, false>(rng, n);
  histories<AR4, RC, LESS, REC, false, true>(rng, n);
  histories<Eigen::RowVectorXd, RC, LESS, NOREC, true, false>(rng, n);
}
HV_PART(pso_shapes) {
  const int n = scale(120);
  histories<AXXr, RC, LESS, REC, true, false>(rng, n);
  histories<AX3, RC, GREATER, REC, false, false>(rng, n);
  histories<AX3, SQ, LESS, REC, true, false>(rng, n);
  histories<A23r, SQ, GREATER, REC, true, true>(rng, n);
  histories<AX8, RC, LESS, NOREC, false, false>(rng, n);
}
#elif PS_GROUP == 4
HV_PART(pso_matrices) {
  const int n = scale(120);
  histories<Eigen::VectorXd, SQ, GREATER, REC, true, false>(rng, n);
  histories<Eigen::Matrix3d, RC, LESS, REC, false, false>(rng, n);
  histories<Eigen::MatrixXd, RC, LESS, REC, true, false>(rng, n);
  histories<Eigen::MatrixXd, SQ, GREATER, NOREC, false, true>(rng, n);
}
HV_PART(pso_floats) {
  const int n = scale(120);
  histories<Eigen::ArrayXf, RC, LESS, REC, true, false>(rng, n);
  histories<Eigen::Array4f, SQ, GREATER, REC, false, false>(rng, n);
  histories<std::vector<float>, SQ, LESS, REC, true, true>(rng, n);
  histories<std::array<float, 3>, RC, GREATER, REC, false, false>(rng, n);
}
#endif
