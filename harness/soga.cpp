// Monitor for the single-objective genetic algorithm: C01, C02, C03, C04, C05, C07.
// Build one translation unit per group of selection methods (-DSM_GROUP=0 run-time chosen, 1..4 compile-time chosen).
#include "gamon.hpp"
using namespace hv;
using heu::FitnessOption;
using heu::GAOption;
using heu::RecordOption;
using heu::SelectMethod;

static const char* smName(SelectMethod m) {
  switch (m) {
    case SelectMethod::RouletteWheel: return "RouletteWheel";
    case SelectMethod::Tournament: return "Tournament";
    case SelectMethod::Truncation: return "Truncation";
    case SelectMethod::MonteCarlo: return "MonteCarlo";
    case SelectMethod::Probability: return "Probability";
    case SelectMethod::LinearRank: return "LinearRank";
    case SelectMethod::ExponentialRank: return "ExponentialRank";
    case SelectMethod::Boltzmann: return "Boltzmann";
    case SelectMethod::StochasticUniversal: return "StochasticUniversal";
    case SelectMethod::EliteReserved: return "EliteReserved";
    default: return "?";
  }
}

struct Trace {
  std::vector<double> best;       // best of each generation after selection
  std::vector<size_t> fails;      // failTimes after each selection
  uint64_t sig = 1;
  void clear() { best.clear(); fails.clear(); sig = 1; }
};

template <FitnessOption fo, RecordOption rec, SelectMethod sm, bool compileTimeFuns = false>
struct Mon : public std::conditional_t<compileTimeFuns, heu::SOGA<Ind, fo, rec, sm, Ctx, iFun, fFun1, cFun, mFun>,
                                       heu::SOGA<Ind, fo, rec, sm, Ctx>> {
  using Base = std::conditional_t<compileTimeFuns, heu::SOGA<Ind, fo, rec, sm, Ctx, iFun, fFun1, cFun, mFun>,
                                  heu::SOGA<Ind, fo, rec, sm, Ctx>>;
  using Gene = typename Base::Gene_t;
  Trace tr;
  std::map<uint32_t, int> survivals;
  int elites = 1;

  SelectMethod method() const {
    if constexpr (sm == SelectMethod::RunTimeSelectMethod) return this->selectMethod();
    else return sm;
  }
  static bool better(double a, double b) { return fo == FitnessOption::FITNESS_GREATER_BETTER ? a > b : a < b; }

  void setup(const Ctx& c) {
    this->setArgs(c);
    if constexpr (!compileTimeFuns) {
      this->setiFun(iFun);
      this->setfFun(fFun1);
      this->setcFun(cFun);
      this->setmFun(mFun);
    }
  }
  HEU_RELOAD_MEMBERFUCTION_RUN

  void __impl_computeAllFitness() {
    checkBreeding(*this);
    Base::__impl_computeAllFitness();
    const int land = this->args().land;
    checkEvaluated(*this, [&](const Gene& g) { return bits(g.fitness) == bits(landscape(land, g.decision_variable.x)); },
                   "selection");
  }
  void __impl_crossover() { monitorCrossover(*this, [&] { Base::__impl_crossover(); }); }
  void __impl_mutate() { monitorMutation(*this, [&] { Base::__impl_mutate(); }); }

  void __impl_select() {
    const auto pre = snapshot(this->population());
    const size_t N = pre.size(), K = this->option().populationSize;
    std::vector<double> preF;
    for (auto& g : this->population()) preF.push_back(g.fitness);
    // the run must not go on after its limits were passed
    if (!tr.fails.empty()) {
      HV_CHECK(!(this->option().maxFailTimes > 0 && tr.fails.back() > this->option().maxFailTimes), "C04/soga-runs-on-fail",
               "continued with failTimes %zu > %zu", tr.fails.back(), this->option().maxFailTimes);
      HV_CHECK(tr.best.size() <= this->option().maxGenerations, "C04/soga-runs-on-gen", "continued after %zu generations of %zu",
               tr.best.size(), this->option().maxGenerations);
    }
    Base::__impl_select();
    reg().selected(long(this->population().size()));
    const auto post = snapshot(this->population());
    const SelectMethod m = method();
    const std::string mn = smName(m);
    // ---- C01
    const size_t want = N > K ? K : N;
    HV_CHECK(post.size() == want, "C01/size-" + mn, "%s: %zu individuals before, %zu after, configured %zu", mn.c_str(), N,
             post.size(), K);
    std::map<uint32_t, int> cnt;
    std::map<uint32_t, std::pair<uint64_t, uint64_t>> val;
    for (auto& s : pre) {
      cnt[s.id]++;
      val[s.id] = {s.xh, s.fh};
    }
    std::map<uint32_t, int> pc;
    for (auto& s : post) {
      auto it = val.find(s.id);
      if (it == val.end() || it->second.first != s.xh || it->second.second != s.fh || !s.computed) {
        violation("C01/invented-" + mn, fmt("%s: survivor %u is no unmodified member of the population before", mn.c_str(), s.id));
        continue;
      }
      pc[s.id]++;
    }
    if (m != SelectMethod::Tournament || N <= K)
      for (auto& p : pc)
        HV_CHECK(p.second <= cnt[p.first], "C01/duplicated-" + mn, "%s: individual %u present %d times survives %d times", mn.c_str(),
                 p.first, cnt[p.first], p.second);
    if (N <= K)
      HV_CHECK(pc == cnt, "C01/eliminated-without-need-" + mn, "%s: %zu of allowed %zu, yet somebody vanished", mn.c_str(), N, K);
    for (auto& p : pc) survivals[p.first] += p.second;

    // ---- C02
    const Gene* bg = nullptr;
    const Gene* rep = &this->bestGene();
    double best = 0;
    bool first = true, live = false;
    for (auto& g : this->population()) {
      if (&g == rep) live = true;
      if (first || better(g.fitness, best)) {
        best = g.fitness;
        bg = &g;
        first = false;
      }
    }
    (void)bg;
    HV_CHECK(live, "C02/dead-best-" + mn, "%s: the best gene is no member of the population", mn.c_str());
    if (live) {
      HV_CHECK(!better(best, rep->fitness) && this->bestFitness() == rep->fitness, "C02/not-best-" + mn,
               "%s: reported best %.17g but a member has %.17g", mn.c_str(), this->bestFitness(), best);
      HV_CHECK(&this->result() == &rep->decision_variable || this->result().id == rep->decision_variable.id, "C02/result-" + mn,
               "%s: result() is not the best gene's variable", mn.c_str());
    }
    std::vector<double> postF;
    for (auto& g : this->population()) postF.push_back(g.fitness);
    std::sort(preF.begin(), preF.end(), better);
    std::sort(postF.begin(), postF.end(), better);
    if (m == SelectMethod::Truncation)
      for (size_t i = 0; i < postF.size() && i < preF.size(); i++)
        if (preF[i] != postF[i]) {
          violation("C02/truncation-not-best", fmt("place %zu should hold fitness %.17g, holds %.17g", i, preF[i], postF[i]));
          break;
        }
    if (m == SelectMethod::EliteReserved)
      for (size_t i = 0; i < size_t(elites) && i < postF.size() && i < preF.size(); i++)
        if (preF[i] != postF[i]) {
          violation("C02/elite-lost", fmt("elite %zu of %d should have fitness %.17g, has %.17g", i, elites, preF[i], postF[i]));
          break;
        }
    if ((m == SelectMethod::Truncation || m == SelectMethod::EliteReserved) && !tr.best.empty())
      HV_CHECK(!better(tr.best.back(), best), "C02/elitism-" + mn, "%s: best got worse from %.17g to %.17g", mn.c_str(),
               tr.best.back(), best);

    // ---- C04: fail counter
    const size_t f = this->failTimes();
    if (tr.best.empty())
      HV_CHECK(f <= 1, "C04/soga-fail-start", "failTimes is %zu after the first generation", f);
    else if (better(best, tr.best.back()))
      HV_CHECK(f == 0, "C04/soga-fail-count-" + mn, "%s: improved from %.17g to %.17g but failTimes is %zu", mn.c_str(), tr.best.back(), best, f);
    else
      HV_CHECK(f == tr.fails.back() + 1, "C04/soga-fail-count-" + mn, "%s: no improvement (%.17g to %.17g), failTimes went from %zu to %zu",
               mn.c_str(), tr.best.back(), best, tr.fails.back(), f);
    tr.best.push_back(best);
    tr.fails.push_back(f);
    tr.sig = mix(mix(mix(tr.sig, N), post.size()), bits(best));
    count("generations");
    count("survivors", post.size());
  }

  void runAndCheck() {
    tr.clear();
    reg().selected(-1);
    this->run();
    const size_t S = tr.best.size();
    HV_CHECK(S >= 1, "C04/soga-no-generation", "run() did not evaluate a single generation");
    if (!S) return;
    HV_CHECK(this->generation() == S - 1, "C04/soga-generation-count", "%zu selections but generation()==%zu", S, this->generation());
    HV_CHECK(this->generation() <= this->option().maxGenerations, "C04/soga-too-long", "generation %zu > limit %zu", this->generation(),
             this->option().maxGenerations);
    const bool byGen = S > this->option().maxGenerations;
    const bool byFail = this->option().maxFailTimes > 0 && tr.fails.back() > this->option().maxFailTimes;
    HV_CHECK(byGen || byFail, "C04/soga-early-stop", "stopped after %zu of %zu generations with failTimes %zu (limit %zu)", S - 1,
             this->option().maxGenerations, tr.fails.back(), this->option().maxFailTimes);
    HV_CHECK(this->failTimes() == tr.fails.back(), "C04/soga-fail-final", "failTimes() changed after the last generation");
    if (byFail && !byGen) count("stopped_by_fail_limit");
    if (byGen) count("stopped_by_generation_limit");
    if constexpr (rec == RecordOption::RECORD_FITNESS) {
      HV_CHECK(this->record().size() == S, "C04/soga-record-size", "%zu entries for %zu generations", this->record().size(), S);
      for (size_t i = 0; i < S && i < this->record().size(); i++)
        if (!same(this->record()[i], tr.best[i])) {
          violation("C04/soga-record-value", fmt("entry %zu is %.17g, best was %.17g", i, this->record()[i], tr.best[i]));
          break;
        }
      if (!this->record().empty())
        HV_CHECK(same(this->record().back(), this->bestFitness()), "C04/soga-record-last", "last entry is not bestFitness()");
    }
    // nobody created in evolution is left unevaluated or evaluated twice, dead or alive
    for (uint32_t i = 1; i < reg().n; i++)
      if (reg().origin[i] != 0)
        HV_CHECK(reg().evals[i] == 1, "C05/eval-count-final", "individual %u (origin %d) was evaluated %d times", i, int(reg().origin[i]),
                 int(reg().evals[i]));
      else
        HV_CHECK(reg().evals[i] <= 1, "C05/eval-count-final", "initial individual %u was evaluated %d times", i, int(reg().evals[i]));
    count("evaluations_of_fitness", reg().evalCalls);
    observed(mix(tr.sig, S));
  }
};

template <class M>
static void setMethodParams(M& s, SelectMethod m, Rng& rng, bool less, std::string& desc, size_t minK) {
  (void)s; (void)less; (void)minK;
  if constexpr (requires { s.setEliteNum(1); })
    if (m == SelectMethod::EliteReserved) {
      s.elites = rng.coin(0.4) ? 1 : int(rng.range(1, int64_t(minK)));
      s.setEliteNum(s.elites);
      HV_CHECK(s.eliteNum() == s.elites, "C02/elite-num", "eliteNum() does not read back");
      desc += fmt(" elites=%d", s.elites);
    }
  if constexpr (requires { s.setTournamentSize(2); })
    if (m == SelectMethod::Tournament) {
      int ts = int(rng.range(2, std::max<int64_t>(2, std::min<int64_t>(6, int64_t(minK) - 1))));
      s.setTournamentSize(ts);
      desc += fmt(" tsize=%d", ts);
    }
  if constexpr (requires { s.setLinearSelectProbability(0.1, 0.9); })
    if (m == SelectMethod::LinearRank && rng.coin()) {
      double w = rng.coin(0.3) ? 0 : rng.d(0, 0.4), b = rng.coin(0.3) ? 1.0 : rng.d(w + 0.01, 1);
      s.setLinearSelectProbability(w, b);
      desc += fmt(" lin=%.3f,%.3f", w, b);
    }
  if constexpr (requires { s.setExponetialSelectBase(0.5); })
    if (m == SelectMethod::ExponentialRank && rng.coin()) {
      static const std::vector<double> bs{0.0, 0.1, 0.5, 0.9, 0.99};
      double b = rng.pick(bs);
      s.setExponetialSelectBase(b);
      desc += fmt(" base=%.2f", b);
    }
  if constexpr (requires { s.setBoltzmannSelectStrength(1.0); })
    if (m == SelectMethod::Boltzmann && rng.coin(0.7)) {
      static const std::vector<double> bs{0.01, 1, 10, 1000};
      double b = rng.pick(bs) * (less ? -1 : 1);
      s.setBoltzmannSelectStrength(b);
      desc += fmt(" strength=%g", b);
    }
}

static const std::vector<SelectMethod> ALL{SelectMethod::RouletteWheel,  SelectMethod::Tournament,      SelectMethod::Truncation,
                                           SelectMethod::MonteCarlo,     SelectMethod::Probability,     SelectMethod::LinearRank,
                                           SelectMethod::ExponentialRank, SelectMethod::Boltzmann,      SelectMethod::StochasticUniversal,
                                           SelectMethod::EliteReserved};

// one solver object, one to three runs, sometimes reconfigured in between
template <FitnessOption fo, RecordOption rec, SelectMethod sm, bool ct>
static void history(Rng& rng) {
  reg().reset();
  cbRng() = Rng(rng.next());
  eng::start(heu::internal::global_mt19937(), rng);
  Ctx c;
  c.land = int(rng.range(0, NLAND - 1));
  auto s = std::make_unique<Mon<fo, rec, sm, ct>>();
  const int runs = int(rng.range(1, 3));
  size_t alive = 0;
  bool initialized = false;
  for (int r = 0; r < runs; r++) {
    SelectMethod m = sm;
    if constexpr (sm == SelectMethod::RunTimeSelectMethod) {
      m = rng.pick(ALL);
      s->setSelectMethod(m);
      HV_CHECK(s->selectMethod() == m, "C01/select-method", "selectMethod() does not read back");
    }
    int minPop = m == SelectMethod::Tournament ? 4 : 1;
    GAOption o = randomOption(rng, minPop, 24, 10);
    if (o.maxFailTimes >= 1 && o.maxFailTimes <= 2 && rng.coin(0.1)) {
      unreachableLimit(o, rng);
      count("runs_with_unreachable_generation_limit");
    }
    std::string d = fmt("SOGA %s%s %s land=%s pop=%zu gen=%zu fail=%zu pc=%.2f pm=%.2f run=%d", smName(m),
                        sm == SelectMethod::RunTimeSelectMethod ? "(rt)" : "", fo == FitnessOption::FITNESS_LESS_BETTER ? "less" : "greater",
                        landName(c.land), o.populationSize, o.maxGenerations, o.maxFailTimes, o.crossoverProb, o.mutateProb, r);
    bool init = !initialized || rng.coin(0.4);
    setMethodParams(*s, m, rng, fo == FitnessOption::FITNESS_LESS_BETTER, d, std::min(o.populationSize, init ? o.populationSize : std::max<size_t>(alive, 1)));
    if (init) d += " init";
    beginCase(d);
    s->setOption(o);
    // changing the landscape makes stored fitness values stale by the user's own doing: only together with initializePop
    if (init) {
      c.land = int(rng.range(0, NLAND - 1));
      s->setup(c);
      HV_CHECK(initialized || (s->generation() == 0 && s->failTimes() == 0), "C04/fresh-counters", "a new solver reports progress");
      s->initializePop();
      initialized = true;
      HV_CHECK(s->population().size() == o.populationSize, "C01/initial-size", "initializePop made %zu of %zu", s->population().size(),
               o.populationSize);
      // one init in four keeps a twin with a deliberately larger population: reconfigure down before running
      if (rng.coin(0.25) && o.populationSize > size_t(minPop) && m != SelectMethod::EliteReserved && m != SelectMethod::Tournament) {
        o.populationSize = size_t(rng.range(minPop, int64_t(o.populationSize)));
        s->setOption(o);
      }
    }
    s->runAndCheck();
    alive = s->population().size();
  }
}

template <FitnessOption fo, SelectMethod sm, bool ct>
static void histories(Rng& rng, int n) {
  for (int i = 0; i < n; i++) {
    if (i & 1)
      history<fo, RecordOption::RECORD_FITNESS, sm, ct>(rng);
    else
      history<fo, RecordOption::DONT_RECORD_FITNESS, sm, ct>(rng);
  }
}

// ---- C03: selection pressure, many single selections of one distribution of fitness
template <FitnessOption fo, SelectMethod sm>
static void pressure(Rng& rng, SelectMethod m, int shape, int order, int variant, int N, int K, int reps) {
  using M = heu::SOGA<Ind, fo, RecordOption::DONT_RECORD_FITNESS, sm, Ctx>;  // the library class itself
  const bool less = fo == FitnessOption::FITNESS_LESS_BETTER;
  std::string d = fmt("pressure %s%s %s shape=%d order=%d N=%d K=%d reps=%d", smName(m), sm == SelectMethod::RunTimeSelectMethod ? "(rt)" : "",
                      less ? "less" : "greater", shape, order, N, K, reps);
  beginCase(d + fmt(" variant=%d", variant));
  static std::vector<double> plan;
  static size_t next;
  std::vector<double> goodness(N);
  for (int i = 0; i < N; i++) {
    double t = double(i) / (N - 1);  // 0 worst .. 1 best
    switch (shape) {
      case 0: goodness[i] = t; break;
      case 1: goodness[i] = 100 * t - 300; break;
      case 2: goodness[i] = std::pow(t, 3); break;
      case 3: goodness[i] = 1e6 * t + 1e6; break;
      case 6: goodness[i] = i >= N / 2; break;  // two levels only
      case 5: goodness[i] = 1.7e308 * (2 * t - 1); break;  // differences exceed the maximum of double
      default: goodness[i] = i >= N - 2 ? 1e22 * (i - N + 3) : t; break;  // outliers must not switch off the pressure on the rest
    }
  }
  std::vector<double> survive(N, 0.0);
  std::map<uint64_t, int> rankOf;
  for (int i = 0; i < N; i++) rankOf[bits(less ? -goodness[i] : goodness[i])] = i;
  double total = 0;
  int elites = 1;
  if (variant == 1 && m == SelectMethod::EliteReserved) elites = 3;
  for (int r = 0; r < reps; r++) {
    reg().reset();
    M s;
    Ctx c;
    s.setArgs(c);
    // fitness is simply the first coordinate
    s.setiFun(+[](Ind* v, const Ctx*) {
      v->x = {plan[next], 0, 0};
      next++;
      v->id = reg().create(v->x, 0);
    });
    s.setfFun(+[](const Ind* v, const Ctx*, double* f) { *f = v->x[0]; });
    s.setcFun(cFun);
    s.setmFun(mFun);
    if constexpr (sm == SelectMethod::RunTimeSelectMethod) s.setSelectMethod(m);
    if constexpr (requires { s.setEliteNum(1); })
      if (m == SelectMethod::EliteReserved) s.setEliteNum(elites);
    if constexpr (requires { s.setTournamentSize(2); })
      if (m == SelectMethod::Tournament && variant) s.setTournamentSize(variant == 1 ? 2 : 5);
    if constexpr (requires { s.setLinearSelectProbability(0.1, 0.9); })
      if (m == SelectMethod::LinearRank && variant) {
        if (variant == 1) s.setLinearSelectProbability(0.0, 1.0);
        else s.setLinearSelectProbability(0.0, 0.5 / N);
      }
    if constexpr (requires { s.setExponetialSelectBase(0.5); })
      if (m == SelectMethod::ExponentialRank && variant) s.setExponetialSelectBase(variant == 1 ? 0.3 : 0.9);
    if constexpr (requires { s.setBoltzmannSelectStrength(1.0); })
      if (m == SelectMethod::Boltzmann && (variant || sm == SelectMethod::RunTimeSelectMethod)) {
        // strength in units of the spread of the landscape
        double spread = goodness[N - 1] - goodness[0];
        double b = (variant == 0 ? 10 : variant == 1 ? 3 : 60) / spread;
        s.setBoltzmannSelectStrength(less ? -b : b);
      }
    plan.assign(goodness.begin(), goodness.end());
    if (less)
      for (double& v : plan) v = -v;
    if (order == 0) {
      for (int i = N - 1; i > 0; i--) std::swap(plan[i], plan[size_t(rng.range(0, i))]);
    } else if (order == 1)
      std::reverse(plan.begin(), plan.end());
    next = 0;
    GAOption o;
    o.populationSize = size_t(N);
    o.maxGenerations = 0;
    o.maxFailTimes = 0;
    o.crossoverProb = 0;
    o.mutateProb = 0;
    s.setOption(o);
    s.initializePop();
    o.populationSize = size_t(K);
    s.setOption(o);
    s.run();
    for (auto& g : s.population()) {
      auto it = rankOf.find(bits(g.fitness));
      if (it == rankOf.end()) {
        violation("C03/foreign", "survivor with a fitness nobody had");
        continue;
      }
      survive[it->second] += 1;
      total += 1;
    }
  }
  double hi = 0, lo = 0;
  for (int i = 0; i < N; i++) (i >= N / 2 ? hi : lo) += survive[i];
  const double sd = std::sqrt(total) / 2;
  const std::string key = smName(m);
  if (m == SelectMethod::MonteCarlo) {
    HV_CHECK(std::fabs(hi - lo) <= 8 * 2 * sd, "C03/montecarlo-biased", "better half %.0f, worse half %.0f survivals", hi, lo);
    double p = double(K) / N, s1 = std::sqrt(reps * p * (1 - p)) + 1;
    for (int i = 0; i < N && shape != 6; i++)
      HV_CHECK(std::fabs(survive[i] - reps * p) <= 8 * s1, "C03/montecarlo-uneven", "rank %d survives %.0f of %d times, expected %.0f", i,
               survive[i], reps, reps * p);
  } else {
    HV_CHECK(hi - lo > 4 * 2 * sd && hi > 1.05 * lo, "C03/pressure-" + key, "%s: better half survived %.0f times, worse half %.0f", key.c_str(), hi, lo);
    // the best tenth must also do better than the worst tenth
    double bh = 0, bl = 0;
    int q = std::max(1, N / 10);
    for (int i = 0; i < q; i++) {
      bl += survive[i];
      bh += survive[N - 1 - i];
    }
    double quarter[4] = {0, 0, 0, 0};
    for (int i = 0; i < N; i++) quarter[i < N / 4 ? 0 : i < N / 2 ? 1 : i < N - N / 4 ? 2 : 3] += survive[i] / double(i < N / 4 || i >= N - N / 4 ? N / 4 : i < N / 2 ? N / 2 - N / 4 : N - N / 4 - N / 2);
    for (int k = 0; k < 3 && shape != 6; k++)  // per head; two quarters may do equally well
      HV_CHECK(quarter[k + 1] >= quarter[k] - 6 * std::sqrt((quarter[k] + quarter[k + 1]) / (N / 4)), "C03/quarters-" + key, "%s: an individual of quarter %d survived %.1f times, of the worse quarter %d %.1f times", key.c_str(), k + 2,
               quarter[k + 1], k + 1, quarter[k]);
    HV_CHECK(bh > bl, "C03/extremes-" + key, "%s: best tenth survived %.0f times, worst tenth %.0f", key.c_str(), bh, bl);
  }
  observed(mix(mix(uint64_t(hi), uint64_t(lo)), uint64_t(m) * 131 + uint64_t(shape) * 17 + uint64_t(order) * 5 + uint64_t(variant)));
  count("survivals_counted", uint64_t(total));
}

// ---- C28: how often each individual survives, against the probabilities documented for the method
struct Draws {
  std::vector<double> fit;  // in the order of the list
  std::vector<double> want;  // expected number of survivors of each
  int K = 1;
  SelectMethod m;
  int tournament = 3, elites = 1;
  double worst = 0.1, best = 0.9, base = 0.8, strength = 10;
  bool known = true;
};
// inclusion probabilities of draws without replacement, in proportion to fixed weights
inline std::vector<double> hv_inclusion(const std::vector<long double>& w, int draws) {
  const size_t n = w.size();
  std::vector<long double> P(size_t(1) << n, 0);
  std::vector<double> out(n, 0);
  P[0] = 1;
  for (size_t S = 0; S < P.size(); S++) {
    const int c = __builtin_popcountll(S);
    if (P[S] == 0) continue;
    if (c == draws) {
      for (size_t i = 0; i < n; i++)
        if (S >> i & 1) out[i] += double(P[S]);
      continue;
    }
    long double sum = 0;
    for (size_t i = 0; i < n; i++)
      if (!(S >> i & 1)) sum += w[i];
    for (size_t i = 0; i < n; i++)
      if (!(S >> i & 1)) P[S | size_t(1) << i] += P[S] * (sum > 0 ? w[i] / sum : 1.0L / (long double)(int(n) - c));
  }
  return out;
}
inline double binom(int n, int k) {
  if (k < 0 || k > n) return 0;
  double r = 1;
  for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1);
  return r;
}
// one draw without replacement by the definition: who is taken
inline void sampleWeighted(Rng& rng, std::vector<long double> w, int draws, std::vector<char>& in) {
  const size_t n = w.size();
  in.assign(n, 0);
  for (int t = 0; t < draws; t++) {
    long double sum = 0;
    for (size_t i = 0; i < n; i++)
      if (!in[i]) sum += w[i];
    size_t pick = n;
    if (sum > 0) {
      long double r = (long double)rng.d(0, 1) * sum;
      for (size_t i = 0; i < n; i++)
        if (!in[i] && w[i] > 0) {
          pick = i;
          r -= w[i];
          if (r < 0) break;
        }
    } else {
      int64_t k = rng.range(0, int64_t(n) - t - 1);
      for (size_t i = 0; i < n; i++)
        if (!in[i] && k-- == 0) {
          pick = i;
          break;
        }
    }
    in[pick] = 1;
  }
}
// populations beyond exact enumeration: by sampling the definition as often as the library draws
inline std::vector<double> drawnShares(Rng& rng, const std::vector<long double>& w, int draws, int reps) {
  std::vector<double> out(w.size(), 0);
  std::vector<char> in;
  for (int t = 0; t < reps; t++) {
    sampleWeighted(rng, w, draws, in);
    for (size_t i = 0; i < w.size(); i++) out[i] += in[i];
  }
  for (double& x : out) x /= reps;
  return out;
}
inline void expectDraws(Draws& d, bool less, Rng* sampler = nullptr, int samples = 0) {
  const auto inclusion = [&](const std::vector<long double>& w, int draws) { return sampler ? drawnShares(*sampler, w, draws, samples) : hv_inclusion(w, draws); };
  const int N = int(d.fit.size()), K = d.K;
  std::vector<long double> g(N);  // goodness
  for (int i = 0; i < N; i++) g[i] = less ? -(long double)d.fit[i] : (long double)d.fit[i];
  std::vector<int> byRank(N);
  for (int i = 0; i < N; i++) byRank[i] = i;
  std::stable_sort(byRank.begin(), byRank.end(), [&](int a, int b) { return g[a] > g[b]; });
  std::vector<long double> w(N);
  const long double mn = *std::min_element(g.begin(), g.end());
  long double sum = 0;
  for (int i = 0; i < N; i++) sum += w[i] = g[i] - mn;
  d.want.assign(N, 0);
  switch (d.m) {
    case SelectMethod::Truncation:
      for (int r = 0; r < K; r++) d.want[byRank[r]] = 1;
      return;
    case SelectMethod::MonteCarlo: d.want.assign(N, double(K) / N); return;
    case SelectMethod::Tournament:
      for (int r = 0; r < N; r++) d.want[byRank[r]] = K * binom(N - 1 - r, d.tournament - 1) / binom(N, d.tournament);
      for (int r = 0, e; r < N; r = e) {  // equally good ones share
        double both = 0;
        for (e = r; e < N && g[byRank[e]] == g[byRank[r]]; e++) both += d.want[byRank[e]];
        for (int q = r; q < e; q++) d.want[byRank[q]] = both / (e - r);
      }
      return;
    case SelectMethod::RouletteWheel: d.want = inclusion(w, K); return;
    case SelectMethod::Probability:
      for (auto& x : w) {
        const long double p = sum > 0 ? x / sum : 1.0L / N;
        x = std::pow(p, (long double)K) * std::pow(1 - p, (long double)(N - K));
      }
      d.known = std::count_if(w.begin(), w.end(), [](long double x) { return x > 0; }) >= K;
      d.want = inclusion(w, K);
      return;
    case SelectMethod::LinearRank:
      for (int r = 0; r < N; r++) w[byRank[r]] = d.worst + (d.best - d.worst) * (N - 1 - r) / (N - 1);
      d.want = inclusion(w, K);
      return;
    case SelectMethod::ExponentialRank:
      for (int r = 0; r < N; r++) w[byRank[r]] = std::pow((long double)d.base, (long double)r);
      d.want = inclusion(w, K);
      return;
    case SelectMethod::Boltzmann:
      for (int i = 0; i < N; i++) w[i] = std::exp((long double)d.strength * ((long double)d.fit[i] - (long double)d.fit[byRank[0]]));
      d.want = inclusion(w, K);
      return;
    case SelectMethod::StochasticUniversal:
      for (int i = 0; i < N; i++) {
        d.want[i] = sum > 0 ? double(K * w[i] / sum) : double(K) / N;
        d.known = d.known && d.want[i] <= 1 - 1e-9;
      }
      return;
    case SelectMethod::EliteReserved: {
      std::vector<long double> rest;
      for (int r = d.elites; r < N; r++) rest.push_back(g[byRank[r]] - mn);
      const auto in = inclusion(rest, K - d.elites);
      for (int r = 0; r < N; r++) d.want[byRank[r]] = r < d.elites ? 1 : in[size_t(r - d.elites)];
      d.known = rest.front() <= 0 || std::count_if(rest.begin(), rest.end(), [](long double x) { return x > 0; }) >= K - d.elites;
      return;
    }
    default: d.known = false;
  }
}
inline std::vector<double>& drawPlan() {
  static std::vector<double> p;
  return p;
}
inline size_t& drawNext() {
  static size_t n = 0;
  return n;
}
template <class S>
static void drawSetup(S& s, const Draws& d, bool rt) {
  s.setArgs(Ctx());
  s.setiFun(+[](Ind* v, const Ctx*) {
    v->x = {drawPlan()[drawNext()], double(drawNext()), 0};
    drawNext()++;
    v->id = reg().create(v->x, 0);
  });
  s.setfFun(+[](const Ind* v, const Ctx*, double* f) { *f = v->x[0]; });
  s.setcFun(cFun);
  s.setmFun(mFun);
  if constexpr (requires { s.setSelectMethod(d.m); })
    if (rt) s.setSelectMethod(d.m);
  if constexpr (requires { s.setEliteNum(1); }) s.setEliteNum(d.elites);
  if constexpr (requires { s.setTournamentSize(2); }) s.setTournamentSize(d.tournament);
  if constexpr (requires { s.setLinearSelectProbability(0.1, 0.9); }) s.setLinearSelectProbability(d.worst, d.best);
  if constexpr (requires { s.setExponetialSelectBase(0.5); }) s.setExponetialSelectBase(d.base);
  if constexpr (requires { s.setBoltzmannSelectStrength(1.0); }) s.setBoltzmannSelectStrength(d.strength);
}
// one selection of K from the planned ones: which places of the list survived how often
template <class S>
static void drawOnce(S& s, int K, std::vector<int>& got) {
  reg().reset();
  drawNext() = 0;
  GAOption o;
  o.populationSize = drawPlan().size();
  o.maxGenerations = 0;
  o.maxFailTimes = 0;
  o.crossoverProb = 0;
  o.mutateProb = 0;
  s.setOption(o);
  s.initializePop();
  o.populationSize = size_t(K);
  s.setOption(o);
  s.run();
  std::fill(got.begin(), got.end(), 0);
  for (auto& g : s.population()) got[size_t(g.decision_variable.x[1])]++;
}
template <FitnessOption fo, SelectMethod sm>
static void draws(Rng& rng, SelectMethod m) {
  constexpr bool rt = sm == SelectMethod::RunTimeSelectMethod, less = fo == FitnessOption::FITNESS_LESS_BETTER;
  const bool ranked = m == SelectMethod::Truncation || m == SelectMethod::Tournament || m == SelectMethod::LinearRank || m == SelectMethod::ExponentialRank;
  const int configs = scale(rt ? 4 : 14);
  for (int c = 0; c < configs; c++) {
    Draws d;
    d.m = m;
    int N = int(rng.range(3, c % 4 == 3 ? 12 : 9));
    d.K = int(rng.coin(0.3) ? 1 : rng.range(1, N - 1));
    if (m == SelectMethod::Tournament) {
      N = int(rng.range(4, c % 4 == 3 ? 20 : 9));
      d.K = int(rng.range(3, N - 1));
      d.tournament = int(rng.range(2, d.K - 1));
    }
    if (m == SelectMethod::EliteReserved) d.elites = int(rng.range(1, std::min(3, d.K)));
    if (m == SelectMethod::LinearRank && c % 3) {
      d.worst = rng.coin(0.3) ? 0 : rng.d(0, 0.6);
      d.best = rng.coin(0.3) ? 1 : rng.d(d.worst + 0.01, 1);
    }
    if (m == SelectMethod::ExponentialRank && c % 3) d.base = rng.d(0.05, 0.95);
    const double unit = rng.pick(std::vector<double>{1, 1, 1e-3, 250, 1e150}), zero = rng.pick(std::vector<double>{0, 0, 1, -7});
    // 0 spread out, 1 levels with ties, 2 all the same but the elites, 3 outliers, 4 differences beyond double
    int kind = int(rng.range(0, m == SelectMethod::Tournament ? 1 : ranked || m == SelectMethod::Boltzmann ? 0 : m == SelectMethod::StochasticUniversal || m == SelectMethod::Probability ? 2 : 4));
    if (m == SelectMethod::Boltzmann && rng.coin(0.3)) kind = 1;
    for (int i = 0; i < N; i++) {
      double x = rng.d(0, 1);
      if (kind == 1) x = double(rng.range(0, 2)) / 2;
      if (kind == 2) x = 0.5;
      d.fit.push_back((x + zero) * unit);
    }
    if (kind == 2 && m == SelectMethod::EliteReserved)
      for (int i = 0; i < d.elites; i++) d.fit[size_t(i) * 7 % size_t(N)] = (less ? -1 : 1) * (10.0 + i) * unit * 2;
    if (kind == 3)
      for (int i = 0; i < std::min(N, 1 + d.elites); i++) d.fit[size_t(rng.range(0, N - 1))] = (less ? -1 : 1) * 1e22 * unit * (1 + i);
    if (kind == 4)
      for (double& x : d.fit) x = 1.7e308 * rng.d(-1, 1);
    if (m == SelectMethod::EliteReserved) {  // who is an elite must be clear
      std::vector<double> f = d.fit;
      std::sort(f.begin(), f.end(), [](double a, double b) { return less ? a < b : a > b; });
      if (f[size_t(d.elites) - 1] == f[size_t(d.elites)]) continue;
    }
    if (m == SelectMethod::Boltzmann) {
      const auto mm = std::minmax_element(d.fit.begin(), d.fit.end());
      const double spread = *mm.second - *mm.first;
      d.strength = (less ? -1 : 1) * rng.d(0.3, 7) / (spread > 0 ? spread : 1);
    }
    expectDraws(d, less);
    if (!d.known) continue;
    const int reps = scale(3000, 2);
    beginCase(fmt("draws %s%s %s N=%d K=%d kind=%d unit=%g zero=%g elites=%d tournament=%d linear=%g..%g base=%g strength=%g", smName(m), rt ? "(rt)" : "", less ? "less" : "greater", N, d.K, kind, unit,
                  zero, d.elites, d.tournament, d.worst, d.best, d.base, d.strength));
    drawPlan() = d.fit;
    heu::SOGA<Ind, fo, RecordOption::DONT_RECORD_FITNESS, sm, Ctx> s;
    drawSetup(s, d, rt);
    std::vector<int> got(size_t(N), 0);
    std::vector<double> n1(size_t(N), 0), n2(size_t(N), 0);
    for (int r = 0; r < reps; r++) {
      drawOnce(s, d.K, got);
      for (int i = 0; i < N; i++) n1[i] += got[i], n2[i] += double(got[i]) * got[i];
    }
    for (int i = 0; i < N; i++) {
      const double mean = n1[i] / reps, var = std::max(0.0, n2[i] / reps - mean * mean), expectVar = d.want[i] * std::max(0.0, 1 - d.want[i]);
      const double tol = 7 * std::sqrt(std::max(var, expectVar) * reps) + 1;
      HV_CHECK(std::fabs(n1[i] - reps * d.want[i]) <= tol, std::string("C28/share-") + smName(m), "%s: number %d of the list (fitness %.17g) survived %.0f times in %d selections, expected %.1f +- %.1f", smName(m), i,
               d.fit[i], n1[i], reps, reps * d.want[i], tol);
    }
    if (m == SelectMethod::Tournament)  // every tournament draws anew: nobody wins in bunches
      for (int i = 0; i < N; i++) {
        const double p = d.want[i] / d.K, mean = n1[i] / reps, var = n2[i] / reps - mean * mean, bound = d.K * p * (1 - p);
        HV_CHECK(var <= 1.4 * bound + 0.05, "C28/bunches", "number %d of the list wins %.2f tournaments out of %d with variance %.3f, more than %.3f of independent ones", i, mean, d.K, var, bound);
      }
    observed(mix(mix(uint64_t(n1[0]), uint64_t(n1[size_t(N) - 1])), mix(uint64_t(N), uint64_t(d.K))));
    count("selections_drawn", uint64_t(reps));
  }
  // large populations: frequencies by rank, against the definition sampled as often
  for (int c = 0; c < scale(rt ? 1 : 3, 4); c++) {
    Draws d;
    d.m = m;
    const int N = int(rng.range(15, 160)), reps = scale(400, 2);
    d.K = int(rng.range(std::max(2, N / 5), N - 2));
    if (m == SelectMethod::Tournament) d.K = std::max(d.K, 12), d.tournament = int(rng.range(2, std::min(d.K - 1, 10 + 20 * c)));
    if (m == SelectMethod::EliteReserved) d.elites = int(rng.range(1, d.K));
    if (m == SelectMethod::LinearRank) d.worst = rng.d(0, 0.5), d.best = rng.d(d.worst + 0.1, 1);
    if (m == SelectMethod::ExponentialRank) d.base = rng.d(0.7, 0.995);
    for (int i = 0; i < N; i++) d.fit.push_back(c % 3 == 0 ? rng.d(0, 1) : c % 3 == 1 ? -std::log(rng.d(1e-9, 1)) : rng.d(-1, 1) + rng.d(-1, 1) + rng.d(-1, 1));
    const auto mm = std::minmax_element(d.fit.begin(), d.fit.end());
    d.strength = (less ? -1 : 1) * rng.d(0.3, 7) / (*mm.second - *mm.first);
    beginCase(fmt("many %s%s %s N=%d K=%d elites=%d tournament=%d linear=%g..%g base=%g strength=%g", smName(m), rt ? "(rt)" : "", less ? "less" : "greater", N, d.K, d.elites, d.tournament, d.worst, d.best, d.base,
                  d.strength));
    expectDraws(d, less, &rng, reps);
    if (!d.known) continue;
    drawPlan() = d.fit;
    heu::SOGA<Ind, fo, RecordOption::DONT_RECORD_FITNESS, sm, Ctx> s;
    drawSetup(s, d, rt);
    std::vector<int> rank(size_t(N), 0), at(size_t(N), 0), got(size_t(N), 0);
    for (int i = 0; i < N; i++) at[size_t(i)] = i;
    std::sort(at.begin(), at.end(), [&](int a, int b) { return less ? d.fit[size_t(a)] < d.fit[size_t(b)] : d.fit[size_t(a)] > d.fit[size_t(b)]; });
    for (int r = 0; r < N; r++) rank[size_t(at[size_t(r)])] = r;
    constexpr int B = 12;  // the best, ten parts, the worst
    double s1[B] = {}, s2[B] = {}, want[B] = {}, vw[B] = {};
    const auto bin = [&](int i) { return rank[size_t(i)] == 0 ? 0 : rank[size_t(i)] == N - 1 ? B - 1 : 1 + (rank[size_t(i)] - 1) * (B - 2) / (N - 2); };
    for (int i = 0; i < N; i++) want[bin(i)] += d.want[size_t(i)], vw[bin(i)] += d.want[size_t(i)] * std::max(0.0, 1 - d.want[size_t(i)]);
    for (int r = 0; r < reps; r++) {
      drawOnce(s, d.K, got);
      double a[B] = {};
      for (int i = 0; i < N; i++) a[bin(i)] += got[size_t(i)];
      for (int b = 0; b < B; b++) s1[b] += a[b], s2[b] += a[b] * a[b];
    }
    for (int b = 0; b < B; b++) {
      const double mean = s1[b] / reps, var = std::max(std::max(0.0, s2[b] / reps - mean * mean), vw[b]), tol = 7 * std::sqrt(2 * var / reps) + 3.0 / reps;
      HV_CHECK(std::fabs(mean - want[b]) <= tol, std::string("C28/many-") + smName(m), "%s: part %d of the ranking kept %.4f on average in %d selections, by definition %.4f +- %.4f", smName(m), b, mean, reps, want[b], tol);
    }
    observed(mix(uint64_t(s1[0] + 1000 * s1[5]), uint64_t(s2[5])));
    count("selections_drawn", uint64_t(reps));
  }
  // the place in the list must not decide, and populations may be large
  const bool tiesByRank = ranked && m != SelectMethod::Tournament;  // these methods have to rank equally good ones somehow
  for (int c = 0; c < 5; c++) {
    const int N = c == 3 ? 420 : int(rng.range(8, 80)), K = std::max(4, N / 2 + int(rng.range(-2, 2))), reps = scale(c == 3 ? 60 : 250, 2);
    Draws d;
    d.m = m;
    d.strength = (less ? -1 : 1) * 4.0;
    d.elites = c == 1 ? 2 : 1;
    beginCase(fmt("places %s%s %s N=%d K=%d %s", smName(m), rt ? "(rt)" : "", less ? "less" : "greater", N, K, c == 2 && !tiesByRank ? "ties" : c == 4 && m != SelectMethod::Boltzmann && !tiesByRank ? "outlier" : "distinct"));
    heu::SOGA<Ind, fo, RecordOption::DONT_RECORD_FITNESS, sm, Ctx> s;
    drawSetup(s, d, rt);
    std::vector<int> got(size_t(N), 0);
    double s1 = 0, s2 = 0, all = 0;
    for (int r = 0; r < reps; r++) {
      drawPlan().assign(size_t(N), 0);
      for (double& x : drawPlan()) x = c == 2 && !tiesByRank ? double(rng.range(0, 1)) : rng.d(0, 1);
      if (c == 4 && m != SelectMethod::Boltzmann && !tiesByRank) {  // outliers among equally good ones
        drawPlan().assign(size_t(N), 0);
        const size_t at = size_t(rng.range(0, N - 1));
        for (int k = 0; k < d.elites; k++) drawPlan()[(at + size_t(k) * size_t(N / 2)) % size_t(N)] = less ? -1e3 : 1e3;
      }
      if (m == SelectMethod::EliteReserved && c == 2) drawPlan()[size_t(rng.range(0, N - 1))] = less ? -1 : 2;
      drawOnce(s, K, got);
      double a = 0;
      for (int i = 0; i < N / 2; i++) a += got[i] - got[size_t(N - 1 - i)];
      s1 += a;
      s2 += a * a;
      for (int g : got) all += g;
    }
    HV_CHECK(all == double(K) * reps, "C28/number", "%.0f survivors in %d selections of %d", all, reps, K);
    HV_CHECK(std::fabs(s1) <= 7 * std::sqrt(s2) + 1, std::string("C28/place-") + smName(m), "%s: the first half of the list survived %.0f times more often than the second in %d selections of %d (deviation %.0f)", smName(m), s1,
             reps, K, std::sqrt(s2));
    observed(mix(uint64_t(int64_t(s1)), uint64_t(s2)));
    count("selections_drawn", uint64_t(reps));
  }
}
template <SelectMethod sm>
static void bothDraws(Rng& rng, SelectMethod m) {
  draws<FitnessOption::FITNESS_LESS_BETTER, sm>(rng, m);
  draws<FitnessOption::FITNESS_GREATER_BETTER, sm>(rng, m);
}

#define LESS FitnessOption::FITNESS_LESS_BETTER
#define GREATER FitnessOption::FITNESS_GREATER_BETTER
template <SelectMethod sm>
static void pressures(Rng& rng, SelectMethod m) {
  const bool rt = sm == SelectMethod::RunTimeSelectMethod;
  for (int shape = 0; shape < 7; shape++)
    for (int order = 0; order < 3; order++)
      for (int variant = 0; variant < 3; variant++) {
        if (rt && (shape + order + variant) % 3 && !thorough()) continue;
        // default Boltzmann strength (10) is meant for fitness values of order one
        if (shape == 4 && (m == SelectMethod::Boltzmann || m == SelectMethod::StochasticUniversal)) continue;
        if (m == SelectMethod::Boltzmann && variant == 0 && !rt && shape != 0 && shape != 2 && shape != 5) continue;
        if (m == SelectMethod::Boltzmann && shape == 5 && (variant || rt)) continue;
        if ((m == SelectMethod::MonteCarlo || m == SelectMethod::RouletteWheel || m == SelectMethod::StochasticUniversal ||
             m == SelectMethod::Truncation) && variant) continue;
        // proportional methods see a list sorted by fitness only in random order: position must not decide
        const int N = int(rng.pick(std::vector<int>{20, 30, 40, 12, 14, 64})), K = int(rng.pick(std::vector<int>{N / 2, N / 2, std::max(6, N / 4), std::max(6, N - N / 4)}));
        const int reps = scale(120, 10) * 30 / N * (m == SelectMethod::ExponentialRank && variant == 2 ? 2 : 1) + 20;
        pressure<LESS, sm>(rng, m, shape, order, variant, N, K, reps);
        pressure<GREATER, sm>(rng, m, shape, order, variant, N, K, reps);
      }
}
template <SelectMethod sm>
static void fixedMethod(Rng& rng) {
  int n = scale(600, 12);
  histories<LESS, sm, false>(rng, n);
  histories<GREATER, sm, true>(rng, n);
  checkShares();
}
#if SM_GROUP == 0
HV_PART(soga_rt) {
  histories<LESS, SelectMethod::RunTimeSelectMethod, false>(rng, scale(2500, 12));
  checkShares();
}
HV_PART(soga_rt2) {
  histories<GREATER, SelectMethod::RunTimeSelectMethod, false>(rng, scale(2500, 12));
  checkShares();
}
HV_PART(draw_rt) {
  for (SelectMethod m : ALL) bothDraws<SelectMethod::RunTimeSelectMethod>(rng, m);
}
HV_PART(press_rt) {
  for (SelectMethod m : ALL)
    if (m != SelectMethod::Probability) pressures<SelectMethod::RunTimeSelectMethod>(rng, m);
}
#else
#define PART2(m, M)                                            \
  HV_PART(soga_##m) { fixedMethod<SelectMethod::M>(rng); }    \
  PRESS(m, M)
#define DRAW(m, M) HV_PART(draw_##m) { bothDraws<SelectMethod::M>(rng, SelectMethod::M); }
#define PRESS(m, M)                                                          \
  HV_PART(press_##m) { pressures<SelectMethod::M>(rng, SelectMethod::M); }   \
  DRAW(m, M)
#if SM_GROUP == 1
PART2(roulette, RouletteWheel)
PART2(tournament, Tournament)
#elif SM_GROUP == 2
PART2(truncation, Truncation)
PART2(montecarlo, MonteCarlo)
#elif SM_GROUP == 3
HV_PART(soga_probability) { fixedMethod<SelectMethod::Probability>(rng); }
DRAW(probability, Probability)
PART2(linear, LinearRank)
#elif SM_GROUP == 4
PART2(exponential, ExponentialRank)
PART2(boltzmann, Boltzmann)
#elif SM_GROUP == 5
PART2(sus, StochasticUniversal)
PART2(elite, EliteReserved)
#endif
#endif
