// Monitors of the atomic orbital search solver (C15, and its share of C04, C05).
#include "swarm.hpp"
#include <HeuristicFlow/AOS>
using namespace hv;
using namespace heu;

#define LESS FitnessOption::FITNESS_LESS_BETTER
#define GREATER FitnessOption::FITNESS_GREATER_BETTER

template <class V>
static void fitArgs(const V* v, const SCtx* c, double* f) {
  if (c->magic != 0xFEED) elog().badArgs++;
  elog().add(hashV(*v));
  *f = sland(c->land, *v);
}
template <class V>
static void fitNoArgs(const V* v, double* f) {
  elog().add(hashV(*v));
  *f = sland(globalLand(), *v);
}

struct ATrace {
  std::vector<double> best;
  std::vector<size_t> stops;
  uint64_t sig = 0;
};

// standardized moves of one kind
struct Moves {
  double n = 0, s = 0, q = 0, nc = 0;
  // how moves along successive dimensions hang together, if each of the factors (or a whole move) were drawn once for both:
  // {pull, push, common factor, whole move}
  double dep[4] = {0, 0, 0, 0}, var[4] = {0, 0, 0, 0};
  struct One {
    double z = NAN, a = 0, b = 0, m = 0;  // all in standard deviations: how far; the pull, the push and the mean expected
  };
  void add(const One& x, const One& prev) {
    n++;
    s += x.z;
    q += x.z * x.z;
    if (prev.z == prev.z) {
      nc++;
      const double w[4] = {x.a * prev.a, x.b * prev.b, x.m * prev.m, 1};
      for (int k = 0; k < 4; k++) dep[k] += w[k] * x.z * prev.z, var[k] += w[k] * w[k];
    }
  }
  void add(const Moves& m) {
    n += m.n, s += m.s, q += m.q, nc += m.nc;
    for (int k = 0; k < 4; k++) dep[k] += m.dep[k], var[k] += m.var[k];
  }
  void check(const char* what) const {
    count((std::string("moves_measured_") + what).c_str(), uint64_t(n));
    if (n < 1000) return;
    HV_CHECK(std::fabs(s / n) < 8 / std::sqrt(n), std::string("C15/move-mean/") + what, "%.0f moves are off by %.4f standard deviations on average", n, s / n);
    HV_CHECK(std::fabs(q / n - 1) < 24 / std::sqrt(n), std::string("C15/move-spread/") + what, "variance of %.0f moves is %.4f times the expected one", n, q / n);
    static const char* const hyp[4] = {"pull", "push", "factor", "move"};
    if (nc > 500)
      for (int k = 0; k < 4; k++)
        HV_CHECK(var[k] <= 0 || std::fabs(dep[k]) < 10 * std::sqrt(var[k]), std::string("C15/move-dependent/") + what, "%.0f moves along successive dimensions depend on each other (%s: %.1f sigma)", nc, hyp[k],
                 dep[k] / std::sqrt(var[k]));
  }
};
struct MoveShares {
  double n = 0, expect = 0, var = 0, surelyJump = 0, surelyPhoton = 0;
  void add(const MoveShares& m) { n += m.n, expect += m.expect, var += m.var, surelyJump += m.surelyJump, surelyPhoton += m.surelyPhoton; }
  void check() const {
    const double tol = 8 * std::sqrt(var) + 4;
    HV_CHECK(surelyJump <= expect + tol && surelyPhoton <= n - expect + tol, "C15/move-share", "of %.0f moves %.0f were certainly jumps and %.0f certainly photon effects, expected %.0f jumps", n,
             surelyJump, surelyPhoton, expect);
    count("moves_with_mixed_rate", uint64_t(n));
  }
};
template <class Box, FitnessOption fo, RecordOption rec, class Arg>
struct MonAOS : public AOS<Box, fo, rec, Arg> {
  using Base = AOS<Box, fo, rec, Arg>;
  using V = typename Box::Var_t;
  static constexpr bool less = fo == LESS;
  static constexpr bool hasArg = !std::is_void_v<Arg>;
  ATrace tr;
  std::vector<double> lo, hi, dl;
  int rows = 1, cols = 1;
  bool bounded = true;
  std::map<const void*, uint64_t> evaluated;  // electrons evaluated so far: address -> state
  bool first = true;
  double prevBest = 0;
  size_t recBefore = 0;
  uint64_t photonMoves = 0, jumps = 0;
  Moves pl, pm, jm;  // photon effects of electrons below / not below their layer's energy, jumps
  MoveShares shares;
  double layersN = 0, layersSum = 0, layersExpect = 0, layersVar = 0;
  bool better(double a, double b) const { return less ? a < b : a > b; }
  // a random number of shells (at most maxLayerNum), filled by a Gaussian curve; rounding may go either way
  Starts starts;
  size_t lastKept = 0, startN = 0;
  void checkShells() {
    const size_t n = this->electrons().size(), top = this->option().maxLayerNum;
    const auto& L = this->layers();
    bool fits = false;
    double m1 = 0, m2 = 0;
    for (size_t shells = 1; shells <= top; shells++) {
      std::vector<double> w(shells);
      double sum = 0;
      for (size_t k = 0; k < shells; k++) sum += w[k] = std::exp(-0.5 * std::pow((double(k) + 1) / (double(shells) / 6), 2));
      size_t filled = 0, used = 0;
      std::vector<size_t> rounded;  // shells that hold anybody when each is rounded for itself, the last takes the rest
      for (size_t k = 0; k < shells && used < n; k++) {
        const size_t here = k + 1 == shells ? n - used : std::min(n - used, size_t(std::round(w[k] / sum * double(n))));
        used += here;
        filled += here > 0;
        if (here) rounded.push_back(here);
      }
      m1 += double(filled) / double(top);
      m2 += double(filled * filled) / double(top);
      double want = 0, have = 0;
      bool ok = L.size() <= shells;
      for (size_t k = 0; ok && k < L.size(); k++) {
        want += w[k] / sum * double(n);
        have += double(L[k].size());
        ok = std::fabs(want - have) <= 0.5 * double(k + 1) + 1;
      }
      bool same = rounded.size() == L.size();
      for (size_t k = 0; same && k < L.size(); k++) same = rounded[k] == L[k].size();
      fits = fits || ok || same;
    }
    if (!fits) {
      std::string sizes;
      for (auto& l : L) sizes += fmt(" %zu", l.size());
      violation("C15/layer-sizes", fmt("layers of%s electrons follow no Gaussian curve over at most %zu shells", sizes.c_str(), top));
    }
    if (!eng::hostileRun()) {
      layersN++;
      layersSum += double(L.size());
      layersExpect += m1;
      layersVar += m2 - m1 * m1;
    }
  }
  double val(const V& v) const {
    if constexpr (hasArg)
      return sland(this->arg().land, v);
    else
      return sland(globalLand(), v);
  }
  void checkBox(const char* when) {
    for (auto& e : this->electrons()) {
      if (!shapeIs(e.state, rows, cols)) {
        violation("C15/shape", fmt("a state of the wrong shape %s", when));
        return;
      }
      for (size_t d = 0; d < lo.size(); d++) {
        const double x = vget(e.state, d);
        HV_CHECK(x >= lo[d] && x <= hi[d], "C15/range", "state[%zu]=%.17g outside [%.17g,%.17g] %s", d, x, lo[d], hi[d], when);
      }
    }
  }
  void initAndCheck() {
    elog().clear();
    this->initializePop();
    HV_CHECK(elog().n == 0, "C05/aos-init-eval", "%u evaluations during initialization", unsigned(elog().n));
    HV_CHECK(this->electrons().size() == this->option().electronNum, "C15/init-size", "%zu electrons, configured %zu", this->electrons().size(), this->option().electronNum);
    HV_CHECK(this->generation() == 0 && this->earlyStopCounter() == 0, "C04/aos-init-counters", "counters not reset");
    if constexpr (rec == RecordOption::RECORD_FITNESS) HV_CHECK(this->record().empty(), "C04/aos-init-record", "record not emptied");
    checkBox("after initialization");
    if (!eng::hostileRun())
      for (auto& e : this->electrons()) {
        std::vector<double> z;
        for (size_t d = 0; d < lo.size(); d++) {
          if constexpr (requires { this->sigma(); })
            z.push_back((vget(e.state, d) - this->mu()) / this->sigma());
          else
            z.push_back((vget(e.state, d) - (lo[d] + hi[d]) / 2) / ((hi[d] - lo[d]) / std::sqrt(12.0)));
        }
        starts.add(z);
      }
    std::set<const void*> born;
    for (auto& e : this->electrons()) born.insert(&e);
    for (auto& l : this->layers())
      for (auto* e : l) HV_CHECK(born.count(e), "C15/layer-dead", "after initialization a layer holds an electron of the last run");
    evaluated.clear();
    first = true;
    tr = ATrace();
  }
  void __impl_computeFitness() {
    std::vector<uint64_t> states;
    std::map<uint64_t, int> want;
    std::map<const void*, uint64_t> now;
    for (auto& e : this->electrons()) {
      const uint64_t h = hashV(e.state);
      states.push_back(h);
      now[&e] = h;
      auto it = evaluated.find(&e);
      if (it == evaluated.end() || it->second != h) want[h]++;
    }
    elog().clear();
    Base::__impl_computeFitness();
    auto bag = elog().bag();
    HV_CHECK(bag == want, "C05/aos-count", "%zu new electrons but %u evaluations of %zu states", size_t(want.size()), unsigned(elog().n), bag.size());
    size_t i = 0;
    for (auto& e : this->electrons()) {
      HV_CHECK(i < states.size() && hashV(e.state) == states[i], "C05/aos-moved", "evaluation moved an electron");
      HV_CHECK(same(e.energy, val(e.state)), "C05/aos-stale", "energy %.17g, state has %.17g", e.energy, val(e.state));
      i++;
    }
    evaluated = now;
    count("evaluations_of_fitness", elog().n);
  }
  void __impl_computeAtomBSBELE() {
    const size_t prevStop = this->earlyStopCounter();
    const double frontEnergy = this->electrons().front().energy;
    Base::__impl_computeAtomBSBELE();
    std::vector<double> mean(lo.size(), 0), mag(lo.size(), 0);
    double me = 0, mage = 0, best = this->electrons().front().energy;
    for (auto& e : this->electrons()) {
      for (size_t d = 0; d < lo.size(); d++) mean[d] += vget(e.state, d), mag[d] += std::fabs(vget(e.state, d));
      me += e.energy;
      mage += std::fabs(e.energy);
      if (better(e.energy, best)) best = e.energy;
    }
    const double n = double(this->electrons().size());
    for (size_t d = 0; d < lo.size(); d++)
      HV_CHECK(std::fabs(vget(this->bindingState(), d) - mean[d] / n) <= 1e-11 * mag[d] / n + 1e-300, "C15/atom-state", "binding state[%zu] %.17g, mean %.17g", d,
               vget(this->bindingState(), d), mean[d] / n);
    HV_CHECK(!std::isfinite(mage) || std::fabs(this->bindingEnergy() - me / n) <= 1e-11 * mage / n, "C15/atom-energy", "binding energy %.17g, mean %.17g", this->bindingEnergy(), me / n);
    liveBest(best, "when the atom is evaluated");
    if (first) {
      // nothing to compare with yet: the library compares with its first electron
      const size_t s = this->earlyStopCounter();
      HV_CHECK(s == 0 || (s == 1 && same(frontEnergy, best)), "C04/aos-first-stop-counter", "early-stop counter %zu after the first evaluation", s);
    } else {
      HV_CHECK(!better(prevBest, best), "C15/best-worse", "best energy went from %.17g to %.17g", prevBest, best);
      const size_t want = same(best, prevBest) ? prevStop + 1 : 0;
      HV_CHECK(this->earlyStopCounter() == want, "C04/aos-stop-counter", "early-stop counter %zu, expected %zu", this->earlyStopCounter(), want);
    }
    first = false;
    prevBest = best;
    tr.best.push_back(best);
    tr.stops.push_back(this->earlyStopCounter());
    tr.sig = mix(tr.sig, bits(best));
    count("atoms_checked");
  }
  void liveBest(double best, const char* when) {
    bool live = false;
    for (auto& e : this->electrons()) live = live || &e == &this->bestElectron();
    if (!live) {
      violation("C15/best-dead", fmt("the best electron is not a living one %s", when));
      return;
    }
    HV_CHECK(same(this->bestElectron().energy, best), "C15/best", "best electron has %.17g, the best is %.17g %s", this->bestElectron().energy, best, when);
  }
  void __impl_recordFitness() {
    if constexpr (rec == RecordOption::RECORD_FITNESS) {
      Base::__impl_recordFitness();
    }
  }
  void __impl_selectAndMakeLayers() {
    std::map<std::pair<uint64_t, uint64_t>, int> bag;
    std::vector<double> en;
    for (auto& e : this->electrons()) {
      bag[{hashV(e.state), bits(e.energy)}]++;
      en.push_back(e.energy);
    }
    Base::__impl_selectAndMakeLayers();
    const size_t K = this->option().electronNum, N = en.size();
    const size_t from = lastKept == 0 ? startN : 2 * lastKept;  // every survivor made one new electron
    HV_CHECK(N == from, "C15/candidates", "selection from %zu candidates, expected %zu", N, from);
    lastKept = this->electrons().size();
    std::sort(en.begin(), en.end(), [&](double a, double b) { return better(a, b); });
    HV_CHECK(this->electrons().size() == std::min(K, N), "C15/size", "%zu of %zu candidates survive, configured %zu", this->electrons().size(), N, K);
    std::vector<double> kept;
    std::map<const void*, int> where;
    for (auto& e : this->electrons()) {
      if (--bag[{hashV(e.state), bits(e.energy)}] < 0) violation("C15/foreign", "a survivor was no candidate");
      kept.push_back(e.energy);
      where[&e] = 0;
    }
    std::sort(kept.begin(), kept.end(), [&](double a, double b) { return better(a, b); });
    for (size_t i = 0; i < kept.size() && i < en.size(); i++)
      if (!same(kept[i], en[i])) {
        violation("C15/not-best", fmt("survivor %zu has %.17g, candidate %zu has %.17g", i, kept[i], i, en[i]));
        break;
      }
    if (!kept.empty()) liveBest(kept[0], "after selection");
    const auto& L = this->layers();
    HV_CHECK(!L.empty() && L.size() <= this->option().maxLayerNum, "C15/layer-count", "%zu layers, limit %zu", L.size(), this->option().maxLayerNum);
    size_t total = 0;
    bool havePrev = false;
    double worst = 0;
    for (auto& l : L) {
      HV_CHECK(!l.empty(), "C15/empty-layer", "a layer of %zu is empty", L.size());
      double lw = 0, lb = 0;
      bool any = false;
      for (auto* p : l) {
        total++;
        auto it = where.find(p);
        if (it == where.end()) {
          violation("C15/layer-dead", "a layer holds an electron that does not live");
          continue;
        }
        HV_CHECK(++it->second == 1, "C15/layer-twice", "an electron is in %d layers", it->second);
        if (!any || better(p->energy, lb)) lb = p->energy;
        if (!any || better(lw, p->energy)) lw = p->energy;
        any = true;
      }
      if (any) {
        HV_CHECK(!havePrev || !better(lb, worst), "C15/layer-order", "an outer layer holds %.17g, better than %.17g of an inner one", lb, worst);
        worst = lw;
        havePrev = true;
      }
    }
    HV_CHECK(total == this->electrons().size(), "C15/layer-total", "%zu electrons in layers, %zu living", total, this->electrons().size());
    if (total == this->electrons().size() && !L.empty()) checkShells();
    count("layers_checked", L.size());
    tr.sig = mix(tr.sig, L.size());
  }
  void __impl_computeLayerBSBELE() {
    Base::__impl_computeLayerBSBELE();
    checkLayers();
  }
  void checkLayers() {
    for (auto& l : this->layers()) {
      HV_CHECK(size_t(l.bindingState.size()) == lo.size(), "C15/layer-state", "the binding state of a layer has %zu elements instead of %zu", size_t(l.bindingState.size()), lo.size());
      if (size_t(l.bindingState.size()) != lo.size()) continue;
      if (l.empty()) continue;
      std::vector<double> mean(lo.size(), 0), mag(lo.size(), 0);
      double me = 0, mage = 0, best = l[0]->energy;
      for (auto* e : l) {
        for (size_t d = 0; d < lo.size(); d++) mean[d] += vget(e->state, d), mag[d] += std::fabs(vget(e->state, d));
        me += e->energy;
        mage += std::fabs(e->energy);
        if (better(e->energy, best)) best = e->energy;
      }
      const double n = double(l.size());
      for (size_t d = 0; d < lo.size(); d++)
        HV_CHECK(std::fabs(vget(l.bindingState, d) - mean[d] / n) <= 1e-11 * mag[d] / n + 1e-300, "C15/layer-state", "layer binding state[%zu] %.17g, mean %.17g", d,
                 vget(l.bindingState, d), mean[d] / n);
      HV_CHECK(!std::isfinite(mage) || std::fabs(l.bindingEnergy - me / n) <= 1e-11 * mage / n, "C15/layer-energy", "layer binding energy %.17g, mean %.17g of %zu", l.bindingEnergy, me / n, l.size());
      HV_CHECK(l.layerBestIdx >= 0 && size_t(l.layerBestIdx) < l.size() && same(l.layerBestEnergy(), best), "C15/layer-best", "layer best is %.17g, the best is %.17g",
               l.layerBestEnergy(), best);
      HV_CHECK(same(val(l.layerBestState()), best), "C15/layer-best", "state of the layer best is not the best state");
    }
  }
  template <class this_t>
  void __impl_updateElectrons() {
    std::vector<std::pair<uint64_t, uint64_t>> before;
    struct Parent {
      std::vector<double> x, lbest, lbind;
      double energy, lenergy;
      size_t layer;
    };
    std::vector<Parent> parents;
    for (auto& e : this->electrons()) before.push_back({hashV(e.state), bits(e.energy)});
    for (size_t k = 0; k < this->layers().size(); k++)
      for (auto* p : this->layers()[k])
        parents.push_back({tovec(p->state), tovec(this->layers()[k].layerBestState()), tovec(this->layers()[k].bindingState), p->energy, this->layers()[k].bindingEnergy, k});
    const std::vector<double> abest = tovec(this->bestElectron().state), abind = tovec(this->bindingState());
    Base::template __impl_updateElectrons<this_t>();
    size_t i = 0;
    std::vector<std::vector<double>> kids;
    for (auto& e : this->electrons()) {
      if (i < before.size())
        HV_CHECK(hashV(e.state) == before[i].first && bits(e.energy) == before[i].second, "C15/parent-changed", "an electron was changed by the creation of new ones");
      else
        kids.push_back(tovec(e.state));
      i++;
    }
    HV_CHECK(kids.size() == parents.size(), "C15/children", "%zu electrons made %zu new ones", parents.size(), kids.size());
    checkBox("after the moves");
    auto interval = [](double p, double a, double b, double k, double& l, double& h) {  // p + alpha*(beta*a-gamma*b)/k
      l = std::min({0.0, a, -b, a - b}) / k;
      h = std::max({0.0, a, -b, a - b}) / k;
      l += p;
      h += p;
    };
    for (size_t c = 0; c < std::min(kids.size(), parents.size()); c++) {
      const Parent& p = parents[c];
      bool photon = true, jump = true;
      const bool lower = better(p.energy, p.lenergy), tied = std::fabs(p.energy - p.lenergy) <= 1e-9 * std::fabs(p.energy) + 1e-300;
      for (size_t d = 0; d < lo.size(); d++) {
        auto inside = [&](double l, double h) {
          const double eps = 1e-9 * (std::fabs(l) + std::fabs(h)) + 1e-12, x = kids[c][d];
          if (x >= l - eps && x <= h + eps) return true;
          return (x == lo[d] && l < x) || (x == hi[d] && h > x);
        };
        double l1, h1, l2, h2;
        interval(p.x[d], p.lbest[d], p.lbind[d], 1, l1, h1);
        interval(p.x[d], abest[d], abind[d], double(p.layer + 1), l2, h2);
        if (!(lower || tied ? inside(l1, h1) : false) && !(!lower || tied ? inside(l2, h2) : false)) photon = false;
        if (!inside(p.x[d] - dl[d], p.x[d] + dl[d])) jump = false;
      }
      const double rate = this->option().photonRate;
      if (rate <= 0) HV_CHECK(photon, "C15/photon-move", "a new electron moved further from its parent than the photon effect allows (layer %zu)", p.layer);
      else if (rate >= 1) HV_CHECK(jump, "C15/jump-move", "a new electron moved further than delta from its parent");
      else HV_CHECK(photon || jump, "C15/any-move", "a new electron fits neither the photon effect nor a local jump");
      photonMoves += photon;
      jumps += jump;
      if (eng::hostileRun()) continue;
      if (rate > 0 && rate < 1) {
        shares.n++;
        shares.expect += rate;
        shares.var += rate * (1 - rate);
        shares.surelyJump += !photon;
        shares.surelyPhoton += !jump;
        continue;
      }
      // how far it went, in units of what is expected (only where no limit of the box could have cut a move)
      Moves::One last;
      for (size_t d = 0; d < lo.size(); d++) {
        double sd = dl[d] / std::sqrt(3.0), l = p.x[d] - dl[d], h = p.x[d] + dl[d], a = 0, b = 0, mean = 0;
        if (rate <= 0) {
          if (tied) break;
          const double k = lower ? 1 : double(p.layer + 1);
          a = (lower ? p.lbest[d] : abest[d]) / k;
          b = (lower ? p.lbind[d] : abind[d]) / k;
          interval(p.x[d], a, b, 1, l, h);
          mean = (a - b) / 4;
          sd = std::sqrt(std::max(0.0, ((a * a + b * b) / 3 - a * b / 2) / 3 - mean * mean));
        }
        const Moves::One gap = last;
        last = Moves::One();
        if (l <= lo[d] || h >= hi[d] || sd < 1e-6 * (std::fabs(p.x[d]) + std::fabs(l) + std::fabs(h))) continue;
        last = Moves::One{(kids[c][d] - p.x[d] - mean) / sd, a / sd, b / sd, mean / sd};
        (rate > 0 ? jm : lower ? pl : pm).add(last, gap);
      }
    }
    count("new_electrons", kids.size());
  }
  void run() {
    const size_t gen0 = this->generation(), rec0 = recSize();
    tr = ATrace();
    lastKept = 0;
    startN = this->electrons().size();
    this->template __impl_run<MonAOS>();
    const size_t S = tr.best.size();
    const auto& o = this->option();
    HV_CHECK(S > 0 && this->generation() == gen0 + S - 1, "C04/aos-generation-count", "%zu evaluations from generation %zu but generation()==%zu", S, gen0, this->generation());
    for (size_t i = 0; i < S; i++) {
      const bool stop = gen0 + i >= o.maxGeneration || tr.stops[i] >= o.maxEarlyStop;
      HV_CHECK(stop == (i + 1 == S), "C04/aos-stop", "generation %zu of %zu, early-stop counter %zu of %zu, but %s", gen0 + i, o.maxGeneration, tr.stops[i], o.maxEarlyStop,
               stop ? "went on" : "stopped");
    }
    if constexpr (rec == RecordOption::RECORD_FITNESS) {
      HV_CHECK(this->record().size() == rec0 + S, "C04/aos-record-size", "%zu entries, expected %zu", this->record().size(), rec0 + S);
      for (size_t i = 0; i < S && rec0 + i < this->record().size(); i++)
        HV_CHECK(same(this->record()[rec0 + i], tr.best[i]), "C04/aos-record", "entry %zu is %.17g, best was %.17g", rec0 + i, this->record()[rec0 + i], tr.best[i]);
      if (!this->record().empty())
        HV_CHECK(same(this->record().back(), this->bestElectron().energy), "C04/aos-record-last", "last entry %.17g, best %.17g", this->record().back(), this->bestElectron().energy);
    }
    checkBox("after the run");
    checkLayers();
    HV_CHECK(!this->layers().empty(), "C15/layer-count", "no layers after a run");
    count("final_layers_checked", this->layers().size());
    HV_CHECK(elog().badArgs == 0, "C05/aos-args", "fitness function got wrong args");
    observed(mix(tr.sig, S));
  }
  size_t recSize() const {
    if constexpr (rec == RecordOption::RECORD_FITNESS) return this->record().size();
    return 0;
  }
};

template <class Opt>
static void unreachableLimit(Opt& o, Rng& rng) {
  const size_t l = rng.pick(std::vector<size_t>{size_t(1) << 40, size_t(1e15), ~size_t(0) - 1});
  if constexpr (requires { o.maxGenerations; }) o.maxGenerations = l;
  else o.maxGeneration = l;
}
template <bool bounded>
static AOSOption randomOpt(Rng& rng) {
  AOSOption o;
  o.electronNum = size_t(rng.coin(0.15) ? 1 : rng.coin(0.06) ? rng.range(25, 90) : rng.range(2, 20));
  o.maxLayerNum = size_t(rng.coin(0.3) ? int64_t(o.electronNum) : rng.range(1, int64_t(o.electronNum)));
  o.maxGeneration = size_t(rng.coin(0.08) ? 0 : rng.range(1, 14));
  static const std::vector<size_t> mf{1, 2, 3, 6, 50, 50};
  o.maxEarlyStop = rng.pick(mf);
  if (bounded && o.maxEarlyStop >= 1 && o.maxEarlyStop <= 2 && rng.coin(0.1)) {
    unreachableLimit(o, rng);
    count("runs_with_unreachable_generation_limit");
  }
  static const std::vector<double> pr{0.1, 0, 1, 0.5, 0, 1};
  o.photonRate = rng.pick(pr);
  static int drawn = 0;
  if (++drawn % 300 == 5) {
    o.electronNum = size_t(rng.pick(std::vector<int>{257, 300, 513, 1030}) + rng.range(0, 9));
    o.maxLayerNum = size_t(rng.coin(0.3) ? int64_t(o.electronNum) : rng.range(1, 20));
    o.maxGeneration = size_t(rng.range(1, 4));
    count("runs_with_hundreds_of_electrons");
  } else if (drawn % 300 == 11) {
    o.electronNum = size_t(rng.range(2, 8));
    o.maxLayerNum = size_t(rng.range(1, int64_t(o.electronNum)));
    o.maxGeneration = size_t(bounded ? rng.range(130, 300) : rng.range(30, 40));
    o.maxEarlyStop = 270;
    count("runs_with_hundreds_of_generations");
  }
  return o;
}

template <class M>
static void configureBox(M& m, Rng& rng) {
  using V = typename M::V;
  if constexpr (!VTraits<V>::fixed) {
    if constexpr (VTraits<V>::mat) {
      m.rows = V::RowsAtCompileTime > 0 ? int(V::RowsAtCompileTime) : int(rng.range(1, 4));
      m.cols = V::ColsAtCompileTime > 0 ? int(V::ColsAtCompileTime) : int(rng.range(1, 4));
      m.setDimensions(m.rows, m.cols);
    } else {
      m.rows = int(VTraits<V>::roomy && rng.coin(0.02) ? rng.range(33, 140) : rng.range(1, 6));
      m.cols = 1;
      m.setDimensions(m.rows);
    }
  } else {
    V v{};
    m.rows = int(v.size());
    m.cols = 1;
    if constexpr (VTraits<V>::mat) {
      m.rows = int(v.rows());
      m.cols = int(v.cols());
    }
  }
  const size_t D = size_t(m.rows * m.cols);
  m.lo.assign(D, -INFINITY);
  m.hi.assign(D, INFINITY);
  m.dl.assign(D, 0);
  constexpr bool gauss = requires { m.setMu(0.0); };
  constexpr bool fixedRange = !gauss && !requires { m.setRange(0.0, 1.0); } && M::Shape == BoxShape::SQUARE_BOX;
  constexpr bool square = M::Shape == BoxShape::SQUARE_BOX;
  V a = makeVar<V>(m.rows, m.cols), b = makeVar<V>(m.rows, m.cols), c = makeVar<V>(m.rows, m.cols);
  for (size_t d = 0; d < D; d++) {
    if (d == 0 || !square) {
      if (!gauss) {
        m.lo[d] = rng.coin(0.2) ? -1e-3 : rng.d(-5, 1);
        m.hi[d] = m.lo[d] + (rng.coin(0.1) ? 1e-3 : rng.d(0.1, 6));
      }
      m.dl[d] = rng.d(0.01, 1.5);
      if constexpr (fixedRange) {
        m.lo[d] = m.min(0);
        m.hi[d] = m.max(0);
        m.dl[d] = m.delta(0);
      }
    } else {
      m.lo[d] = m.lo[0];
      m.hi[d] = m.hi[0];
      m.dl[d] = m.dl[0];
    }
    a.data()[d] = m.lo[d];
    b.data()[d] = m.hi[d];
    c.data()[d] = m.dl[d];
  }
  if constexpr (gauss) {
    m.setMu(rng.d(-2, 2));
    m.setSigma(rng.d(0.1, 3));
    m.setDelta(m.dl[0]);
  } else if constexpr (fixedRange) {
  } else if constexpr (square) {
    m.setRange(m.lo[0], m.hi[0]);
    m.setDelta(m.dl[0]);
  } else {
    m.setRange(a, b);
    m.setDelta(c);
  }
}

template <class Box, FitnessOption fo, RecordOption rec, bool args>
static void histories(Rng& rng, int n) {
  using Arg = std::conditional_t<args, SCtx, void>;
  using V = typename Box::Var_t;
  Moves pl, pm, jm;  // photon effects of electrons below / not below their layer's energy, jumps
  MoveShares shares;
  Starts allStarts;
  double layers[4] = {0, 0, 0, 0};
  for (int it = 0; it < n; it++) {
    eng::start(heu::internal::global_mt19937(), rng);
    std::srand(unsigned(rng.next()));
    MonAOS<Box, fo, rec, Arg> m;
    const int land = int(rng.range(0, NSLAND - 1));
    elog().badArgs = 0;
    globalLand() = land;
    constexpr bool bounded = !requires { m.setMu(0.0); };  // an unbounded box and an unbounded landscape have no end
    AOSOption o = randomOpt<bounded>(rng);
    beginCase(fmt("AOS %s %s %s%s land=%s electrons=%zu layers=%zu gens=%zu stop=%zu photon=%g case=%d", VTraits<V>::name, Box::Shape == BoxShape::SQUARE_BOX ? "square" : "rect",
                  fo == LESS ? "less" : "greater", args ? " args" : "", slandName(land), o.electronNum, o.maxLayerNum, o.maxGeneration, o.maxEarlyStop, o.photonRate, it));
    if constexpr (args) {
      SCtx c;
      c.land = land;
      m.setArg(c);
      m.setfFun(&fitArgs<V>);
    } else
      m.setfFun(&fitNoArgs<V>);
    configureBox(m, rng);
    HV_CHECK(m.generation() == 0 && m.earlyStopCounter() == 0, "C04/fresh-counters", "a new solver reports progress");
    m.setOption(o);
    m.initAndCheck();
    m.run();
    const int more = int(rng.range(0, 2));
    for (int k = 0; k < more; k++) {
      AOSOption p = randomOpt<bounded>(rng);
      const int act = int(rng.range(0, 4));
      if (act == 0) {
      } else if (act == 1) {  // go on with other limits
        p.electronNum = m.option().electronNum;
        p.maxLayerNum = m.option().maxLayerNum;
        p.maxGeneration = m.generation() + size_t(rng.range(0, 6));
        m.setOption(p);
      } else if (act == 2) {
        m.setOption(p);
        m.initAndCheck();
      } else if (act == 3) {
        configureBox(m, rng);
        m.setOption(p);
        m.initAndCheck();
      } else {  // another number of electrons for the living atom
        p.maxGeneration = m.generation() + size_t(rng.range(0, 6));
        m.setOption(p);
      }
      m.run();
    }
    count("photon_moves", m.photonMoves);
    count("local_jumps", m.jumps);
    pl.add(m.pl);
    pm.add(m.pm);
    jm.add(m.jm);
    allStarts.add(m.starts);
    shares.add(m.shares);
    layers[0] += m.layersN, layers[1] += m.layersSum, layers[2] += m.layersExpect, layers[3] += m.layersVar;
  }
  allStarts.check("C15");
  pl.check("photon-lower");
  pm.check("photon-upper");
  jm.check("jump");
  shares.check();
  HV_CHECK(std::fabs(layers[1] - layers[2]) <= 8 * std::sqrt(layers[3]) + 0.02 * layers[0], "C15/layer-share", "%.0f selections made %.0f layers, expected %.0f +- %.0f", layers[0], layers[1], layers[2],
           std::sqrt(layers[3]));
}

// every number of shells up to the limit is used, each as often
template <class Box, FitnessOption fo>
static void shells(Rng& rng, int n) {
  for (size_t top : {1, 2, 3, 4, 6, 9, 14}) {
    const size_t K = top + size_t(rng.range(6, 30));
    std::map<size_t, double> want, have;
    bool clear = true;
    for (size_t s = 1; s <= top; s++) {
      std::vector<double> w(s);
      double sum = 0;
      for (size_t k = 0; k < s; k++) sum += w[k] = std::exp(-0.5 * std::pow((double(k) + 1) / (double(s) / 6), 2));
      size_t filled = 0, used = 0;
      for (size_t k = 0; k < s && used < K; k++) {
        const double x = w[k] / sum * double(K);
        clear = clear && std::fabs(x - std::floor(x) - 0.5) > 1e-6;
        const size_t here = k + 1 == s ? K - used : std::min(K - used, size_t(std::round(x)));
        used += here;
        filled += here > 0;
      }
      want[filled] += 1.0 / double(top);
    }
    if (!clear) continue;
    AOS<Box, fo, RecordOption::DONT_RECORD_FITNESS> m;
    AOSOption o;
    o.electronNum = K;
    o.maxLayerNum = top;
    o.maxGeneration = 0;  // every run makes one selection
    beginCase(fmt("AOS shells: %zu electrons, at most %zu shells", K, top));
    globalLand() = 0;
    m.setfFun(&fitNoArgs<typename Box::Var_t>);
    m.setRange(-2, 3);
    m.setDelta(0.5);
    m.setOption(o);
    m.initializePop();
    for (int i = 0; i < n; i++) {
      elog().clear();
      m.run();
      have[m.layers().size()]++;
    }
    for (auto& h : have) HV_CHECK(want.count(h.first), "C15/layer-share", "%zu layers from %zu electrons, which no number of shells up to %zu gives", h.first, K, top);
    for (auto& w : want)
      HV_CHECK(std::fabs(have[w.first] - w.second * n) <= 7 * std::sqrt(n * w.second * (1 - w.second)) + 1, "C15/layer-share", "%zu layers in %.0f of %d selections, expected %.1f", w.first,
               have[w.first], n, w.second * n);
    observed(mix(K, mix(top, uint64_t(have[1]))));
    count("shell_numbers_drawn", uint64_t(n));
  }
}

#define SQB(V) ContinousBox<V, BoxShape::SQUARE_BOX>
#define RCB(V) ContinousBox<V, BoxShape::RECTANGLE_BOX>
#define REC RecordOption::RECORD_FITNESS
#define NOREC RecordOption::DONT_RECORD_FITNESS
using AR = Eigen::Array<double, 1, Eigen::Dynamic>;  // containers that are used less often
using AR4 = Eigen::Array<double, 1, 4>;
using AXXr = Eigen::Array<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
using AX3 = Eigen::Array<double, Eigen::Dynamic, 3>;
using A23r = Eigen::Array<double, 2, 3, Eigen::RowMajor>;
using AX8 = Eigen::Array<double, Eigen::Dynamic, 1, 0, 8, 1>;
using A3 = Eigen::Array<double, 4, 1>;
using AX = Eigen::ArrayXd;
using AXX = Eigen::ArrayXXd;
using A23 = Eigen::Array<double, 2, 3>;
using S3 = std::array<double, 3>;
using SV = std::vector<double>;
#if AO_GROUP == 0
HV_PART(aos_shells) { shells<SQB(A3), LESS>(rng, scale(2000)); }
HV_PART(aos_eigen_fixed) {
  const int n = scale(250);
  histories<SQB(A3), LESS, REC, true>(rng, n);
  histories<RCB(A3), GREATER, REC, false>(rng, n);
  histories<RCB(A23), LESS, NOREC, true>(rng, n / 2);
}
#elif AO_GROUP == 1
HV_PART(aos_eigen_dynamic) {
  const int n = scale(250);
  histories<SQB(AX), GREATER, REC, true>(rng, n);
  histories<RCB(AX), LESS, REC, false>(rng, n);
  histories<SQB(AXX), GREATER, REC, false>(rng, n / 2);
  histories<GaussianBox<AX>, LESS, REC, true>(rng, n / 2);
}
#elif AO_GROUP == 2
HV_PART(aos_shells_std) { shells<SQB(S3), GREATER>(rng, scale(2000)); }
HV_PART(aos_std) {
  const int n = scale(250);
  histories<SQB(S3), LESS, REC, true>(rng, n);
  histories<RCB(S3), GREATER, REC, false>(rng, n);
  histories<RCB(SV), LESS, REC, true>(rng, n);
  histories<SQB(SV), GREATER, NOREC, false>(rng, n);
}
#elif AO_GROUP == 3
HV_PART(aos_rows) {
  const int n = scale(120);
  histories<SQB(AR), LESS, REC, true>(rng, n);
  histories<RCB(AR), GREATER, REC, false>(rng, n);
  histories<RCB(AR4), LESS, NOREC, false>(rng, n);
  histories<RCB(AX8), GREATER, REC, true>(rng, n);
}
HV_PART(aos_shapes) {
  const int n = scale(120);
  histories<RCB(AXXr), LESS, REC, true>(rng, n);
  histories<RCB(AX3), GREATER, REC, false>(rng, n);
  histories<SQB(A23r), LESS, NOREC, true>(rng, n);
  histories<GaussianBox<AXX>, GREATER, REC, false>(rng, n);
}
#elif AO_GROUP == 4
HV_PART(aos_boxes) {
  const int n = scale(120);
  using heu::DivEncode;
  histories<GaussianBox<S3>, GREATER, REC, false>(rng, n);
  histories<GaussianBox<SV>, LESS, REC, true>(rng, n);
  histories<FixedContinousBox17<A3, encode(-2.5), encode(1.75), encode(0.375)>, LESS, REC, false>(rng, n);
  histories<FixedContinousBox17<SV, encode(-2.5), encode(1.75), encode(0.375)>, GREATER, REC, true>(rng, n);
  histories<FixedContinousBox17<AXX, encode(-1.0), encode(4.0), encode(0.5)>, LESS, NOREC, true>(rng, n);
}
#endif
