// Monitor for NSGA2 and NSGA3: C04, C05, C07, C09, C10, C11, C12.
// MO_GROUP selects the instantiations of this translation unit.
#include "gamon.hpp"
using namespace hv;
using heu::FitnessOption;
using heu::GAOption;
using heu::RecordOption;

constexpr int NMO = 15;
static const char* moName(int l) {
  static const char* n[] = {"convex",   "linear", "one-constant", "identical-objectives", "rounded",   "scaled",    "negative",
                            "constant", "sphere", "floor",        "knee",                 "duplicates", "pair-ties", "penalty", "colossal"};
  return n[l % NMO];
}
// pure function of the decision variable
static void moLandscape(int land, const std::array<double, DIM>& x, int M, double* f) {
  for (int j = 0; j < M; j++) {
    double c[DIM];
    for (int i = 0; i < DIM; i++) c[i] = std::sin(1.7 * j + 2.3 * i + 0.5);
    double s = 0;
    for (int i = 0; i < DIM; i++) s += (x[i] - c[i]) * (x[i] - c[i]);
    switch (land % NMO) {
      case 0: f[j] = s; break;
      case 1: f[j] = (j + 1 < M) ? x[j % DIM] + 0.1 * j * x[(j + 1) % DIM] : -x[0] - x[1] - x[2]; break;
      case 2: f[j] = j == M - 1 ? 3.0 : s; break;
      case 3: f[j] = x[0] * x[0] + x[1]; break;
      case 4: f[j] = std::round(s * 0.5); break;
      case 5: f[j] = s * std::pow(10.0, 5 * (j % 3) - 5); break;
      case 6: f[j] = s - 50 * (j + 1); break;
      case 7: f[j] = 1.5; break;
      case 8: {
        double g = 1 + 0.2 * x[2] * x[2], a = (x[0] + 2) / 4 * 1.5707963267948966, b = (x[1] + 2) / 4 * 1.5707963267948966;
        f[j] = j == 0 ? g * std::cos(a) * std::cos(b) : j == 1 ? g * std::cos(a) * std::sin(b) : j == 2 ? g * std::sin(a) : g * std::sin(a + 0.1 * j);
        break;
      }
      case 9: f[j] = std::floor(x[j % DIM] * 2) + (j == 0 ? 0.001 * x[1] : 0); break;
      case 10: f[j] = std::exp(-s) * (j % 2 ? 1 : -1) + 0.01 * s; break;
      case 11: f[j] = std::floor(s); break;
      case 12: f[j] = j == 0 ? std::round(x[0] * 3) : s; break;
      case 13: f[j] = x[2] > 1 ? INFINITY : (x[2] < -1.7 && j == 0 ? -INFINITY : s); break;
      default: f[j] = 1.7e308 * std::tanh((j % 2 ? 1 : -1) * (x[0] - c[0]) + x[1] * c[1]); break;
    }
  }
}

template <class F>
static void fFunMO(const Ind* v, const Ctx* c, F* f) {
  noteEval(v, c);
  if (f->size() != c->objs) {
    reg().badArgs++;
    return;
  }
  moLandscape(c->land, v->x, c->objs, f->data());
}

struct Rec {
  const void* g;
  uint32_t id;
  uint64_t xh;
  std::vector<double> f;
  size_t dom = 0;
  bool kept = false;
};
struct MOTrace {
  std::vector<std::vector<double>> ideal;
  uint64_t sig = 1;
};
static bool dominates(const std::vector<double>& a, const std::vector<double>& b, bool less) {
  bool any = false;
  for (size_t i = 0; i < a.size(); i++) {
    double u = less ? a[i] : -a[i], v = less ? b[i] : -b[i];
    if (u > v) return false;
    if (u < v) any = true;
  }
  return any;
}

enum Algo { A_NSGA2, A_NSGA3S, A_NSGA3D };
template <int M, FitnessOption fo, RecordOption rec, Algo al>
struct Sel {
  using F = Eigen::Array<double, M, 1>;
  using type = heu::NSGA2<Ind, M, fo, rec, Ctx>;
};
template <int M, FitnessOption fo, RecordOption rec>
struct Sel<M, fo, rec, A_NSGA3S> {
  using F = Eigen::Array<double, M, 1>;
  using type = heu::NSGA3<Ind, M, rec, heu::ReferencePointOption::SINGLE_LAYER, Ctx>;
};
template <int M, FitnessOption fo, RecordOption rec>
struct Sel<M, fo, rec, A_NSGA3D> {
  using F = Eigen::Array<double, M, 1>;
  using type = heu::NSGA3<Ind, M, rec, heu::ReferencePointOption::DOUBLE_LAYER, Ctx, iFun, fFunMO<F>, cFun, mFun>;
};

// Gauss-Jordan solve in long double; returns determinant
static long double solveLin(std::vector<std::vector<long double>> a, std::vector<long double> b, std::vector<long double>* x) {
  const int n = int(b.size());
  long double det = 1;
  for (int c = 0; c < n; c++) {
    int p = c;
    for (int r = c; r < n; r++)
      if (std::fabs((double)a[r][c]) > std::fabs((double)a[p][c])) p = r;
    if (a[p][c] == 0) return 0;
    if (p != c) {
      std::swap(a[p], a[c]);
      std::swap(b[p], b[c]);
      det = -det;
    }
    det *= a[c][c];
    for (int r = 0; r < n; r++)
      if (r != c) {
        long double k = a[r][c] / a[c][c];
        for (int q = c; q < n; q++) a[r][q] -= k * a[c][q];
        b[r] -= k * b[c];
      }
  }
  x->resize(n);
  for (int i = 0; i < n; i++) (*x)[i] = b[i] / a[i][i];
  return det;
}

template <int M, FitnessOption fo, RecordOption rec, Algo al>
struct Mon : public Sel<M, fo, rec, al>::type {
  using Base = typename Sel<M, fo, rec, al>::type;
  using F = typename Sel<M, fo, rec, al>::F;
  using Gene = typename Base::Gene_t;
  static constexpr bool less = al == A_NSGA2 ? fo == FitnessOption::FITNESS_LESS_BETTER : true;
  static constexpr bool n3 = al != A_NSGA2;
  MOTrace tr;

  void setup(const Ctx& c) {
    this->setArgs(c);
    if constexpr (al != A_NSGA3D) {
      this->setiFun(iFun);
      this->setfFun(fFunMO<F>);
      this->setcFun(cFun);
      this->setmFun(mFun);
    }
  }
  HEU_RELOAD_MEMBERFUCTION_RUN

  void __impl_computeAllFitness() {
    checkBreeding(*this);
    Base::__impl_computeAllFitness();
    const int land = this->args().land, m = this->args().objs;
    checkEvaluated(*this, [&](const Gene& g) {
      std::vector<double> e(m);
      if (g.fitness.size() != m) return false;
      moLandscape(land, g.decision_variable.x, m, e.data());
      for (int i = 0; i < m; i++)
        if (bits(e[i]) != bits(g.fitness[i])) return false;
      return true;
    }, "selection");
  }
  void __impl_crossover() { monitorCrossover(*this, [&] { Base::__impl_crossover(); }); }
  void __impl_mutate() { monitorMutation(*this, [&] { Base::__impl_mutate(); }); }

  std::vector<Rec> take() const {
    std::vector<Rec> v;
    for (const Gene& g : this->population()) {
      Rec r;
      r.g = &g;
      r.id = g.decision_variable.id;
      r.xh = hashX(g.decision_variable);
      r.f.assign(g.fitness.data(), g.fitness.data() + g.fitness.size());
      v.push_back(r);
    }
    return v;
  }

  void checkFront(const char* when) {
    const auto now = take();
    std::map<const void*, size_t> at;
    for (size_t i = 0; i < now.size(); i++) at[now[i].g] = i;
    std::set<size_t> front;
    for (const Gene* g : this->pfGenes()) {
      auto it = at.find(g);
      if (it == at.end()) {
        violation("C09/dead-front-member", fmt("%s: the front holds an individual that is no member of the population", when));
        return;
      }
      front.insert(it->second);
    }
    size_t nd = 0;
    for (size_t i = 0; i < now.size(); i++) {
      bool dom = false;
      for (size_t j = 0; j < now.size() && !dom; j++) dom = dominates(now[j].f, now[i].f, less);
      nd += !dom;
      if (dom) HV_CHECK(!front.count(i), "C09/dominated-in-front", "%s: a dominated individual is reported", when);
      else HV_CHECK(front.count(i), "C09/missing-in-front", "%s: a non-dominated individual is not reported (%zu reported, population %zu)", when, front.size(), now.size());
    }
    count("fronts_checked");
    count("front_members", nd);
    // accessors
    std::vector<F> fl(3);
    this->paretoFront(fl);
    std::multiset<std::vector<double>> a, b;
    for (auto& f : fl) a.insert(std::vector<double>(f.data(), f.data() + f.size()));
    for (size_t i : front) b.insert(now[i].f);
    HV_CHECK(a == b, "C09/fitness-list", "%s: paretoFront(fitness) differs from pfGenes()", when);
    std::vector<std::pair<const Ind*, const F*>> pl(2);
    this->paretoFront(pl);
    std::set<size_t> viaPairs;
    for (auto& p : pl) {
      bool found = false;
      for (size_t i : front) {
        const Gene* g = static_cast<const Gene*>(now[i].g);
        if (&g->decision_variable == p.first && &g->fitness == p.second) {
          viaPairs.insert(i);
          found = true;
        }
      }
      HV_CHECK(found, "C09/pair-list", "%s: paretoFront(pairs) holds a pair that is no front member's", when);
    }
    HV_CHECK(viaPairs == front && pl.size() == front.size(), "C09/pair-list", "%s: paretoFront(pairs) differs from pfGenes()", when);
    // ideal point
    const F best = this->bestFitness();
    for (int j = 0; j < int(best.size()); j++) {
      double e = now[0].f[j];
      for (auto& r : now) e = less ? std::min(e, r.f[j]) : std::max(e, r.f[j]);
      HV_CHECK(best[j] == e, "C04/moga-ideal", "bestFitness()[%d] is %.17g, best of the population is %.17g", j, best[j], e);
    }
  }

  void __impl_select() {
    auto pre = take();
    const size_t N = pre.size(), K = this->option().populationSize;
    HV_CHECK(tr.ideal.size() <= this->option().maxGenerations, "C04/moga-runs-on", "continued after %zu of %zu generations",
             tr.ideal.size(), this->option().maxGenerations);
    Base::__impl_select();
    reg().selected(long(this->population().size()));
    const std::string P = n3 ? "C12" : "C10";
    const auto post = take();
    HV_CHECK(post.size() == std::min(N, K), P + "/size", "%zu before, %zu after selection, configured %zu", N, post.size(), K);
    std::map<uint32_t, size_t> idx;
    for (size_t i = 0; i < N; i++) idx[pre[i].id] = i;
    for (auto& s : post) {
      auto it = idx.find(s.id);
      if (it == idx.end() || pre[it->second].xh != s.xh || pre[it->second].f != s.f) {
        violation(P + "/invented", fmt("survivor %u is no unmodified member of the population before", s.id));
        continue;
      }
      HV_CHECK(!pre[it->second].kept, P + "/copied", "individual %u survives twice", s.id);
      pre[it->second].kept = true;
    }
    for (auto& a : pre)
      for (auto& b : pre) a.dom += dominates(b.f, a.f, less);
    size_t worstKept = 0, bestDropped = size_t(-1), dropped = 0;
    for (auto& a : pre) {
      if (a.kept) worstKept = std::max(worstKept, a.dom);
      else {
        bestDropped = std::min(bestDropped, a.dom);
        dropped++;
      }
    }
    if (dropped)
      HV_CHECK(worstKept <= bestDropped, P + "/dominance-order", "kept one dominated by %zu while one dominated by %zu was dropped", worstKept, bestDropped);
    if (dropped && worstKept == bestDropped) {
      // the layer that fits only partly
      if (!n3) crowdingOracle(pre, bestDropped);
      else if constexpr (n3) nicheOracle(pre, bestDropped, K);
    } else
      count("selections_without_partial_layer");
    checkFront("after selection");
    std::vector<double> id;
    if (!post.empty()) {
      id = post[0].f;
      for (auto& r : post)
        for (size_t j = 0; j < id.size(); j++) id[j] = less ? std::min(id[j], r.f[j]) : std::max(id[j], r.f[j]);
    }
    tr.ideal.push_back(id);
    uint64_t h = mix(N, post.size());
    for (double d : id) h = mix(h, bits(d));
    tr.sig = mix(tr.sig, h);
    count("selections");
  }

  // sound bounds of the crowding distance under every order of equal objective values
  void crowdingOracle(std::vector<Rec>& pre, size_t layer) {
    const size_t N = pre.size(), m = pre[0].f.size();
    std::vector<double> lo(N, 0), hi(N, 0);
    bool ties = false;
    std::vector<char> extreme(N, 0);
    for (size_t j = 0; j < m; j++) {
      std::vector<double> vals;
      for (auto& r : pre) vals.push_back(r.f[j]);
      std::sort(vals.begin(), vals.end());
      // distances are relative to the range, which may exceed the maximum of double
      const double unit = std::isinf(vals.back() - vals.front()) ? 0.5 : 1;
      const auto finite = [unit](double v) { return unit * std::min(std::max(v, -1.7976931348623157e308), 1.7976931348623157e308); };
      for (double& v : vals) v = finite(v);
      const double scale = std::fabs(vals.back() - vals.front()) + 1e-10;
      for (size_t i = 0; i < N; i++) {
        const double v = finite(pre[i].f[j]);
        auto a = std::lower_bound(vals.begin(), vals.end(), v), b = std::upper_bound(vals.begin(), vals.end(), v);
        const size_t g = size_t(b - a);
        if (g > 1) ties = true;
        const bool atMin = a == vals.begin(), atMax = b == vals.end();
        const double down = atMin ? INFINITY : v - *(a - 1), up = atMax ? INFINITY : *b - v;
        double l, h;
        if (g == 1) l = h = down + up;
        else {
          h = std::max(down, up);
          l = g == 2 ? std::min(down, up) : 0;
        }
        if (g == 1 && (atMin || atMax)) extreme[i] = 1;
        lo[i] += l / scale;
        hi[i] += h / scale;
      }
    }
    double minKept = INFINITY, maxDropped = -1;
    size_t ik = N, id = N, keptInLayer = 0;
    for (size_t i = 0; i < N; i++) {
      if (pre[i].dom != layer) continue;
      if (pre[i].kept) {
        keptInLayer++;
        if (hi[i] < minKept) minKept = hi[i], ik = i;
      } else if (lo[i] > maxDropped)
        maxDropped = lo[i], id = i;
    }
    if (ik < N && id < N)
      HV_CHECK(minKept >= maxDropped * (1 - 1e-9) - 1e-9, "C10/crowding", "kept crowding distance at most %.12g while one with at least %.12g was dropped (N=%zu)",
               minKept, maxDropped, N);
    count(ties ? "crowding_checked_with_ties" : "crowding_checked_strict");
    // extremes: with enough room none of the layer's unique extreme individuals may go
    size_t ext = 0, lost = 0;
    for (size_t i = 0; i < N; i++)
      if (pre[i].dom == layer && extreme[i]) {
        ext++;
        lost += !pre[i].kept;
      }
    if (!ties && ext <= keptInLayer) HV_CHECK(lost == 0, "C10/extreme-lost", "%zu of %zu extreme individuals lost with room for %zu", lost, ext, keptInLayer);
  }

  void nicheOracle(std::vector<Rec>& pre, size_t layer, size_t K) {
    const size_t N = pre.size(), m = pre[0].f.size();
    (void)K;
    // only the layers up to the partial one take part
    std::vector<size_t> part;
    for (size_t i = 0; i < N; i++)
      if (pre[i].dom <= layer) part.push_back(i);
    std::vector<double> ideal(m, INFINITY);
    std::vector<std::vector<size_t>> choices(m);  // who may be the extreme point of each objective
    size_t combos = 1;
    for (size_t j = 0; j < m; j++) {
      double mx = -INFINITY;
      for (size_t i : part) ideal[j] = std::min(ideal[j], pre[i].f[j]), mx = std::max(mx, pre[i].f[j]);
      for (size_t i : part) {
        if (pre[i].f[j] != mx) continue;
        bool known = ideal[j] == mx && !choices[j].empty();  // an objective without spread: any of them makes the same
        for (size_t o : choices[j]) known = known || pre[o].f == pre[i].f;
        if (!known) choices[j].push_back(i);
      }
      combos *= choices[j].size();
      if (combos > 96) {
        count("niche_skipped_ambiguous_extremes");
        return;
      }
    }
    std::string key, msg, skip;
    for (size_t c = 0; c < combos; c++) {
      std::vector<size_t> ext(m);
      size_t q = c;
      for (size_t j = 0; j < m; j++) ext[j] = choices[j][q % choices[j].size()], q /= choices[j].size();
      key.clear(), skip.clear();
      const size_t filled = nicheFits(pre, layer, part, ideal, ext, key, msg, skip);
      if (!skip.empty()) {
        count(skip.c_str());
        return;
      }
      if (key.empty()) {
        count("niche_selections_checked");
        if (combos > 1) count("niche_selections_with_tied_extremes");
        count("niches_filled", filled);
        return;
      }
    }
    violation(key, msg);
  }
  // is the selection one that these extreme points explain?
  size_t nicheFits(std::vector<Rec>& pre, size_t layer, const std::vector<size_t>& part, const std::vector<double>& ideal, const std::vector<size_t>& ext, std::string& key, std::string& msg,
                   std::string& skip) {
    const size_t N = pre.size(), m = pre[0].f.size();
    bool ambiguous = false;
    const auto fail = [&](const char* k, std::string t) {
      key = k, msg = std::move(t);
      return size_t(0);
    };
    // intercepts of the hyperplane through the extreme points: sum_j E[c][j] / a_j = 1 for every extreme point c
    std::vector<std::vector<long double>> E(m, std::vector<long double>(m));
    std::vector<long double> one(m, 1), inv;
    for (size_t c = 0; c < m; c++)
      for (size_t j = 0; j < m; j++) E[c][j] = (long double)(pre[ext[c]].f[j] - ideal[j]);
    const long double det = solveLin(E, one, &inv);
    const double ad = std::fabs((double)det);
    if (ad > 1e-11 && ad < 1e-9) {
      skip = "niche_skipped_nearly_singular";
      return 0;
    }
    std::vector<double> icpt(m);
    if (ad <= 1e-10) {
      for (size_t j = 0; j < m; j++) icpt[j] = double(E[j][j]);
    } else
      for (size_t j = 0; j < m; j++) icpt[j] = double(1 / inv[j]);
    for (size_t j = 0; j < m; j++) {
      if (!std::isfinite(icpt[j]) || std::fabs(icpt[j]) > 1e14) {
        skip = "niche_skipped_unbounded_intercept";
        return 0;
      }
      if (icpt[j] == 0) {  // an objective without any spread cannot be scaled: everybody is at the ideal value in it
        icpt[j] = 1;
        count("niche_constant_objective");
      }
    }
    const auto& R = this->referencePoints();
    const size_t nr = size_t(R.cols());
    std::vector<std::set<size_t>> near(N);  // all reference points that are nearest within rounding
    std::vector<double> dist(N, 0);
    std::vector<size_t> who(N, 0);
    for (size_t i : part) {
      std::vector<double> s(m);
      for (size_t j = 0; j < m; j++) s[j] = (pre[i].f[j] - ideal[j]) / icpt[j];
      double best = INFINITY, scale = 0;
      std::vector<double> d(nr);
      for (size_t j = 0; j < m; j++) scale += s[j] * s[j];
      for (size_t r = 0; r < nr; r++) {
        double ww = 0, ws = 0;
        for (size_t j = 0; j < m; j++) ww += R(j, r) * R(j, r), ws += R(j, r) * s[j];
        double q = 0;
        for (size_t j = 0; j < m; j++) {
          double t = R(j, r) * ws / ww - s[j];
          q += t * t;
        }
        d[r] = q;
        if (q < best) best = q, who[i] = r;
      }
      dist[i] = best;
      for (size_t r = 0; r < nr; r++)
        if (d[r] <= best + 1e-9 * (1 + scale)) near[i].insert(r);
      if (near[i].size() > 1) {
        ambiguous = true;
        // members of one line only: reference points on the same ray
      }
    }
    if (ambiguous) {
      // the association may legitimately differ: take the library's own choice if it is one of the nearest
      for (size_t i : part) {
        if (!pre[i].kept) continue;
        const Gene* g = nullptr;
        for (const Gene& q : this->population())
          if (q.decision_variable.id == pre[i].id) g = &q;
        if (!g) {
          skip = "niche_skipped_unknown_member";
          return 0;
        }
        if (!near[i].count(g->closestRefPoint)) return fail("C12/association", fmt("attached to reference point %zu, which is not the nearest", size_t(g->closestRefPoint)));
        who[i] = g->closestRefPoint;
      }
    } else
      for (const Gene& q : this->population()) {
        auto it = std::find_if(pre.begin(), pre.end(), [&](const Rec& r) { return r.id == q.decision_variable.id; });
        if (it == pre.end() || it->dom > layer) continue;
        const size_t i = size_t(it - pre.begin());
        if (q.closestRefPoint != who[i]) return fail("C12/association", fmt("attached to reference point %zu, nearest is %zu", size_t(q.closestRefPoint), who[i]));
      }
    std::map<size_t, size_t> n, taken, left;
    std::map<size_t, double> closestTaken, closestLeft;
    for (size_t i : part) {
      if (pre[i].dom < layer) n[who[i]]++;
      else if (pre[i].kept) {
        taken[who[i]]++;
        auto it = closestTaken.emplace(who[i], dist[i]).first;
        it->second = std::min(it->second, dist[i]);
      } else if (near[i].size() > 1) {  // dropped, and nobody knows what it was attached to
        count("niche_dropped_with_ambiguous_association");
      } else {
        left[who[i]]++;
        auto it = closestLeft.emplace(who[i], dist[i]).first;
        it->second = std::min(it->second, dist[i]);
      }
    }
    for (auto& t : taken) {
      const size_t beforeLast = n[t.first] + t.second - 1;
      for (auto& l : left) {
        const auto lt = taken.find(l.first);
        const size_t has = n[l.first] + (lt == taken.end() ? 0 : lt->second);
        if (beforeLast > has)
          return fail("C12/niche-balance", fmt("reference point %zu with %zu members got another one while %zu had only %zu and candidates left", t.first, beforeLast, l.first, has));
      }
      if (n[t.first] == 0 && closestLeft.count(t.first))
        if (!(closestTaken[t.first] <= closestLeft[t.first] + 1e-8 * (1 + closestLeft[t.first])))
          return fail("C12/closest", fmt("empty reference point %zu took a candidate at %.12g, not the closest at %.12g", t.first, closestTaken[t.first], closestLeft[t.first]));
    }
    return taken.size();
  }

  void runAndCheck() {
    tr = MOTrace();
    reg().selected(-1);
    this->run();
    const size_t S = tr.ideal.size();
    HV_CHECK(S == this->option().maxGenerations + 1, "C04/moga-generations", "%zu generations evaluated with a limit of %zu", S, this->option().maxGenerations);
    HV_CHECK(this->generation() + 1 == S, "C04/moga-generation-count", "%zu selections but generation()==%zu", S, this->generation());
    if constexpr (rec == RecordOption::RECORD_FITNESS) {
      HV_CHECK(this->record().size() == S, "C04/moga-record-size", "%zu entries for %zu generations", this->record().size(), S);
      for (size_t i = 0; i < S && i < this->record().size(); i++) {
        bool ok = size_t(this->record()[i].size()) == tr.ideal[i].size();
        for (size_t j = 0; ok && j < tr.ideal[i].size(); j++) ok = same(this->record()[i][j], tr.ideal[i][j]);
        HV_CHECK(ok, "C04/moga-record-value", "record entry %zu is not the best fitness of that generation", i);
      }
    }
    checkFront("after run");
    for (uint32_t i = 1; i < reg().n; i++)
      HV_CHECK(reg().evals[i] == 1 || (reg().origin[i] == 0 && reg().evals[i] == 0), "C05/eval-count-final",
               "individual %u (origin %d) was evaluated %d times", i, int(reg().origin[i]), int(reg().evals[i]));
    count("evaluations_of_fitness", reg().evalCalls);
    observed(mix(tr.sig, S));
  }

  // C11
  void checkLattice(size_t p, size_t q) {
    const size_t m = size_t(this->objectiveNum());
    auto lattice = [&](size_t prec) {
      std::vector<std::vector<size_t>> out;
      std::vector<size_t> cur(m, 0);
      std::function<void(size_t, size_t)> rec2 = [&](size_t d, size_t rest) {
        if (d + 1 == m) {
          cur[d] = rest;
          out.push_back(cur);
          return;
        }
        for (size_t v = 0; v <= rest; v++) {
          cur[d] = v;
          rec2(d + 1, rest - v);
        }
      };
      rec2(0, prec);
      return out;
    };
    auto binom = [](size_t n, size_t k) {
      long double r = 1;
      for (size_t i = 1; i <= k; i++) r = r * (n - k + i) / i;
      return size_t(r + 0.5L);
    };
    if constexpr (n3) {
      const auto& R = this->referencePoints();
      std::multiset<std::vector<long>> got, want;  // fixed point with 1e-9 grid
      auto add = [&](size_t prec, double contract) {
        for (auto& v : lattice(prec)) {
          std::vector<long> k;
          for (size_t c : v) k.push_back(lround(double(c) / double(prec) * contract * 1e9 / 8));
          want.insert(k);
        }
      };
      add(p, 1.0);
      if (q) add(q, 1 / std::sqrt(2.0));
      const size_t expect = binom(p + m - 1, p) + (q ? binom(q + m - 1, q) : 0);
      HV_CHECK(this->referencePointCount() == expect, "C11/count", "referencePointCount()==%zu, expected %zu (M=%zu p=%zu,%zu)",
               size_t(this->referencePointCount()), expect, m, p, q);
      HV_CHECK(size_t(R.cols()) == expect && size_t(R.rows()) == m, "C11/shape", "%zu x %zu reference matrix, expected %zu x %zu", size_t(R.rows()),
               size_t(R.cols()), m, expect);
      bool exact = true;
      for (long c = 0; c < R.cols(); c++) {
        std::vector<long> k;
        double s = 0;
        for (long r = 0; r < R.rows(); r++) {
          exact = exact && std::isfinite(R(r, c)) && R(r, c) > -1e-12;
          s += R(r, c);
          k.push_back(lround(R(r, c) * 1e9 / 8));
        }
        exact = exact && (near(s, 1, 0, 1e-9) || (q && near(s, 1 / std::sqrt(2.0), 0, 1e-9)));
        got.insert(k);
      }
      HV_CHECK(exact, "C11/not-on-simplex", "a reference point is negative or does not sum up to 1 (M=%zu p=%zu,%zu)", m, p, q);
      HV_CHECK(got == want, "C11/lattice", "the set of reference points is not the lattice (M=%zu p=%zu,%zu)", m, p, q);
      count("reference_points", uint64_t(R.cols()));
      observed(mix(mix(m, p), mix(q, uint64_t(R.cols()))));
    }
  }
};

template <int M, FitnessOption fo, RecordOption rec, Algo al>
static void history(Rng& rng) {
  reg().reset();
  cbRng() = Rng(rng.next());
  eng::start(heu::internal::global_mt19937(), rng);
  auto s = std::make_unique<Mon<M, fo, rec, al>>();
  Ctx c;
  const int runs = int(rng.range(1, 3));
  bool initialized = false;
  size_t p = 4, q = 0;
  for (int r = 0; r < runs; r++) {
    GAOption o = randomOption(rng, 1, 24, 6);
    const bool init = !initialized || rng.coin(0.4);
    if (init) {
      c.land = int(rng.range(0, NMO - 1));
      c.objs = M;
      if (M == Eigen::Dynamic) {
        c.objs = rng.coin(0.25) ? int(rng.range(6, al == A_NSGA2 ? 32 : 9)) : int(rng.range(2, 5));
        if constexpr (M == Eigen::Dynamic) s->setObjectiveNum(c.objs);
      }
      if constexpr (al == A_NSGA3S) {
        p = size_t(rng.range(1, c.objs > 5 ? 2 : c.objs > 3 ? 4 : 7));
        s->setReferencePointPrecision(p);
        HV_CHECK(s->referencePointPrecision() == p, "C11/precision", "precision does not read back");
      }
      if constexpr (al == A_NSGA3D) {
        p = size_t(rng.range(2, c.objs > 5 ? 3 : 5));
        q = size_t(rng.range(2, c.objs > 5 ? 2 : 4));
        s->setReferencePointPrecision(q, p);
        HV_CHECK(s->innerPrecision() == q && s->outerPrecision() == p, "C11/precision", "precision does not read back");
      }
    }
    beginCase(fmt("%s M=%d%s %s land=%s pop=%zu gen=%zu pc=%.2f pm=%.2f p=%zu,%zu run=%d%s", al == A_NSGA2 ? "NSGA2" : al == A_NSGA3S ? "NSGA3" : "NSGA3-double",
                  c.objs, M == Eigen::Dynamic ? "(rt)" : "", fo == FitnessOption::FITNESS_LESS_BETTER ? "less" : "greater", moName(c.land), o.populationSize,
                  o.maxGenerations, o.crossoverProb, o.mutateProb, p, q, r, init ? " init" : ""));
    s->setOption(o);
    if (init) {
      s->setup(c);
      HV_CHECK(initialized || (s->generation() == 0), "C04/fresh-counters", "a new solver reports progress");
      s->initializePop();
      initialized = true;
      HV_CHECK(s->population().size() == o.populationSize, "C10/initial-size", "initializePop made %zu of %zu", s->population().size(), o.populationSize);
      if constexpr (al != A_NSGA2) s->checkLattice(p, q);
      if (rng.coin(0.3)) {
        o.populationSize = size_t(rng.range(1, int64_t(o.populationSize)));
        s->setOption(o);
      }
    }
    s->runAndCheck();
  }
}

#define LESS FitnessOption::FITNESS_LESS_BETTER
#define GREATER FitnessOption::FITNESS_GREATER_BETTER
#define REC RecordOption::RECORD_FITNESS
#define NOREC RecordOption::DONT_RECORD_FITNESS
static int runs() { return scale(700, 12); }
#define MO_PART(name, M, fo, rec, al)                                      \
  HV_PART(name) {                                                          \
    for (int i = 0, n = runs(); i < n; i++) history<M, fo, rec, al>(rng);  \
    checkShares();                                                         \
  }
#if MO_GROUP >= 3 && MO_GROUP <= 6
// ---- C12: the random choices of niche preservation, against their exact probabilities
static std::vector<std::vector<double>>& sharePlan() {
  static std::vector<std::vector<double>> p;
  return p;
}
static size_t& shareNext() {
  static size_t n = 0;
  return n;
}
template <class B>
struct Sharer : B {
  using Gene_t = typename B::Gene_t;
  void selectFrom(const std::list<Gene_t>& p) {
    this->_population = p;
    this->__impl_select();
  }
};
template <int M>
static void shares(Rng& rng) {
  using F = Eigen::Array<double, M, 1>;
  using S = Sharer<heu::NSGA3<Ind, M, NOREC, heu::ReferencePointOption::SINGLE_LAYER, Ctx>>;
  const int configs = scale(40, 6);
  for (int c = 0; c < configs; c++) {
    const int m = M == Eigen::Dynamic ? int(rng.range(2, 4)) : M;
    S s;
    if constexpr (M == Eigen::Dynamic) s.setObjectiveNum(m);
    const size_t prec = size_t(rng.range(m == 2 ? 3 : 2, m == 2 ? 19 : m == 3 ? 5 : 3));
    s.setReferencePointPrecision(prec);
    s.setArgs(Ctx());
    s.setiFun(+[](Ind* v, const Ctx*) {
      v->x = {double(shareNext()++), 0, 0};
      v->id = reg().create(v->x, 0);
    });
    s.setfFun(+[](const Ind* v, const Ctx*, F* f) {
      const auto& w = sharePlan()[size_t(v->x[0])];
      for (size_t j = 0; j < w.size(); j++) (*f)[Eigen::Index(j)] = w[j];
    });
    s.setcFun(cFun);
    s.setmFun(mFun);
    GAOption o;
    o.maxGenerations = 0;
    o.maxFailTimes = 0;
    o.crossoverProb = 0;
    o.mutateProb = 0;
    // the corners make every intercept the same
    auto& plan = sharePlan();
    plan.assign(size_t(m), std::vector<double>(size_t(m), 0.02));
    for (int j = 0; j < m; j++) plan[size_t(j)][size_t(j)] = 1.02;
    // one selection of K from the plan; the solver, and with it the order of its reference points, stays the same
    std::list<typename S::Gene_t> saved;
    const auto refill = [&] {
      reg().reset();
      shareNext() = 0;
      o.populationSize = plan.size();
      s.setOption(o);
      s.initializePop();
      s.run();
      saved = s.population();
    };
    const auto once = [&](size_t K, std::vector<char>* kept) {
      o.populationSize = K;
      s.setOption(o);
      s.selectFrom(saved);
      kept->assign(plan.size(), 0);
      size_t n = 0;
      for (const auto& g : s.population()) (*kept)[size_t(g.decision_variable.x[0])] = 1, n++;
      return n;
    };
    std::vector<char> kept;
    beginCase(fmt("niche shares M=%d%s p=%zu", m, M == Eigen::Dynamic ? "(rt)" : "", prec));
    refill();
    const auto R = s.referencePoints();
    const int nr = int(R.cols());
    // candidates around the reference points, all on one plane: nobody dominates anybody
    const double jitter = 0.012 / double(m);
    const int used = int(rng.range(2, std::min(nr, c % 3 ? 9 : 30)));
    for (int u = 0; u < used; u++) {
      const int r = int(rng.range(0, nr - 1)), times = int(rng.range(1, 4));
      for (int t = 0; t < times && plan.size() < (c % 3 ? 40 : 60); t++) {
        std::vector<double> f(size_t(m), 0);
        double sum = 0, norm = 0;
        for (int j = 0; j < m; j++) norm += R(j, r);
        for (int j = 0; j < m; j++) {
          const bool top = R(j, r) / norm > 1 - 1e-9;
          f[size_t(j)] = 0.02 + R(j, r) / norm + (top ? -jitter * m : 0) + rng.d(-jitter, jitter);
          sum += f[size_t(j)];
        }
        const size_t fix = size_t(rng.range(0, m - 1));
        f[fix] += 1 + 0.02 * m - sum;
        plan.push_back(f);
      }
    }
    // and some that dominate all of them, so they are in before
    const size_t front = plan.size(), first = rng.coin(0.4) ? 0 : size_t(rng.range(1, 8));
    for (size_t i = 0; i < first; i++) {
      const int r = int(rng.range(0, nr - 1));
      double norm = 0;
      std::vector<double> f;
      for (int j = 0; j < m; j++) norm += R(j, r);
      for (int j = 0; j < m; j++) f.push_back(0.004 * R(j, r) / norm);
      plan.push_back(f);
    }
    const size_t N = plan.size();
    {  // in a random order
      for (size_t i = N; i > 1; i--) std::swap(plan[i - 1], plan[size_t(rng.range(0, int64_t(i) - 1))]);
    }
    const size_t K = first + size_t(rng.range(1, int64_t(front) - 1));
    // what each of them is attached to
    std::vector<size_t> dom(N, 0);
    for (size_t i = 0; i < N; i++)
      for (size_t k = 0; k < N; k++) dom[i] += dominates(plan[k], plan[i], true);
    std::vector<double> ideal(size_t(m), INFINITY);
    std::vector<size_t> ext(size_t(m), 0);
    for (size_t i = 0; i < N; i++)
      for (int j = 0; j < m; j++) {
        ideal[size_t(j)] = std::min(ideal[size_t(j)], plan[i][size_t(j)]);
        if (plan[i][size_t(j)] > plan[ext[size_t(j)]][size_t(j)]) ext[size_t(j)] = i;
      }
    std::vector<std::vector<long double>> E{std::vector<std::vector<long double>>(static_cast<size_t>(m), std::vector<long double>(static_cast<size_t>(m), 0))};
    std::vector<long double> inv;
    for (int a = 0; a < m; a++)
      for (int j = 0; j < m; j++) E[size_t(a)][size_t(j)] = (long double)(plan[ext[size_t(a)]][size_t(j)]) - ideal[size_t(j)];
    bool clear = std::fabs(double(solveLin(E, std::vector<long double>(size_t(m), 1), &inv))) > 1e-6;
    std::vector<size_t> who(N, 0);
    std::vector<double> dist(N, 0);
    for (size_t i = 0; i < N && clear; i++) {
      clear = dom[i] == 0 || dom[i] == first;
      double best = INFINITY, second = INFINITY;
      for (int r = 0; r < nr; r++) {
        long double ww = 0, ws = 0, q = 0;
        for (int j = 0; j < m; j++) {
          const long double v = ((long double)plan[i][size_t(j)] - ideal[size_t(j)]) * inv[size_t(j)];
          ww += (long double)R(j, r) * R(j, r), ws += R(j, r) * v;
        }
        for (int j = 0; j < m; j++) {
          const long double v = ((long double)plan[i][size_t(j)] - ideal[size_t(j)]) * inv[size_t(j)], t = R(j, r) * ws / ww - v;
          q += t * t;
        }
        if (q < best) second = best, best = double(q), who[i] = size_t(r);
        else second = std::min(second, double(q));
      }
      dist[i] = best;
      clear = clear && second > best + 1e-8;
    }
    if (!clear) {
      count("niche_shares_unclear");
      continue;
    }
    std::vector<std::vector<size_t>> cand(static_cast<size_t>(nr));
    std::vector<size_t> have(size_t(nr), 0);
    for (size_t i = 0; i < N; i++) {
      if (first && dom[i] == 0) have[who[i]]++;
      else cand[who[i]].push_back(i);
    }
    const std::vector<size_t> had = have;
    for (auto& v : cand) {
      std::sort(v.begin(), v.end(), [&](size_t a, size_t b) { return dist[a] < dist[b]; });
      for (size_t i = 1; i < v.size(); i++) clear = clear && dist[v[i]] > dist[v[i - 1]] + 1e-9;
    }
    if (!clear) {
      count("niche_shares_unclear");
      continue;
    }
    // fill up the level of members, one round after another
    size_t places = K - first;
    std::vector<double> picks(size_t(nr), 0);  // expected, all whole but the last round's
    double lastRound = 0;
    std::vector<char> inLast(size_t(nr), 0);
    for (size_t level = 0; places > 0; level++) {
      std::vector<size_t> next;
      for (size_t r = 0; r < size_t(nr); r++)
        if (had[r] <= level && picks[r] < double(cand[r].size()) && double(had[r]) + picks[r] <= double(level)) next.push_back(r);
      const size_t n = std::min(places, next.size());
      for (size_t r : next) {
        if (n < next.size()) inLast[r] = 1, lastRound = double(n) / double(next.size());
        else picks[r] += 1;
      }
      places -= n;
    }
    std::vector<double> want(N, 0);
    for (size_t i = 0; i < N; i++)
      if (first && dom[i] == 0) want[i] = 1;
    for (size_t r = 0; r < size_t(nr); r++) {
      const double e = picks[r] + (inLast[r] ? lastRound : 0);
      for (size_t i = 0; i < cand[r].size(); i++) {
        if (had[r]) want[cand[r][i]] = e / double(cand[r].size());
        else if (i == 0) want[cand[r][i]] = std::min(1.0, e);
        else want[cand[r][i]] = std::max(0.0, e - 1) / double(cand[r].size() - 1);
      }
    }
    refill();
    const int reps = scale(1000, 2);
    std::vector<int> got(N, 0);
    bool sized = true;
    for (int t = 0; t < reps; t++) {
      sized = sized && once(K, &kept) == K;
      for (size_t i = 0; i < N; i++) got[i] += kept[i];
    }
    HV_CHECK(sized, "C12/size", "a selection of %zu from %zu kept another number", K, N);
    uint64_t sig = N;
    for (size_t i = 0; i < N; i++) {
      const double tol = 7 * std::sqrt(std::max(0.0, want[i] * (1 - want[i])) * reps) + (want[i] > 0 && want[i] < 1 ? 2 : 0);
      HV_CHECK(std::fabs(got[i] - want[i] * reps) <= tol + 1e-6, "C12/share", "candidate %zu of reference point %zu (%zu candidates, %zu members before) was kept %d times in %d selections, expected %.1f +- %.1f", i,
               who[i], cand[who[i]].size(), had[who[i]], got[i], reps, want[i] * reps, tol);
      sig = mix(sig, uint64_t(got[i]));
    }
    observed(sig);
    count("niche_share_selections", uint64_t(reps));
    if (lastRound > 0) count("niche_share_partial_rounds");
    if (first) count("niche_share_with_members_before");
  }
}
#endif
#if MO_GROUP == 0
MO_PART(nsga2_2_less, 2, LESS, REC, A_NSGA2)
MO_PART(nsga2_2_greater, 2, GREATER, NOREC, A_NSGA2)
#elif MO_GROUP == 1
MO_PART(nsga2_3_greater, 3, GREATER, REC, A_NSGA2)
MO_PART(nsga2_5_less, 5, LESS, NOREC, A_NSGA2)
#elif MO_GROUP == 2
MO_PART(nsga2_dyn_less, Eigen::Dynamic, LESS, REC, A_NSGA2)
MO_PART(nsga2_dyn_greater, Eigen::Dynamic, GREATER, NOREC, A_NSGA2)
#elif MO_GROUP == 3
MO_PART(nsga3_2, 2, LESS, REC, A_NSGA3S)
MO_PART(nsga3_3, 3, LESS, NOREC, A_NSGA3S)
HV_PART(share_2) { shares<2>(rng); }
HV_PART(share_3) { shares<3>(rng); }
#elif MO_GROUP == 4
MO_PART(nsga3_dyn, Eigen::Dynamic, LESS, REC, A_NSGA3S)
HV_PART(share_dyn) { shares<Eigen::Dynamic>(rng); }
#elif MO_GROUP == 5
MO_PART(nsga3_double_3, 3, LESS, REC, A_NSGA3D)
MO_PART(nsga3_double_4, 4, LESS, NOREC, A_NSGA3D)
#elif MO_GROUP == 6
MO_PART(nsga3_double_dyn, Eigen::Dynamic, LESS, NOREC, A_NSGA3D)
#elif MO_GROUP == 7
// lattices far larger than the runs use
template <int M, Algo al>
static void lattices(Rng& rng) {
  for (int m = 2; m <= 8; m++) {
    if (M != Eigen::Dynamic && m != M) continue;
    auto s = std::make_unique<Mon<M, LESS, NOREC, al>>();  // one object, remade again and again
    if constexpr (M == Eigen::Dynamic) s->setObjectiveNum(m);
    Ctx c;
    c.objs = m;
    s->setup(c);
    GAOption o;
    o.populationSize = 2;
    s->setOption(o);
    const int pmax = m <= 3 ? 24 : m <= 5 ? 9 : m == 6 ? 6 : 5;
    for (int k = 0; k < (thorough() ? 3 * pmax : pmax); k++) {
      size_t p = size_t(al == A_NSGA3S ? 1 + k % pmax : rng.range(2, pmax)), q = al == A_NSGA3S ? 0 : size_t(rng.range(2, pmax));
      beginCase(fmt("lattice M=%d%s p=%zu q=%zu", m, M == Eigen::Dynamic ? "(rt)" : "", p, q));
      reg().reset();
      if constexpr (al == A_NSGA3S) s->setReferencePointPrecision(p);
      else s->setReferencePointPrecision(q, p);
      s->initializePop();
      s->checkLattice(p, q);
    }
    if (al == A_NSGA3D && M == Eigen::Dynamic) {
      // defaults of the double layer
      auto t = std::make_unique<Mon<M, LESS, NOREC, al>>();
      if constexpr (M == Eigen::Dynamic) t->setObjectiveNum(m);
      t->setup(c);
      t->setOption(o);
      reg().reset();
      t->initializePop();
      if constexpr (al == A_NSGA3D) t->checkLattice(t->outerPrecision(), t->innerPrecision());
    }
  }
}
HV_PART(lattice_single_dyn) { lattices<Eigen::Dynamic, A_NSGA3S>(rng); }
HV_PART(lattice_single_3) { lattices<3, A_NSGA3S>(rng); lattices<7, A_NSGA3S>(rng); }
HV_PART(lattice_double_dyn) { lattices<Eigen::Dynamic, A_NSGA3D>(rng); }
HV_PART(lattice_double_4) { lattices<4, A_NSGA3D>(rng); }
#elif MO_GROUP == 8
// dominance laws on small integer grids and on special values
template <int M, FitnessOption fo>
static void dominanceLaws(Rng& rng, int m) {
  using P = heu::internal::Pareto<M, fo>;
  using F = Eigen::Array<double, M, 1>;
  const bool less = fo == FitnessOption::FITNESS_LESS_BETTER;
  static const std::vector<double> odd{0.0, -0.0, 1e300, -1e300, 5e-324, 1.0, 1.0 + 2.3e-16, -3.0, INFINITY, -INFINITY};
  for (int it = 0; it < scale(6000, 20); it++) {
    F a, b, c;
    a.resize(m);
    b.resize(m);
    c.resize(m);
    const int mode = int(rng.range(0, 2));
    for (int i = 0; i < m; i++)
      for (F* f : {&a, &b, &c}) (*f)[i] = mode == 0 ? double(rng.range(0, 2)) : mode == 1 ? rng.pick(odd) : rng.d(-1, 1);
    if (rng.coin(0.2)) b = a;
    if (rng.coin(0.2)) {
      b = a;
      b[int(rng.range(0, m - 1))] += rng.coin() ? 1 : -1;
    }
    beginCase(fmt("dominance M=%d%s mode=%d a0=%.17g b0=%.17g", m, M == Eigen::Dynamic ? "(rt)" : "", mode, a[0], b[0]));
    auto v = [&](const F& f) { return std::vector<double>(f.data(), f.data() + m); };
    auto dom = [&](const F& x, const F& y) {
      bool r = P::isStrongDominate(&x, &y);
      HV_CHECK(r == dominates(v(x), v(y), less), "C09/dominance-definition", "isStrongDominate says %d", int(r));
      return r;
    };
    bool ab = dom(a, b), ba = dom(b, a), bc = dom(b, c), ac = dom(a, c);
    HV_CHECK(!dom(a, a), "C09/reflexive", "a vector dominates itself");
    HV_CHECK(!(ab && ba), "C09/symmetric", "two vectors dominate each other");
    HV_CHECK(!(ab && bc) || ac, "C09/intransitive", "dominance is not transitive");
    count(ab || ba ? "dominating_pairs" : "incomparable_pairs");
    observed(mix(hashF(a), hashF(b)));
  }
}
HV_PART(dominance) {
  dominanceLaws<2, LESS>(rng, 2);
  dominanceLaws<2, GREATER>(rng, 2);
  dominanceLaws<3, LESS>(rng, 3);
  dominanceLaws<7, GREATER>(rng, 7);
  for (int m = 2; m < 7; m++) {
    dominanceLaws<Eigen::Dynamic, LESS>(rng, m);
    dominanceLaws<Eigen::Dynamic, GREATER>(rng, m);
  }
}
#endif
