// Shared pieces of the genetic-algorithm monitors: identified individuals, the registry of what happened to each,
// the fitness landscapes and the crossover / mutation monitor.
#pragma once
#include "hv.hpp"
#include "engine.hpp"
#include <array>
#include <atomic>
#include <memory>
#include <HeuristicFlow/Genetic>

namespace hv {

constexpr int DIM = 3;
struct Ind {
  uint32_t id = 0;
  std::array<double, DIM> x{};
};
inline uint64_t hashX(const Ind& v) {
  uint64_t h = 7;
  for (double d : v.x) h = mix(h, bits(d));
  return h;
}

// what happened to every identified individual of the current case
struct Registry {
  static constexpr uint32_t MAXID = 400000;
  std::unique_ptr<std::atomic<uint8_t>[]> evals{new std::atomic<uint8_t>[MAXID]};
  std::vector<std::array<double, DIM>> born;
  std::vector<uint8_t> origin;  // 0 init, 1 crossover, 2 mutation
  std::atomic<uint64_t> badVar{0}, evalCalls{0}, badArgs{0};
  uint32_t n = 0;
  struct Pair {
    uint32_t p1, p2, c1, c2;
    const void *ap1, *ap2, *ac1, *ac2;
  };
  std::vector<Pair> pairs;
  struct Mut {
    uint32_t src, dst;
    const void *asrc, *adst;
  };
  std::vector<Mut> muts;
  // between two generations: how many survived the last selection (-1: none yet), what was made from them
  long survived = -1;
  size_t bredPairs = 0, bredMuts = 0;
  void selected(long n) {
    survived = n;
    bredPairs = bredMuts = 0;
  }
  uint64_t initCalls = 0;
  void reset() {
    for (uint32_t i = 0; i < std::min(n + 1, MAXID); i++) evals[i] = 0;
    born.assign(1, {});
    origin.assign(1, 0);
    n = 1;
    pairs.clear();
    muts.clear();
    badVar = 0;
    evalCalls = 0;
    badArgs = 0;
    initCalls = 0;
    selected(-1);
  }
  uint32_t create(const std::array<double, DIM>& x, int o) {
    if (n >= MAXID) {
      fprintf(stderr, "registry full\n");
      _exit(9);
    }
    born.push_back(x);
    origin.push_back(uint8_t(o));
    evals[n] = 0;
    return n++;
  }
};
inline Registry& reg() {
  static Registry r;
  return r;
}
inline Rng& cbRng() {
  static Rng r(1);
  return r;
}

struct Ctx {
  int land = 0;
  int objs = 2;
  double lo = -2, hi = 2;
  uint64_t magic = 0xC0FFEE;
};

constexpr int NLAND = 13;
inline const char* landName(int l) {
  static const char* n[] = {"sphere", "rastrigin", "constant", "plateau", "negative", "huge", "outlier", "ties", "tiny", "mixed", "colossal", "penalty", "outliers"};
  return n[l % NLAND];
}
// pure function of the decision variable
inline double landscape(int land, const std::array<double, DIM>& x) {
  double s = 0;
  for (double d : x) s += d * d;
  switch (land % NLAND) {
    case 0:
      return s;
    case 1: {
      double r = 0;
      for (double d : x) r += d * d + 3 * (1 - std::cos(6 * d));
      return r;
    }
    case 2:
      return 4.25;
    case 3:
      return std::floor(x[0]) + 2;
    case 4:
      return -1000.0 - s;
    case 5:
      return 1e290 * (x[0] + x[1]);
    case 6:
      return x[0] > 1.9 ? 1e12 : (x[0] < -1.9 ? -1e12 : s);
    case 7:
      return std::round(x[0] * 0.7);
    case 8:
      return 1.0 + 1e-15 * std::round(x[1] * 4);
    case 9:
      return x[0] * x[1] - x[2];
    case 10:  // differences, let alone sums, exceed the maximum of double
      return 1.7e308 * std::tanh(x[0] + x[1]);
    case 11:  // forbidden regions
      return x[0] > 1.2 ? INFINITY : (x[1] > 1.2 ? -INFINITY : s);
    default:
      return x[0] > 1 ? -1e20 * x[0] : (x[0] < -1 ? -1e20 * x[0] : s);
  }
}

inline void iFun(Ind* v, const Ctx* c) {
  Rng& r = cbRng();
  for (double& d : v->x) d = r.d(c->lo, c->hi);
  if (c->magic != 0xC0FFEE) reg().badArgs++;
  v->id = reg().create(v->x, 0);
  reg().initCalls++;
}
// note every evaluation; thread-safe
inline void noteEval(const Ind* v, const Ctx* c) {
  Registry& g = reg();
  g.evalCalls++;
  if (c->magic != 0xC0FFEE) g.badArgs++;
  if (v->id == 0 || v->id >= g.n || g.born[v->id] != v->x) {
    g.badVar++;
    return;
  }
  auto& e = g.evals[v->id];
  uint8_t old = e.fetch_add(1);
  if (old >= 250) e = 250;
}
inline void fFun1(const Ind* v, const Ctx* c, double* f) {
  noteEval(v, c);
  *f = landscape(c->land, v->x);
}
inline void cFun(const Ind* p1, const Ind* p2, Ind* c1, Ind* c2, const Ctx* c) {
  Rng& r = cbRng();
  if (c->magic != 0xC0FFEE) reg().badArgs++;
  for (int i = 0; i < DIM; i++) {
    if (r.coin()) {
      c1->x[i] = p1->x[i];
      c2->x[i] = p2->x[i];
    } else {
      c1->x[i] = p2->x[i];
      c2->x[i] = p1->x[i];
    }
  }
  c1->id = reg().create(c1->x, 1);
  c2->id = reg().create(c2->x, 1);
  reg().bredPairs++;
  reg().pairs.push_back({p1->id, p2->id, c1->id, c2->id, p1, p2, c1, c2});
}
inline void mFun(const Ind* src, Ind* dst, const Ctx* c) {
  Rng& r = cbRng();
  if (c->magic != 0xC0FFEE) reg().badArgs++;
  dst->x = src->x;
  if (r.coin(0.9)) {
    int i = int(r.range(0, DIM - 1));
    dst->x[i] = std::min(c->hi, std::max(c->lo, dst->x[i] + r.d(-0.4, 0.4)));
  }
  dst->id = reg().create(dst->x, 2);
  reg().bredMuts++;
  reg().muts.push_back({src->id, dst->id, src, dst});
}

// aggregated shares for the probability part of C07
struct Shares {
  double trials = 0, hits = 0, slack = 0, var = 0, expect = 0;
  void add(double n, double h, double p, double sl) {
    trials += n;
    hits += h;
    expect += n * p;
    var += n * p * (1 - p);
    slack += sl;
  }
};
inline Shares& crossShare() {
  static Shares s;
  return s;
}
inline Shares& mutShare() {
  static Shares s;
  return s;
}

template <class Gene>
struct Snap {
  const Gene* g;
  uint32_t id;
  uint64_t xh, fh;
  bool computed;
};
template <class F>
inline uint64_t hashF(const F& f) {
  if constexpr (std::is_arithmetic_v<F>)
    return bits(double(f));
  else {
    uint64_t h = 3;
    for (int i = 0; i < int(f.size()); i++) h = mix(h, bits(f[i]));
    return h;
  }
}
template <class List>
auto snapshot(const List& pop, bool withFitness = true) {
  using Gene = typename List::value_type;
  std::vector<Snap<Gene>> v;
  v.reserve(pop.size());
  for (const Gene& g : pop)
    v.push_back({&g, g.decision_variable.id, hashX(g.decision_variable),
                 (withFitness && g.is_fitness_computed) ? hashF(g.fitness) : 0, g.is_fitness_computed});
  return v;
}

// "everybody of `before` is still there, in place in memory, bit-identical"
template <class Gene, class List>
bool keptAll(const std::vector<Snap<Gene>>& before, const List& pop, const char* what) {
  std::map<const Gene*, int> alive;
  for (const Gene& g : pop) alive[&g]++;
  bool ok = true;
  std::map<std::pair<uint32_t, uint64_t>, int> cnt;
  for (const Gene& g : pop) cnt[{g.decision_variable.id, hashX(g.decision_variable)}]++;
  for (auto& s : before) {
    auto& c = cnt[{s.id, s.xh}];
    if (c <= 0) {
      violation(std::string("C07/lost-or-changed-") + what, fmt("individual %u present before %s is gone or altered", s.id, what));
      ok = false;
      continue;
    }
    c--;
  }
  // fitness of the ones that were there must be untouched too
  std::multimap<uint32_t, const Gene*> byId;
  for (const Gene& g : pop) byId.emplace(g.decision_variable.id, &g);
  for (auto& s : before) {
    auto r = byId.equal_range(s.id);
    bool any = false;
    for (auto it = r.first; it != r.second; ++it)
      if (it->second->is_fitness_computed == s.computed && (!s.computed || hashF(it->second->fitness) == s.fh)) any = true;
    if (r.first != r.second && !any) {
      violation(std::string("C07/fitness-touched-") + what, fmt("individual %u lost or changed its fitness in %s", s.id, what));
      ok = false;
    }
  }
  return ok;
}

template <class Solver, class BaseCall>
void monitorCrossover(Solver& s, BaseCall call) {
  auto before = snapshot(s.population());
  reg().pairs.clear();
  reg().muts.clear();
  const uint32_t n0 = reg().n;
  call();
  auto& pr = reg().pairs;
  const auto& pop = s.population();
  const size_t N = before.size();
  HV_CHECK(reg().muts.empty(), "C07/mutation-in-crossover", "mutation called during crossover");
  keptAll(before, pop, "crossover");
  HV_CHECK(pop.size() == N + 2 * pr.size(), "C07/crossover-count", "%zu pairs but %zu children appended", pr.size(), pop.size() - N);
  std::map<uint32_t, int> have, used;
  std::set<const void*> usedAddr;
  for (auto& b : before) have[b.id]++;
  for (auto& p : pr) {
    used[p.p1]++;
    used[p.p2]++;
    HV_CHECK(usedAddr.insert(p.ap1).second && usedAddr.insert(p.ap2).second, "C07/parent-reused",
             "the same individual took part in two pairs or was paired with itself");
    HV_CHECK(p.ac1 != p.ac2 && p.ac1 != p.ap1 && p.ac1 != p.ap2 && p.ac2 != p.ap1 && p.ac2 != p.ap2, "C07/aliased-child",
             "children alias each other or their parents");
  }
  for (auto& u : used)
    HV_CHECK(have.count(u.first) && u.second <= have[u.first], "C07/parent-not-member", "parent %u is not (that often) a member", u.first);
  // the appended ones are exactly the children, each with its own values and without fitness
  std::map<uint32_t, int> kids;
  for (uint32_t i = n0; i < reg().n; i++) kids[i] = 0;
  for (auto& g : pop) {
    auto it = kids.find(g.decision_variable.id);
    if (it == kids.end()) continue;
    it->second++;
    HV_CHECK(reg().born[it->first] == g.decision_variable.x, "C07/child-altered", "child %u altered after crossover", it->first);
    HV_CHECK(!g.is_fitness_computed, "C05/child-marked-evaluated", "child %u marked as evaluated before its evaluation", it->first);
  }
  for (auto& k : kids) HV_CHECK(k.second == 1, "C07/child-count", "child %u appears %d times", k.first, k.second);
  const double p = s.option().crossoverProb;
  if (p >= 1) HV_CHECK(pr.size() == N / 2, "C07/prob-one-crossover", "probability 1 but %zu pairs from %zu", pr.size(), N);
  if (p <= 0) HV_CHECK(pr.size() == 0, "C07/prob-zero-crossover", "probability 0 but %zu pairs from %zu", pr.size(), N);
  count("crossover_pairs", pr.size());
}

template <class Solver, class BaseCall>
void monitorMutation(Solver& s, BaseCall call) {
  auto before = snapshot(s.population());
  reg().pairs.clear();
  reg().muts.clear();
  const uint32_t n0 = reg().n;
  call();
  auto& mu = reg().muts;
  const auto& pop = s.population();
  const size_t N = before.size();
  HV_CHECK(reg().pairs.empty(), "C07/crossover-in-mutation", "crossover called during mutation");
  keptAll(before, pop, "mutation");
  HV_CHECK(pop.size() == N + mu.size(), "C07/mutation-count", "%zu mutations but %zu appended", mu.size(), pop.size() - N);
  std::map<uint32_t, int> have, used;
  std::set<const void*> usedAddr;
  for (auto& b : before) have[b.id]++;
  for (auto& m : mu) {
    used[m.src]++;
    HV_CHECK(usedAddr.insert(m.asrc).second, "C07/mutated-twice", "an individual was mutated twice in one step");
    HV_CHECK(m.asrc != m.adst, "C07/aliased-mutant", "mutant aliases its source");
  }
  for (auto& u : used)
    HV_CHECK(have.count(u.first) && u.second <= have[u.first], "C07/source-not-member", "source %u is not a member", u.first);
  std::map<uint32_t, int> kids;
  for (uint32_t i = n0; i < reg().n; i++) kids[i] = 0;
  for (auto& g : pop) {
    auto it = kids.find(g.decision_variable.id);
    if (it == kids.end()) continue;
    it->second++;
    HV_CHECK(reg().born[it->first] == g.decision_variable.x, "C07/mutant-altered", "mutant %u altered", it->first);
    HV_CHECK(!g.is_fitness_computed, "C05/mutant-marked-evaluated", "mutant %u marked as evaluated before its evaluation", it->first);
  }
  for (auto& k : kids) HV_CHECK(k.second == 1, "C07/mutant-count", "mutant %u appears %d times", k.first, k.second);
  const double p = s.option().mutateProb;
  if (p >= 1) HV_CHECK(mu.size() == N, "C07/prob-one-mutation", "probability 1 but %zu mutants from %zu", mu.size(), N);
  if (p <= 0) HV_CHECK(mu.size() == 0, "C07/prob-zero-mutation", "probability 0 but %zu mutants from %zu", mu.size(), N);
  count("mutants", mu.size());
}

// when a generation is evaluated: both breeding steps were made on the survivors of the last selection
template <class Solver>
void checkBreeding(Solver& s) {
  Registry& r = reg();
  if (r.survived < 0) {
    HV_CHECK(r.bredPairs == 0 && r.bredMuts == 0, "C07/bred-before-start", "%zu pairs and %zu mutants before the first generation was evaluated", r.bredPairs, r.bredMuts);
    r.selected(-1);
    return;
  }
  const size_t N = size_t(r.survived), M = N + 2 * r.bredPairs;
  const double pc = s.option().crossoverProb, pm = s.option().mutateProb;
  HV_CHECK(s.population().size() == M + r.bredMuts, "C07/generation-size", "%zu survivors, %zu pairs and %zu mutants, but a generation of %zu", N, r.bredPairs, r.bredMuts,
           size_t(s.population().size()));
  if (pc >= 1) HV_CHECK(r.bredPairs == N / 2, "C07/generation-crossover", "probability 1 but %zu pairs from %zu survivors", r.bredPairs, N);
  if (pm >= 1) HV_CHECK(r.bredMuts == M, "C07/generation-mutation", "probability 1 but %zu mutants from %zu", r.bredMuts, M);
  if (!eng::hostileRun()) {
    if (pc > 0 && pc < 1) crossShare().add(double(N), 2.0 * double(r.bredPairs), pc, 1.0);
    if (pm > 0 && pm < 1) mutShare().add(double(M), double(r.bredMuts), pm, 0.0);
  }
  count("generations_bred");
}

inline void checkShares() {
  for (int k = 0; k < 2; k++) {
    Shares& s = k ? mutShare() : crossShare();
    if (s.trials < 2000) continue;
    // crossover drops the odd one of every step: on average half of the slack
    double mid = s.expect - s.slack / 2;
    double tol = 8 * std::sqrt(s.var + s.slack / 4 + 1) + s.slack * 0.06;
    HV_CHECK(std::fabs(s.hits - mid) <= tol, k ? "C07/mutation-share" : "C07/crossover-share",
             "of %.0f individuals %.0f were chosen, expected %.0f +- %.0f", s.trials, s.hits, mid, tol);
    count(k ? "mutation_trials" : "crossover_trials", uint64_t(s.trials));
  }
}

// C05: what the stored fitness of every member must be
template <class Solver, class Fit>
void checkEvaluated(Solver& s, Fit fit, const char* when) {
  for (auto& g : s.population()) {
    const uint32_t id = g.decision_variable.id;
    HV_CHECK(g.is_fitness_computed, "C05/unevaluated", "individual %u reaches %s without fitness", id, when);
    if (id == 0 || id >= reg().n) {
      violation("C05/unknown-individual", fmt("individual %u was never created", id));
      continue;
    }
    HV_CHECK(reg().evals[id] == 1, "C05/eval-count", "individual %u evaluated %d times at %s", id, int(reg().evals[id]), when);
    HV_CHECK(fit(g), "C05/stale", "individual %u has a fitness that is not its own at %s", id, when);
  }
  HV_CHECK(reg().badVar == 0, "C05/foreign-variable", "fitness called on a variable that is no created individual's");
  HV_CHECK(reg().badArgs == 0, "C05/args", "callback got wrong args");
}

struct Limits {
  size_t pop, maxGen, maxFail;
  double pc, pm;
};
// a generation limit that nobody means to reach, the run is stopped by its fail times
template <class Opt>
inline void unreachableLimit(Opt& o, Rng& rng) {
  const size_t l = rng.pick(std::vector<size_t>{size_t(1) << 40, size_t(1e15), ~size_t(0) - 1});
  if constexpr (requires { o.maxGenerations; }) o.maxGenerations = l;
  else o.maxGeneration = l;
}
inline heu::GAOption randomOption(Rng& rng, int minPop, int maxPop, int maxGen) {
  heu::GAOption o;
  o.populationSize = size_t(rng.coin(0.15) ? minPop : rng.coin(0.03) ? rng.range(maxPop, 5 * maxPop) : rng.range(minPop, maxPop));
  static const std::vector<double> pcs{0, 0.2, 0.5, 0.8, 0.8, 1.0, 1.0}, pms{0, 0.05, 0.3, 0.6, 1.0};
  o.crossoverProb = rng.pick(pcs);
  o.mutateProb = rng.pick(pms);
  o.maxGenerations = size_t(rng.coin(0.1) ? 0 : rng.range(1, maxGen));
  static const std::vector<size_t> mf{0, 0, 1, 2, 3, 5, 50};
  o.maxFailTimes = rng.pick(mf);
  // now and then sizes far from the usual ones
  static int drawn = 0;
  if (++drawn % 300 == 5) {
    o.populationSize = size_t(rng.pick(std::vector<int>{257, 300, 513, 700}) * maxGen / 10 + rng.range(0, 9));
    o.maxGenerations = size_t(rng.range(1, 3));
    count("runs_with_hundreds_of_individuals");
  } else if (drawn % 300 == 11) {
    o.populationSize = size_t(rng.range(std::max(2, minPop), 8));
    o.maxGenerations = size_t(rng.range(130, 300));
    o.maxFailTimes = rng.coin() ? 0 : 270;
    if (o.crossoverProb + o.mutateProb == 0) o.crossoverProb = 0.8;
    count("runs_with_hundreds_of_generations");
  }
  return o;
}
}  // namespace hv
