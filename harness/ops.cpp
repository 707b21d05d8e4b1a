// C08: the default genetic operators obey their gene algebra.
#include "boxgen.hpp"
#include <HeuristicFlow/Genetic>
using namespace bx;
using heu::BoxShape;
using heu::DivCode;
using heu::DivEncode;
#ifndef OP_GROUP
#define OP_GROUP 0
#endif

struct Cfg {};  // an Args type that is no box

template <class V>
V parent(Rng& rng, int n) {
  V v;
  shape(v, n, 1);
  using T = typename VT<V>::T;
  for (int i = 0; i < n; i++) {
    if constexpr (std::is_same_v<T, bool>) put(v, i, rng.coin());
    else if constexpr (std::is_integral_v<T>) put(v, i, T(rng.range(0, 100)));
    else {
      int k = int(rng.range(0, 9));
      double x = k == 0 ? 0.0 : k == 1 ? rng.d(-1e8, 1e8) : k == 2 ? rng.d(-1e-8, 1e-8) : k == 3 ? double(rng.range(-3, 3)) : rng.d(-10, 10);
      put(v, i, T(x));
    }
  }
  return v;
}
// what a child holds before the call: nothing, or something of another size for dynamic containers
template <class V>
V garbage(Rng& rng, int n, bool sized) {
  V v;
  if (sized) shape(v, n, 1);
  else if (rng.coin()) shape(v, int(rng.range(1, 12)), 1);
  if constexpr (!std::is_same_v<typename VT<V>::T, bool>)
    for (int i = 0; i < int(v.size()); i++) put(v, i, typename VT<V>::T(111));
  return v;
}
template <class V>
bool equal(const V& a, const V& b) {
  if (int(a.size()) != int(b.size())) return false;
  for (int i = 0; i < int(a.size()); i++)
    if (!(get(a, i) == get(b, i))) return false;
  return true;
}
template <class V>
int dimOf(Rng& rng) {
  if constexpr (VT<V>::fixed) {
    V v;
    return int(v.size());
  } else
    return rng.coin(0.15) ? 1 : rng.coin(0.03) ? int(rng.range(60, 400)) : int(rng.range(1, 40));
}
template <class V>
bool sizesOk(const V& c1, const V& c2, int n, const char* key, const char* name) {
  HV_CHECK(int(c1.size()) == n && int(c2.size()) == n, key, "%s: children have %d and %d elements, parents %d", name, int(c1.size()), int(c2.size()), n);
  return int(c1.size()) == n && int(c2.size()) == n;
}

// ---- arithmetic crossover ----
template <class V, class F>
void arith(Rng& rng, const char* name, double r, bool sized, F f, int rounds) {
  beginCase(fmt("%s ratio %g", name, r));
  uint64_t sig = 1;
  for (int k = 0; k < rounds; k++) {
    const int n = dimOf<V>(rng);
    const V p1 = parent<V>(rng, n), p2 = parent<V>(rng, n);
    V a = p1, b = p2, c1 = garbage<V>(rng, n, sized), c2 = garbage<V>(rng, n, sized);
    f(&a, &b, &c1, &c2);
    count("crossovers");
    HV_CHECK(equal(a, p1) && equal(b, p2), "C08/arith-parents", "%s changed a parent", name);
    if (!sizesOk(c1, c2, n, "C08/arith-size", name)) return;
    const double rel = sizeof(typename VT<V>::T) == 4 ? 4e-7 : 1e-15;
    for (int i = 0; i < n; i++) {
      const double x = double(get(p1, i)), y = double(get(p2, i));
      const double tol = 4 * rel * (std::fabs(x) + std::fabs(y)) + 1e-300;
      const double e1 = r * x + (1 - r) * y, e2 = r * y + (1 - r) * x;
      HV_CHECK(std::fabs(double(get(c1, i)) - e1) <= tol, "C08/arith-c1", "%s: child 1 element %d of (%g,%g) is %g, not %g", name, i, x, y, double(get(c1, i)), e1);
      HV_CHECK(std::fabs(double(get(c2, i)) - e2) <= tol, "C08/arith-c2", "%s: child 2 element %d of (%g,%g) is %g, not %g", name, i, x, y, double(get(c2, i)), e2);
      sig = mix(sig, bits(double(get(c1, i))));
    }
    observed(sig);
  }
}
// ---- one point swap ----
template <class V, class F>
void swapOp(Rng& rng, const char* name, bool sized, F f, int rounds) {
  using T = typename VT<V>::T;
  beginCase(name);
  std::map<int, std::set<int>> cuts;
  std::map<int, int> calls;
  for (int k = 0; k < rounds; k++) {
    const int n = dimOf<V>(rng);
    V p1 = parent<V>(rng, n), p2 = p1;
    if constexpr (std::is_same_v<T, bool>)
      for (int i = 0; i < n; i++) put(p2, i, !get(p1, i));
    else
      for (int i = 0; i < n; i++) {
        put(p1, i, T(i * 2 + 1));
        put(p2, i, T(i * 2 + 2));
      }
    V a = p1, b = p2, c1 = garbage<V>(rng, n, sized), c2 = garbage<V>(rng, n, sized);
    f(&a, &b, &c1, &c2);
    count("crossovers");
    HV_CHECK(equal(a, p1) && equal(b, p2), "C08/swap-parents", "%s changed a parent", name);
    if (!sizesOk(c1, c2, n, "C08/swap-size", name)) return;
    int cut = 0;
    while (cut < n && get(c1, cut) == get(p1, cut)) cut++;
    bool ok = true;
    for (int i = 0; i < n; i++) {
      ok = ok && get(c1, i) == get(i < cut ? p1 : p2, i) && get(c2, i) == get(i < cut ? p2 : p1, i);
    }
    HV_CHECK(ok, "C08/swap", "%s: children of %d elements are not the parents exchanged behind one cut (first differs at %d)", name, n, cut);
    calls[n]++;
    cuts[n].insert(cut);
    observed(mix(uint64_t(n), uint64_t(cut)));
  }
  for (auto& c : calls)
    if (c.first >= 2 && c.second >= 60)
      HV_CHECK(cuts[c.first].size() >= 2, "C08/swap-constant", "%s: %d calls with %d elements always cut at %d", name, c.second, c.first, *cuts[c.first].begin());
}
// ---- random crossover ----
template <class V, class F>
void randOp(Rng& rng, const char* name, double p, bool sized, F f, int rounds) {
  using T = typename VT<V>::T;
  beginCase(fmt("%s probability %g", name, p));
  uint64_t n1 = 0, n2 = 0, tot = 0, pairs = 0, same1 = 0, both = 0, sig = 3;
  for (int k = 0; k < rounds; k++) {
    const int n = dimOf<V>(rng);
    V p1 = parent<V>(rng, n), p2 = p1;
    if constexpr (std::is_same_v<T, bool>)
      for (int i = 0; i < n; i++) put(p2, i, !get(p1, i));
    else
      for (int i = 0; i < n; i++) {
        put(p1, i, T(i * 2 + 1));
        put(p2, i, T(i * 2 + 2));
      }
    V a = p1, b = p2, c1 = garbage<V>(rng, n, sized), c2 = garbage<V>(rng, n, sized);
    f(&a, &b, &c1, &c2);
    count("crossovers");
    HV_CHECK(equal(a, p1) && equal(b, p2), "C08/rand-parents", "%s changed a parent", name);
    if (!sizesOk(c1, c2, n, "C08/rand-size", name)) return;
    bool last = false;
    for (int i = 0; i < n; i++) {
      const bool f1 = get(c1, i) == get(p1, i), g1 = get(c1, i) == get(p2, i);
      const bool f2 = get(c2, i) == get(p2, i), g2 = get(c2, i) == get(p1, i);
      HV_CHECK(f1 || g1, "C08/rand-source", "%s: element %d of child 1 comes from no parent", name, i);
      HV_CHECK(f2 || g2, "C08/rand-source", "%s: element %d of child 2 comes from no parent", name, i);
      tot++;
      n1 += f1;
      n2 += f2;
      both += f1 && f2;
      if (i) {
        pairs++;
        same1 += f1 == last;
      }
      last = f1;
      sig = mix(sig, uint64_t(f1) * 2 + f2);
    }
    observed(sig);
  }
  auto within = [&](uint64_t k, uint64_t n, double q) { return std::fabs(double(k) - n * q) <= 8 * std::sqrt(n * q * (1 - q)) + 1; };
  HV_CHECK(within(n1, tot, p), "C08/rand-share", "%s: child 1 took %llu of %llu elements from parent 1, probability is %g", name, (unsigned long long)n1, (unsigned long long)tot, p);
  HV_CHECK(within(n2, tot, p), "C08/rand-share", "%s: child 2 took %llu of %llu elements from parent 2, probability is %g", name, (unsigned long long)n2, (unsigned long long)tot, p);
  // neighbouring elements are drawn independently
  if (pairs) HV_CHECK(within(same1, pairs, p * p + (1 - p) * (1 - p)), "C08/rand-dependent", "%s: %llu of %llu neighbouring elements have the same source", name, (unsigned long long)same1, (unsigned long long)pairs);
}

#define NAME(x, V) #x "<" #V ">"
#define RATIO(FN, V, A, B, SIZED, n)                                                                                                              \
  arith<V>(rng, NAME(FN, V), double(A) / double(B), SIZED, [](const V* a, const V* b, V* c, V* d) { heu::GADefaults<V>::template FN<DivEncode<A, B>::code>(a, b, c, d); }, n); \
  { Cfg cfg; arith<V>(rng, NAME(FN+Args, V), double(A) / double(B), SIZED, [&](const V* a, const V* b, V* c, V* d) { heu::GADefaults<V, Cfg>::template FN<DivEncode<A, B>::code>(a, b, c, d, &cfg); }, n); }
#define DEFRATIO(FN, V, SIZED, n) \
  arith<V>(rng, NAME(FN, V), 0.2, SIZED, [](const V* a, const V* b, V* c, V* d) { heu::GADefaults<V>::template FN<>(a, b, c, d); }, n);
#define ARITH(FN, V, SIZED, n) RATIO(FN, V, 1, 5, SIZED, n) RATIO(FN, V, 1, 2, SIZED, n) RATIO(FN, V, 9, 10, SIZED, n) RATIO(FN, V, 3, 7, SIZED, n) DEFRATIO(FN, V, SIZED, n)
#define SWAP(FN, V, SIZED, n)                                                                                                   \
  swapOp<V>(rng, NAME(FN, V), SIZED, [](const V* a, const V* b, V* c, V* d) { heu::GADefaults<V>::FN(a, b, c, d); }, n);       \
  { Cfg cfg; swapOp<V>(rng, NAME(FN+Args, V), SIZED, [&](const V* a, const V* b, V* c, V* d) { heu::GADefaults<V, Cfg>::FN(a, b, c, d, &cfg); }, n); }
#define RPROB(FN, V, A, B, SIZED, n)                                                                                                              \
  randOp<V>(rng, NAME(FN, V), double(A) / double(B), SIZED, [](const V* a, const V* b, V* c, V* d) { heu::GADefaults<V>::template FN<DivEncode<A, B>::code>(a, b, c, d); }, n); \
  { Cfg cfg; randOp<V>(rng, NAME(FN+Args, V), double(A) / double(B), SIZED, [&](const V* a, const V* b, V* c, V* d) { heu::GADefaults<V, Cfg>::template FN<DivEncode<A, B>::code>(a, b, c, d, &cfg); }, n); }
#define RAND(FN, V, SIZED, n)                                                                                                    \
  RPROB(FN, V, 1, 2, SIZED, n) RPROB(FN, V, 1, 10, SIZED, n) RPROB(FN, V, 4, 5, SIZED, n)                                       \
  randOp<V>(rng, NAME(FN default, V), 0.5, SIZED, [](const V* a, const V* b, V* c, V* d) { heu::GADefaults<V>::template FN<>(a, b, c, d); }, n);

using A1d = std::array<double, 1>;
using A5d = std::array<double, 5>;
using A30f = std::array<float, 30>;
using A8i = std::array<int, 8>;
using A12b = std::array<bool, 12>;
using Vd = std::vector<double>;
using Vf = std::vector<float>;
using Vi = std::vector<int>;
using Vu = std::vector<uint8_t>;
using Vb = std::vector<bool>;
using E5d = Eigen::Array<double, 5, 1>;
using E1d = Eigen::Array<double, 1, 1>;
using M7d = Eigen::Matrix<double, 7, 1>;
using R4d = Eigen::Array<double, 1, 4>;
using E20f = Eigen::Array<float, 20, 1>;
using E6i = Eigen::Array<int, 6, 1>;
using E9b = Eigen::Array<bool, 9, 1>;
using EXd = Eigen::ArrayXd;
using VXd = Eigen::VectorXd;
using RXd = Eigen::RowVectorXd;
using EXf = Eigen::ArrayXf;
using EXi = Eigen::ArrayXi;

#if OP_GROUP == 0
HV_PART(ops_arith_std) {
  const int n = scale(150);
  ARITH(cFunNd, A1d, true, n)
  ARITH(cFunNd, A5d, true, n)
  ARITH(cFunNd, A30f, true, n)
  ARITH(cFunNd, Vd, true, n)
  ARITH(cFunXd, Vd, false, n)
  ARITH(cFunXd, Vf, false, n)
}
HV_PART(ops_swap_std) {
  const int n = scale(400);
  SWAP(cFunSwapNs, A1d, true, n)
  SWAP(cFunSwapNs, A5d, true, n)
  SWAP(cFunSwapNs, A8i, true, n)
  SWAP(cFunSwapNs, A12b, true, n)
  SWAP(cFunSwapXs, Vd, false, 4 * n)
  SWAP(cFunSwapXs, Vi, false, 4 * n)
  SWAP(cFunSwapXs, Vb, false, 4 * n)
  SWAP(cFunSwapXs, Vu, false, 4 * n)
}
HV_PART(ops_rand_std) {
  const int n = scale(300);
  RAND(cFunRandNs, A1d, true, 4 * n)
  RAND(cFunRandNs, A5d, true, n)
  RAND(cFunRandNs, A8i, true, n)
  RAND(cFunRandNs, A12b, true, n)
  RAND(cFunRandXs, Vd, false, n)
  RAND(cFunRandXs, Vi, false, n)
  RAND(cFunRandXs, Vb, false, n)
  RAND(cFunRandXs, Vu, false, n)
}
#elif OP_GROUP == 1
HV_PART(ops_arith_eigen) {
  const int n = scale(150);
  ARITH(cFunNd, E1d, true, n)
  ARITH(cFunNd, E5d, true, n)
  ARITH(cFunNd, M7d, true, n)
  ARITH(cFunNd, R4d, true, n)
  ARITH(cFunNd, E20f, true, n)
  ARITH(cFunXd, EXd, false, n)
  ARITH(cFunXd, VXd, false, n)
  ARITH(cFunXd, RXd, false, n)
  ARITH(cFunXd, EXf, false, n)
}
HV_PART(ops_swap_eigen) {
  const int n = scale(400);
  SWAP(cFunSwapNs, E1d, true, n)
  SWAP(cFunSwapNs, E5d, true, n)
  SWAP(cFunSwapNs, R4d, true, n)
  SWAP(cFunSwapNs, E6i, true, n)
  SWAP(cFunSwapNs, E9b, true, n)
  SWAP(cFunSwapXs, EXd, false, 4 * n)
  SWAP(cFunSwapXs, RXd, false, 4 * n)
  SWAP(cFunSwapXs, EXi, false, 4 * n)
}
HV_PART(ops_rand_eigen) {
  const int n = scale(300);
  RAND(cFunRandNs, E1d, true, 4 * n)
  RAND(cFunRandNs, E5d, true, n)
  RAND(cFunRandNs, E6i, true, n)
  RAND(cFunRandNs, E9b, true, n)
  RAND(cFunRandXs, EXd, false, n)
  RAND(cFunRandXs, VXd, false, n)
  RAND(cFunRandXs, EXi, false, n)
}
#elif OP_GROUP == 2
// ---- initialization without a box ----
template <class V, class F>
void initOp(Rng& rng, const char* name, double lo, double hi, F f, int rounds) {
  beginCase(name);
  double sum = 0;
  uint64_t N = 0, sig = 0;
  double mn = 1e300, mx = -1e300;
  for (int k = 0; k < rounds; k++) {
    V v;
    shape(v, dimOf<V>(rng), 1);
    for (int i = 0; i < int(v.size()); i++) put(v, i, typename VT<V>::T(1e9));
    const int n = int(v.size());
    f(&v);
    count("initializations");
    HV_CHECK(int(v.size()) == n, "C08/init-size", "%s: size changed", name);
    for (int i = 0; i < int(v.size()); i++) {
      const double x = double(get(v, i));
      HV_CHECK(x >= lo && x <= hi, "C08/init-range", "%s: element %d is %.17g", name, i, x);
      sum += (x - lo) / (hi - lo);
      mn = std::min(mn, x);
      mx = std::max(mx, x);
      N++;
      sig = mix(sig, bits(x));
    }
    observed(sig);
  }
  HV_CHECK(std::fabs(sum / N - 0.5) <= 8 * std::sqrt(1.0 / 12 / N), "C08/init-spread", "%s: mean of %llu elements is at %g of the range", name, (unsigned long long)N, sum / N);
  HV_CHECK((mn - lo) / (hi - lo) < 0.2 && (hi - mx) / (hi - lo) < 0.2, "C08/init-spread", "%s: %llu elements only cover [%g,%g]", name, (unsigned long long)N, mn, mx);
}
#define INIT(V, lo, lon, lod, hi, hin, hid)                                                                                                                  \
  initOp<V>(rng, "iFunNd<" #V "," #lo "," #hi ">", lo, hi, [](V* v) { heu::GADefaults<V>::template iFunNd<DivEncode<lon, lod>::code, DivEncode<hin, hid>::code>(v); }, n); \
  initOp<V>(rng, "iFunNf<" #V "," #lo "," #hi ">", lo, hi, [](V* v) { heu::GADefaults<V>::template iFunNf<DivEncode<lon, lod>::code, DivEncode<hin, hid>::code>(v); }, n);
#define INIT_ALL(V)                                                                               \
  initOp<V>(rng, "iFunNd<" #V ">", 0, 1, [](V* v) { heu::GADefaults<V>::template iFunNd<>(v); }, n); \
  INIT(V, 0.25, 1, 4, 0.75, 3, 4) INIT(V, 0.0, 0, 1, 10.0, 10, 1) INIT(V, -5.0, -5, 1, 5.0, 5, 1)
HV_PART(ops_init) {
  const int n = scale(200);
  INIT_ALL(A1d)
  INIT_ALL(A5d)
  INIT_ALL(A30f)
  INIT_ALL(Vd)
  INIT_ALL(E5d)
  INIT_ALL(EXd)
  INIT_ALL(E20f)
}
// ---- operators with a box ----
template <class B, class V>
void boxOps(Rng& rng, const B& b, const Spec<V>& s, int rounds) {
  using D = heu::GADefaults<V, B>;
  using T = typename VT<V>::T;
  const char* w = s.what.c_str();
  auto inside = [&](const V& v, const char* key, const char* what) {
    bool ok = int(v.size()) == s.n && (!VT<V>::mat || rows(v) == s.r);
    for (int i = 0; ok && i < s.n; i++) ok = get(v, i) >= s.lo[i] && get(v, i) <= s.hi[i];
    HV_CHECK(ok, key, "%s: %s left the box", w, what);
    return ok;
  };
  uint64_t sig = 9;
  std::map<std::pair<int, long double>, int> reached;
  for (int k = 0; k < rounds; k++) {
    V v;
    if (rng.coin()) shape(v, VT<V>::mat ? 2 : 3, VT<V>::mat ? 3 : 1);
    D::template iFun<>(&v, &b);
    count("initializations");
    if (!inside(v, "C08/box-init", "iFun")) return;
    const V p = randomInside(rng, s);
    V src = p, dst;
    if (rng.coin()) shape(dst, VT<V>::mat ? 2 : 3, VT<V>::mat ? 3 : 1);
    D::template mFun<>(&src, &dst, &b);
    count("mutations");
    HV_CHECK(equal(src, p), "C08/mut-parent", "%s: mFun changed its parent", w);
    if (!inside(dst, "C08/mut-range", "mFun")) return;
    int ch = 0;
    for (int i = 0; i < s.n; i++)
      if (!(get(dst, i) == get(p, i))) {
        ch++;
        sig = mix(sig, uint64_t(i));
        if (!s.delta.empty())
          HV_CHECK(std::fabs(double(get(dst, i)) - double(get(p, i))) <= double(s.delta[i]) * (1 + 1e-6) + 1e-6 * std::fabs(double(get(p, i))), "C08/mut-delta", "%s: mFun moved %g to %g",
                   w, double(get(p, i)), double(get(dst, i)));
      }
    HV_CHECK(ch <= 1, "C08/mut-one", "%s: mFun changed %d elements", w, ch);
    if constexpr (std::is_same_v<T, bool>) HV_CHECK(ch == 1, "C08/mut-flip", "%s: boolean mFun flipped %d elements", w, ch);
    if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) {
      V sd;
      D::template mFun_s<>(&src, &sd, &b);
      count("symbolic mutations");
      HV_CHECK(equal(src, p), "C08/sym-parent", "%s: mFun_s changed its parent", w);
      if (!inside(sd, "C08/sym-range", "mFun_s")) return;
      int c = 0;
      for (int i = 0; i < s.n; i++)
        if (get(sd, i) != get(p, i)) {
          c++;
          reached[{i, wide(get(sd, i))}]++;
          sig = mix(sig, uint64_t(get(sd, i)));
        }
      HV_CHECK(c == 1, "C08/sym-one", "%s: mFun_s changed %d elements", w, c);
    }
  }
  observed(sig);
  if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
    for (int i = 0; i < s.n; i++) {
      const uint64_t width = uint64_t(s.hi[i]) - uint64_t(s.lo[i]) + 1;
      if (width == 0 || width > 12 || uint64_t(rounds) < 60ull * s.n * width) continue;
      int got = 0;
      for (auto& r : reached) got += r.first.first == i;
      HV_CHECK(got == int(width), "C08/sym-reach", "%s: %d symbolic mutations reached %d of %d symbols of element %d", w, rounds, got, int(width), i);
    }
}
template <class V, BoxShape BS>
void disc(Rng& rng, const char* name, int n) {
  for (int k = 0; k < n; k++) {
    heu::DiscretBox<V, BS> b;
    Spec<V> s;
    dims(rng, s);
    fillRange(rng, s, BS == BoxShape::SQUARE_BOX);
    s.what = fmt("operators of DiscretBox %s %s [%s,%s]", name, list(s.r, s.c).c_str(), str(s.lo[0]).c_str(), str(s.hi[0]).c_str());
    beginCase(s.what);
    setDims(b, s);
    if constexpr (BS == BoxShape::SQUARE_BOX) setSquare(rng, b, s);
    else setRect(rng, b, s);
    boxOps(rng, b, s, rng.coin(0.3) ? 720 * s.n : 60);
  }
}
template <class V, BoxShape BS>
void cont(Rng& rng, const char* name, int n) {
  for (int k = 0; k < n; k++) {
    heu::ContinousBox<V, BS> b;
    Spec<V> s;
    dims(rng, s);
    fillRange(rng, s, BS == BoxShape::SQUARE_BOX);
    fillDelta(rng, s, BS == BoxShape::SQUARE_BOX);
    s.what = fmt("operators of ContinousBox %s %s [%s,%s] delta %s", name, list(s.r, s.c).c_str(), str(s.lo[0]).c_str(), str(s.hi[0]).c_str(), str(s.delta[0]).c_str());
    beginCase(s.what);
    setDims(b, s);
    if constexpr (BS == BoxShape::SQUARE_BOX) {
      setSquare(rng, b, s);
      b.setDelta(s.delta[0]);
    } else {
      setRect(rng, b, s);
      b.setDelta(vec(s, s.delta));
    }
    boxOps(rng, b, s, 60);
  }
}
HV_PART(ops_box_sym) {
  const int n = scale(10);
  disc<std::array<int, 4>, BoxShape::SQUARE_BOX>(rng, "square array<int,4>", n);
  disc<std::vector<int>, BoxShape::SQUARE_BOX>(rng, "square vector<int>", n);
  disc<std::vector<int8_t>, BoxShape::SQUARE_BOX>(rng, "square vector<int8_t>", n);
  disc<std::vector<uint8_t>, BoxShape::RECTANGLE_BOX>(rng, "rectangle vector<uint8_t>", n);
  disc<std::vector<int64_t>, BoxShape::RECTANGLE_BOX>(rng, "rectangle vector<int64_t>", n);
  disc<std::array<uint64_t, 3>, BoxShape::SQUARE_BOX>(rng, "square array<uint64_t,3>", n);
  disc<Eigen::Array<int, 5, 1>, BoxShape::RECTANGLE_BOX>(rng, "rectangle Array<int,5,1>", n);
  disc<Eigen::ArrayXi, BoxShape::SQUARE_BOX>(rng, "square ArrayXi", n);
  disc<Eigen::ArrayXXi, BoxShape::RECTANGLE_BOX>(rng, "rectangle ArrayXXi", n);
  disc<Eigen::Matrix<int, 2, 3>, BoxShape::SQUARE_BOX>(rng, "square Matrix<int,2,3>", n);
}
HV_PART(ops_box_bool) {
  const int n = scale(10);
  disc<std::array<bool, 10>, BoxShape::SQUARE_BOX>(rng, "array<bool,10>", n);
  disc<Eigen::Array<bool, Eigen::Dynamic, 1>, BoxShape::SQUARE_BOX>(rng, "ArrayX<bool>", n);
  disc<Eigen::Array<bool, 3, 3>, BoxShape::SQUARE_BOX>(rng, "Array<bool,3,3>", n);
}
HV_PART(ops_box_real) {
  const int n = scale(12);
  cont<std::array<double, 4>, BoxShape::SQUARE_BOX>(rng, "square array<double,4>", n);
  cont<std::vector<double>, BoxShape::RECTANGLE_BOX>(rng, "rectangle vector<double>", n);
  cont<std::vector<float>, BoxShape::SQUARE_BOX>(rng, "square vector<float>", n);
  cont<Eigen::ArrayXd, BoxShape::SQUARE_BOX>(rng, "square ArrayXd", n);
  cont<Eigen::Array<double, 5, 1>, BoxShape::RECTANGLE_BOX>(rng, "rectangle Array<double,5,1>", n);
  cont<Eigen::ArrayXXd, BoxShape::RECTANGLE_BOX>(rng, "rectangle ArrayXXd", n);
}
#elif OP_GROUP == 3
// ---- the operators as a solver uses them: everybody is always inside the box ----
template <class S, class B>
void inSolver(Rng& rng, const char* name, B b) {
  using V = typename B::Var_t;
  S s;
  heu::GAOption o;
  o.populationSize = size_t(rng.range(4, 20));
  o.maxGenerations = size_t(rng.range(1, 12));
  o.maxFailTimes = 0;
  o.crossoverProb = rng.u();
  o.mutateProb = rng.u();
  beginCase(fmt("SOGA with the default operators, %s, pop %d gen %d", name, int(o.populationSize), int(o.maxGenerations)));
  s.setOption(o);
  s.setArgs(b);
  s.initializePop();
  s.run();
  uint64_t sig = 0;
  for (auto& g : s.population()) {
    const V& v = g.decision_variable;
    bool ok = int(v.size()) == b.dimensions();
    for (int i = 0; ok && i < int(v.size()); i++) {
      // arithmetic crossover of values at the bounds may exceed them by rounding
      ok = double(get(v, i)) >= double(b.min(i)) - 1e-12 && double(get(v, i)) <= double(b.max(i)) + 1e-12;
      sig = mix(sig, std::hash<double>()(double(get(v, i))));
    }
    HV_CHECK(ok, "C08/solver-range", "%s: an individual of the final population is outside the box", name);
  }
  count("solver runs");
  observed(sig);
}
template <class V, class B>
void fit(const V* v, const B*, double* f) {
  *f = 0;
  for (int i = 0; i < int(v->size()); i++) *f += double(get(*v, i)) * double(i % 3 - 1);
}
template <class V, class B>
struct D : heu::GADefaults<V, B> {};
HV_PART(ops_solver) {
  using heu::SelectMethod;
  const int n = scale(60);
  for (int k = 0; k < n; k++) {
    {
      using V = std::array<double, 3>;
      using B = heu::ContinousBox<V, BoxShape::SQUARE_BOX>;
      using G = heu::GADefaults<V, B>;
      using S = heu::SOGA<V, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, SelectMethod::Truncation, B, G::iFun<>, fit<V, B>, G::cFunNd<>, G::mFun<>>;
      B b;
      b.setRange(-2, 3);
      b.setDelta(rng.d(0.01, 9));
      inSolver<S>(rng, "array<double,3> in a continous box", b);
    }
    {
      using V = std::vector<int>;
      using B = heu::DiscretBox<V, BoxShape::RECTANGLE_BOX>;
      using G = heu::GADefaults<V, B>;
      using S = heu::SOGA<V, heu::FITNESS_GREATER_BETTER, heu::RECORD_FITNESS, SelectMethod::RouletteWheel, B, G::iFun<>, fit<V, B>, G::cFunSwapXs, G::mFun_s<>>;
      B b;
      V lo, hi;
      for (int i = 0, d = int(rng.range(1, 9)); i < d; i++) {
        lo.push_back(int(rng.range(-9, 3)));
        hi.push_back(lo.back() + int(rng.range(1, 7)));
      }
      b.setRange(lo, hi);
      inSolver<S>(rng, "vector<int> in a symbolic box", b);
    }
    {
      using V = std::array<bool, 16>;
      using B = heu::DiscretBox<V, BoxShape::SQUARE_BOX>;
      using G = heu::GADefaults<V, B>;
      using S = heu::SOGA<V, heu::FITNESS_GREATER_BETTER, heu::DONT_RECORD_FITNESS, SelectMethod::EliteReserved, B, G::iFun<>, fit<V, B>, G::cFunRandNs<>, G::mFun<>>;
      inSolver<S>(rng, "array<bool,16> in a boolean box", B());
    }
    {
      using V = Eigen::ArrayXd;
      using B = heu::ContinousBox<V, BoxShape::RECTANGLE_BOX>;
      using G = heu::GADefaults<V, B>;
      using S = heu::SOGA<V, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, SelectMethod::LinearRank, B, G::iFun<>, fit<V, B>, G::cFunRandXs<DivEncode<1, 4>::code>, G::mFun<>>;
      B b;
      const int d = int(rng.range(1, 8));
      V lo = V::Random(d) * 4;
      V hi = lo + 2.5;
      b.setRange(lo, hi);
      b.setDelta(V::Constant(d, rng.d(0.01, 3)));
      inSolver<S>(rng, "ArrayXd in a rectangle box", b);
    }
  }
}
#endif
