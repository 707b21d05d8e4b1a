// Random boxes of every kind and the monitor of what they produce (C13), shared with the operator monitors (C08).
#pragma once
#include <limits>
#include <type_traits>
#include "hv.hpp"
#include <iostream>
#include <array>
#include <Eigen/Dense>
#include <HeuristicFlow/Global>
#include <HeuristicFlow/EAGlobal>

namespace bx {
using namespace hv;

template <class V>
struct VT {
  using T = typename V::value_type;
  static constexpr bool eigen = false, fixed = false, mat = false;
};
template <class T_, size_t N>
struct VT<std::array<T_, N>> {
  using T = T_;
  static constexpr bool eigen = false, fixed = true, mat = false;
};
template <class T_, int R, int C, int O, int MR, int MC>
struct VT<Eigen::Array<T_, R, C, O, MR, MC>> {
  using T = T_;
  static constexpr bool eigen = true, fixed = R > 0 && C > 0, mat = R != 1 && C != 1;
};
template <class T_, int R, int C, int O, int MR, int MC>
struct VT<Eigen::Matrix<T_, R, C, O, MR, MC>> : VT<Eigen::Array<T_, R, C, O, MR, MC>> {};

template <class V>
typename VT<V>::T get(const V& v, int i) {
  if constexpr (VT<V>::eigen) return v.data()[i];
  else return v[size_t(i)];
}
template <class V>
void put(V& v, int i, typename VT<V>::T x) {
  if constexpr (VT<V>::eigen) v.data()[i] = x;
  else v[size_t(i)] = x;
}
template <class V>
void shape(V& v, int r, int c) {
  if constexpr (!VT<V>::fixed) {
    if constexpr (VT<V>::mat) v.resize(r, c);
    else v.resize(r * c);
  }
}
template <class V>
int rows(const V& v) {
  if constexpr (VT<V>::mat) return int(v.rows());
  else return int(v.size());
}

// as wide a number as every scalar fits into exactly
template <class T>
long double wide(T x) { return (long double)x; }

template <class T>
T randomIn(Rng& rng, T lo, T hi) {
  if constexpr (std::is_same_v<T, bool>) return rng.coin();
  else if constexpr (std::is_integral_v<T>) {
    uint64_t w = uint64_t(hi) - uint64_t(lo);
    uint64_t k = w == UINT64_MAX ? rng.next() : rng.next() % (w + 1);
    if (rng.coin(0.15)) k = 0;
    if (rng.coin(0.15)) k = w;
    return T(uint64_t(lo) + k);
  } else {
    if (rng.coin(0.1)) return lo;
    if (rng.coin(0.1)) return hi;
    T x = T(lo + (hi - lo) * T(rng.u()));
    return std::min(std::max(x, lo), hi);
  }
}
// a legal range
template <class T>
void randomRange(Rng& rng, T& lo, T& hi) {
  if constexpr (std::is_same_v<T, bool>) { lo = false; hi = true; }
  else if constexpr (std::is_integral_v<T>) {
    const T L = std::numeric_limits<T>::min(), H = std::numeric_limits<T>::max();
    int k = int(rng.range(0, 9));
    if (k == 0) { lo = L; hi = T(L + T(rng.range(1, 5))); }
    else if (k == 1) { hi = H; lo = T(H - T(rng.range(1, 5))); }
    else if (k == 2) { lo = T(std::is_signed_v<T> ? -3 : 0); hi = T(H); }
    else {
      long long a = std::is_signed_v<T> ? rng.range(-20, 20) : rng.range(0, 40);
      lo = T(a);
      hi = T(a + rng.range(1, k < 5 ? 2 : 30));
    }
  } else {
    int k = int(rng.range(0, 7));
    if (k == 0) { lo = T(-1e6); hi = T(1e6); }
    else if (k == 1) { lo = T(0); hi = T(1); }
    else if (k == 2) { lo = T(rng.d(-2, 2)); hi = lo + T(1e-3); }
    else { lo = T(rng.d(-50, 50)); hi = lo + T(rng.d(0.01, 40)); }
  }
}
template <class T>
T outside(Rng& rng, T lo, T hi) {
  if constexpr (std::is_same_v<T, bool>) return rng.coin();
  else if constexpr (std::is_integral_v<T>) {
    const T L = std::numeric_limits<T>::min(), H = std::numeric_limits<T>::max();
    bool below = rng.coin();
    if (below && lo == L) below = false;
    if (!below && hi == H) below = lo != L;
    if (below) return rng.coin() ? T(lo - 1) : L;
    if (hi == H) return randomIn(rng, lo, hi);
    return rng.coin() ? T(hi + 1) : H;
  } else {
    T w = T(rng.d(0, 3));
    if (rng.coin(0.1)) w = T(1e9);
    return rng.coin() ? lo - w : hi + w;
  }
}

template <class T>
std::string str(T x) {
  if constexpr (std::is_integral_v<T>) return std::to_string((long long)x);
  else return fmt("%.17g", double(x));
}

// what the box is expected to be
template <class V>
struct Spec {
  using T = typename VT<V>::T;
  int r = 0, c = 1, n = 0;
  std::vector<T> lo, hi, delta;  // delta empty: unit steps / flips
  std::string what;
};

template <class V>
V randomInside(Rng& rng, const Spec<V>& s) {
  V v;
  shape(v, s.r, s.c);
  for (int i = 0; i < s.n; i++) put(v, i, randomIn(rng, s.lo[i], s.hi[i]));
  return v;
}

// reads a delta back where the box has one
template <class B, class V>
void checkReadback(const B& b, const Spec<V>& s) {
  HV_CHECK(b.dimensions() == s.n, "C13/dimensions", "%s: dimensions() is %d, not %d", s.what.c_str(), int(b.dimensions()), s.n);
  if constexpr (VT<V>::mat) {
    HV_CHECK(b.boxRows() == s.r && b.boxCols() == s.c, "C13/shape", "%s: box is %dx%d, not %dx%d", s.what.c_str(), int(b.boxRows()), int(b.boxCols()), s.r, s.c);
  }
  for (int i = 0; i < s.n; i++) {
    HV_CHECK(b.min(i) == s.lo[i] && b.max(i) == s.hi[i], "C13/readback", "%s: range of %d reads [%s,%s], was set to [%s,%s]", s.what.c_str(), i,
             str(b.min(i)).c_str(), str(b.max(i)).c_str(), str(s.lo[i]).c_str(), str(s.hi[i]).c_str());
  }
}

template <class B, class V>
void monitorBox(Rng& rng, const B& b, const Spec<V>& s, int rounds) {
  using T = typename VT<V>::T;
  const char* w = s.what.c_str();
  checkReadback(b, s);
  auto inside = [&](const V& v, const char* op) {
    if (int(v.size()) != s.n || (VT<V>::mat && rows(v) != s.r)) {
      violation(std::string("C13/shape-after-") + op, fmt("%s: %d elements in %d rows, not %d in %d", w, int(v.size()), rows(v), s.n, s.r));
      return false;
    }
    for (int i = 0; i < s.n; i++) {
      T x = get(v, i);
      if (!(x >= s.lo[i] && x <= s.hi[i])) {
        violation(std::string("C13/outside-after-") + op, fmt("%s: element %d is %s outside [%s,%s]", w, i, str(x).c_str(), str(s.lo[i]).c_str(), str(s.hi[i]).c_str()));
        return false;
      }
    }
    return true;
  };
  uint64_t sig = 77;
  std::vector<int> touched(size_t(s.n), 0), up(size_t(s.n), 0);
  std::vector<int> sawLo(size_t(s.n), 0), sawHi(size_t(s.n), 0);
  for (int k = 0; k < rounds; k++) {
    // initialization of a fresh or used variable
    V v;
    if (rng.coin()) shape(v, VT<V>::mat ? 2 : 3, VT<V>::mat ? 2 : 1);
    if constexpr (VT<V>::fixed)
      for (int i = 0; i < s.n; i++) put(v, i, outside(rng, s.lo[i], s.hi[i]));
    b.initialize(&v);
    count("initializations");
    if (!inside(v, "initialize")) return;
    for (int i = 0; i < s.n; i++) {
      sawLo[i] += get(v, i) == s.lo[i];
      sawHi[i] += get(v, i) == s.hi[i];
      sig = mix(sig, std::hash<double>()(double(get(v, i))));
    }
    // constraint on a mixture of inside and outside values
    V m = v;
    for (int i = 0; i < s.n; i++)
      put(m, i, rng.coin() ? randomIn(rng, s.lo[i], s.hi[i]) : outside(rng, s.lo[i], s.hi[i]));
    auto clamp = [&](T x, int i) { return x < s.lo[i] ? s.lo[i] : x > s.hi[i] ? s.hi[i] : x; };
    V m1 = m;
    b.applyConstraint(&m1);
    count("constraints");
    if (inside(m1, "constraint"))
      for (int i = 0; i < s.n; i++)
        HV_CHECK(get(m1, i) == clamp(get(m, i), i), "C13/clamp", "%s: element %d went from %s to %s in [%s,%s]", w, i, str(get(m, i)).c_str(), str(get(m1, i)).c_str(),
                 str(s.lo[i]).c_str(), str(s.hi[i]).c_str());
    V m2 = m;
    const int one = int(rng.range(0, s.n - 1));
    b.applyConstraint(&m2, one);
    for (int i = 0; i < s.n; i++) {
      T want = i == one ? clamp(get(m, i), i) : get(m, i);
      HV_CHECK(get(m2, i) == want, "C13/clamp-one", "%s: constraint on element %d took element %d from %s to %s", w, one, i, str(get(m, i)).c_str(), str(get(m2, i)).c_str());
    }
    // delta of an inside value
    V d0 = randomInside(rng, s), d = d0;
    b.applyDelta(&d);
    count("deltas");
    if (!inside(d, "delta")) return;
    int changed = 0;
    for (int i = 0; i < s.n; i++) {
      T a = get(d0, i), z = get(d, i);
      if (a == z) continue;
      changed++;
      touched[i]++;
      up[i] += z > a;
      if constexpr (std::is_same_v<T, bool>) {
      } else if (s.delta.empty()) {
        const long double step = z > a ? wide(z) - wide(a) : wide(a) - wide(z);
        const bool clampedStep = std::is_floating_point_v<T> && (z == s.lo[i] || z == s.hi[i]) && step < 1;
        HV_CHECK(clampedStep || std::fabs((double)(step - 1)) <= (std::is_floating_point_v<T> ? 1e-5 * std::max<double>(1, std::fabs(double(a))) : 0.0), "C13/step",
                 "%s: element %d stepped from %s to %s", w, i, str(a).c_str(), str(z).c_str());
      } else {
        const double eps = (sizeof(T) == 4 ? 1e-6 : 1e-14) * (std::fabs(double(a)) + std::fabs(double(s.delta[i])));
        HV_CHECK(std::fabs(double(z) - double(a)) <= double(s.delta[i]) + eps, "C13/delta", "%s: element %d moved from %s to %s, delta is %s", w, i, str(a).c_str(), str(z).c_str(),
                 str(s.delta[i]).c_str());
      }
    }
    HV_CHECK(changed <= 1, "C13/delta-one", "%s: a delta changed %d elements", w, changed);
    if constexpr (std::is_same_v<T, bool>)
      HV_CHECK(changed == 1, "C13/flip", "%s: a delta flipped %d elements", w, changed);
    sig = mix(sig, uint64_t(changed));
  }
  observed(sig);
  // over many deltas every element is chosen, in both directions (8 sigma and more away from chance for these rounds)
  if (rounds >= 60 * s.n) {
    for (int i = 0; i < s.n; i++) {
      // a delta below the precision of the element changes nothing
      if (!s.delta.empty() && double(s.delta[i]) < 1e-4 * std::max(std::fabs(double(s.lo[i])), std::fabs(double(s.hi[i])))) continue;
      HV_CHECK(touched[i] > 0, "C13/delta-never", "%s: %d deltas never changed element %d", w, rounds, i);
      if (!std::is_same_v<T, bool> && touched[i] >= 60)
        HV_CHECK(up[i] > 0 && up[i] < touched[i], "C13/delta-direction", "%s: all %d deltas of element %d went one way", w, touched[i], i);
    }
  }
  // both ends of small discrete ranges are reached by initialization
  if constexpr (std::is_integral_v<T>)
    for (int i = 0; i < s.n; i++) {
      uint64_t width = uint64_t(s.hi[i]) - uint64_t(s.lo[i]) + 1;
      if (width > 0 && width <= uint64_t(rounds) / 40)
        HV_CHECK(sawLo[i] > 0 && sawHi[i] > 0, "C13/ends", "%s: %d initializations of element %d in [%s,%s] reached the ends %d and %d times", w, rounds, i,
                 str(s.lo[i]).c_str(), str(s.hi[i]).c_str(), sawLo[i], sawHi[i]);
    }
}

// ---- makers ----
template <class V>
void dims(Rng& rng, Spec<V>& s) {
  if constexpr (VT<V>::fixed) {
    V v;
    s.n = int(v.size());
    s.r = rows(v);
    s.c = s.n / s.r;
  } else if constexpr (VT<V>::mat) {
    s.r = int(rng.coin(0.03) ? rng.range(9, 20) : rng.range(1, 4));
    s.c = int(rng.coin(0.03) ? rng.range(9, 20) : rng.range(1, 4));
    s.n = s.r * s.c;
  } else {
    s.n = s.r = rng.coin(0.2) ? 1 : rng.coin(0.04) ? int(rng.range(33, 140)) : int(rng.range(1, 9));
    s.c = 1;
  }
}
template <class B, class V>
void setDims(B& b, const Spec<V>& s) {
  if constexpr (!VT<V>::fixed) {
    if constexpr (VT<V>::mat) b.setDimensions(s.r, s.c);
    else b.setDimensions(s.n);
  }
}
template <class V>
void fillRange(Rng& rng, Spec<V>& s, bool square) {
  s.lo.resize(size_t(s.n));
  s.hi.resize(size_t(s.n));
  typename VT<V>::T lo, hi;
  for (int i = 0; i < s.n; i++) {
    if (i == 0 || !square) randomRange(rng, lo, hi);
    s.lo[size_t(i)] = lo;
    s.hi[size_t(i)] = hi;
  }
}
template <class V>
V vec(const Spec<V>& s, const std::vector<typename VT<V>::T>& x) {
  V v;
  shape(v, s.r, s.c);
  for (int i = 0; i < s.n; i++) put(v, i, x[size_t(i)]);
  return v;
}
template <class V>
void fillDelta(Rng& rng, Spec<V>& s, bool square) {
  s.delta.resize(size_t(s.n));
  typename VT<V>::T d{};
  for (int i = 0; i < s.n; i++) {
    if (i == 0 || !square) d = typename VT<V>::T(rng.coin(0.2) ? 1e-6 : rng.coin(0.3) ? 100.0 : rng.d(0.01, 5));
    s.delta[size_t(i)] = d;
  }
}
inline std::string list(int r, int c) { return fmt("%dx%d", r, c); }

// set a range one way or the other
template <class B, class V>
void setSquare(Rng& rng, B& b, const Spec<V>& s) {
  if constexpr (!std::is_same_v<typename VT<V>::T, bool>) {
    if (rng.coin()) b.setRange(s.lo[0], s.hi[0]);
    else {
      b.min() = s.lo[0];
      b.max() = s.hi[0];
    }
    HV_CHECK(std::as_const(b).min() == s.lo[0] && std::as_const(b).max() == s.hi[0], "C13/readback", "%s: min()/max() do not read back", s.what.c_str());
  }
}
template <class B, class V>
void setRect(Rng& rng, B& b, const Spec<V>& s) {
  if (rng.coin()) b.setRange(vec(s, s.lo), vec(s, s.hi));
  else
    for (int i = 0; i < s.n; i++) {
      put(b.min(), i, s.lo[size_t(i)]);
      put(b.max(), i, s.hi[size_t(i)]);
    }
}
}  // namespace bx
