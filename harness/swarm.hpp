// Shared by the PSO and AOS monitors: variable access, evaluation log, value multisets.
#pragma once
#include "hv.hpp"
#include "engine.hpp"
#include <array>
#include <atomic>
#include <memory>
#include <mutex>
#include <HeuristicFlow/EAGlobal>

namespace hv {

template <class V>
inline size_t vlen(const V& v) {
  return size_t(v.size());
}
template <class V>
inline double vget(const V& v, size_t i) {
  return double(v.data()[i]);
}
template <class V>
inline uint64_t hashV(const V& v) {
  uint64_t h = mix(11, vlen(v));
  for (size_t i = 0; i < vlen(v); i++) h = mix(h, bits(vget(v, i)));
  return h;
}
template <class V>
inline std::vector<double> tovec(const V& v) {
  std::vector<double> r(vlen(v));
  for (size_t i = 0; i < r.size(); i++) r[i] = vget(v, i);
  return r;
}
template <class V>
struct VTraits;
template <class S, size_t N>
struct VTraits<std::array<S, N>> {
  static constexpr bool fixed = true, mat = false, eigen = false, roomy = false;
  static constexpr const char* name = "std::array";
};
template <class S>
struct VTraits<std::vector<S>> {
  static constexpr bool fixed = false, mat = false, eigen = false, roomy = true;  // roomy: any number of elements
  static constexpr const char* name = "std::vector";
};
template <class S, int R, int C, int O, int MR, int MC>
struct VTraits<Eigen::Array<S, R, C, O, MR, MC>> {
  static constexpr bool fixed = R > 0 && C > 0, mat = R != 1 && C != 1, eigen = true, roomy = MR == Eigen::Dynamic || MC == Eigen::Dynamic;
  static constexpr const char* name = fixed ? (mat ? "ArrayNM" : "ArrayN") : (mat ? "ArrayXX" : (C == 1 ? "ArrayX" : "RowArrayX"));
};
template <class S, int R, int C, int O, int MR, int MC>
struct VTraits<Eigen::Matrix<S, R, C, O, MR, MC>> {
  static constexpr bool fixed = R > 0 && C > 0, mat = R != 1 && C != 1, eigen = true, roomy = MR == Eigen::Dynamic || MC == Eigen::Dynamic;
  static constexpr const char* name = fixed ? (mat ? "MatrixNM" : "VectorN") : (mat ? "MatrixXX" : (C == 1 ? "VectorX" : "RowVectorX"));
};
template <class V>
inline V makeVar(int rows, int cols) {
  V v;
  if constexpr (!VTraits<V>::fixed) {
    if constexpr (VTraits<V>::mat)
      v.resize(rows, cols);
    else
      v.resize(rows * cols);
  }
  return v;
}
template <class V>
inline bool shapeIs(const V& v, int rows, int cols) {
  if constexpr (VTraits<V>::mat) return v.rows() == rows && v.cols() == cols;
  return int(v.size()) == rows * cols;
}

// every evaluation of the fitness function, in any thread
struct EvalLog {
  static constexpr uint32_t MAX = 1 << 17;
  std::unique_ptr<std::atomic<uint64_t>[]> h{new std::atomic<uint64_t>[MAX]};
  std::atomic<uint32_t> n{0};
  std::atomic<uint32_t> badArgs{0};
  void clear() { n = 0; }
  void add(uint64_t x) {
    uint32_t i = n.fetch_add(1);
    if (i < MAX) h[i] = x;
  }
  std::map<uint64_t, int> bag() const {
    std::map<uint64_t, int> m;
    for (uint32_t i = 0; i < std::min<uint32_t>(n, MAX); i++) m[h[i]]++;
    return m;
  }
};
inline EvalLog& elog() {
  static EvalLog l;
  return l;
}

// where a population starts: standardized coordinates of initial points, and what two of one point have in common
struct Starts {
  double n = 0, s = 0, q = 0, k = 0, pair = 0;
  void add(const std::vector<double>& z) {
    for (size_t d = 0; d < z.size(); d++) {
      n++;
      s += z[d];
      q += z[d] * z[d];
      if (d) k++, pair += z[d] * z[d - 1];
    }
  }
  void add(const Starts& o) {
    n += o.n;
    s += o.s;
    q += o.q;
    k += o.k;
    pair += o.pair;
  }
  void check(const std::string& prop) const {
    if (n < 1000) return;
    HV_CHECK(std::fabs(s / n) < 8 / std::sqrt(n), prop + "/start-mean", "initial coordinates have mean %.4f (standardized) over %.0f", s / n, n);
    HV_CHECK(std::fabs(q / n - 1) < 16 / std::sqrt(n), prop + "/start-spread", "initial coordinates have variance %.4f (standardized) over %.0f", q / n, n);
    if (k > 1000) HV_CHECK(std::fabs(pair / k) < 8 / std::sqrt(k), prop + "/start-dependent", "neighbouring initial coordinates have correlation %.4f over %.0f", pair / k, k);
    count("initial_coordinates", uint64_t(n));
  }
};

constexpr int NSLAND = 11;
inline const char* slandName(int l) {
  static const char* n[] = {"sphere", "rastrigin", "constant", "plateau", "negative", "huge", "edge", "ties", "cubic", "penalty", "colossal"};
  return n[l % NSLAND];
}
template <class V>
inline double sland(int land, const V& v) {
  double s = 0, x0 = vget(v, 0), xl = vget(v, vlen(v) - 1);
  for (size_t i = 0; i < vlen(v); i++) s += (vget(v, i) - 0.3) * (vget(v, i) - 0.3);
  switch (land % NSLAND) {
    case 0: return s;
    case 1: {
      double r = 0;
      for (size_t i = 0; i < vlen(v); i++) r += vget(v, i) * vget(v, i) + 3 * (1 - std::cos(6 * vget(v, i)));
      return r;
    }
    case 2: return -3.5;
    case 3: return std::floor(x0) + 2;
    case 4: return -1000.0 - s;
    case 5: return 1e290 * (x0 + xl);
    case 6: return x0 + 2 * xl;  // optimum in a corner of the box
    case 7: return std::round(x0 * 0.7);
    case 8: return x0 * x0 * x0 - xl;
    case 9: return x0 > xl + 1 ? INFINITY : (x0 < xl - 3 ? -INFINITY : s);
    default: return 1.7e308 * std::tanh(x0 + xl);
  }
}
struct SCtx {
  int land = 0;
  uint64_t magic = 0xFEED;
};
inline int& globalLand() {
  static int l = 0;
  return l;
}
}  // namespace hv
