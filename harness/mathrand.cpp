// C17: random helpers stay in range, math helpers match their definitions
#include "hv.hpp"
#include "engine.hpp"
#include <array>
#include <limits>
#include <numeric>
#include <HeuristicFlow/Global>
#include <HeuristicFlow/src/Global/LogisticChaos.hpp>
using namespace hv;

static std::mt19937& mt() { return heu::internal::global_mt19937(); }
// a new state of the engine: usually ordinary, sometimes hostile
static void newState(Rng& rng, double pHostile = 0.5) {
  if (rng.coin(pHostile)) eng::force(mt(), eng::hostile(rng));
  else mt().seed(uint32_t(rng.next()));
}

static void inUnit(double x, const char* w) { HV_CHECK(x >= 0 && x < 1, std::string("C17/unit/") + w, "%s drew %.17g", w, x); }
static double anyFinite(Rng& rng) {
  switch (rng.range(0, 8)) {
    case 0: return 0;
    case 1: return rng.d(-1, 1);
    case 2: return rng.d(-1e3, 1e3);
    case 3: return rng.d(-1e16, 1e16);
    case 4: return rng.d(-1, 1) * 1.7e308;
    case 5: return rng.coin() ? std::numeric_limits<double>::max() : -std::numeric_limits<double>::max();
    case 6: return double(rng.range(-100, 100));
    case 7: return std::ldexp(rng.d(-1, 1), int(rng.range(-1070, 1020)));
    default: return rng.d(-1e-300, 1e-300);
  }
}
HV_PART(rand_real) {
  for (int t = 0, T = scale(12000); t < T; t++) {
    newState(rng);
    beginCase("randD(), randF() draws");
    uint64_t sig = 0;
    for (int i = 0; i < 40; i++) {
      const double x = heu::randD();
      inUnit(x, "randD()");
      const float f = heu::randF();
      inUnit(f, "randF()");
      sig = mix(sig, bits(x));
    }
    std::vector<double> a;
    const int n = int(rng.range(0, 20));
    a.assign(size_t(n) + 2, -7.5);
    heu::randD(a.data() + 1, n);
    HV_CHECK(a[0] == -7.5 && a.back() == -7.5, "C17/array_bounds", "randD(dst,%d) wrote outside of its array", n);
    for (int i = 0; i < n; i++) inUnit(a[size_t(i) + 1], "randD(dst,num)");
    double lo = anyFinite(rng), hi;
    switch (rng.range(0, 3)) {
      case 0: hi = std::nextafter(lo, INFINITY); break;
      case 1: hi = lo + std::fabs(lo) * 1e-15 + 1e-300; break;
      default: hi = anyFinite(rng); break;
    }
    if (lo > hi) std::swap(lo, hi);
    if (!(lo < hi) || std::isinf(hi)) continue;
    beginCase(fmt("randD(%.17g,%.17g)", lo, hi));
    for (int i = 0; i < 40; i++) {
      const double x = heu::randD(lo, hi);
      HV_CHECK(x >= lo && x < hi, "C17/range", "randD(%.17g,%.17g) drew %.17g", lo, hi, x);
      sig = mix(sig, bits(x));
    }
    a.assign(size_t(n) + 2, NAN);
    heu::randD(a.data() + 1, n, lo, hi);
    HV_CHECK(std::isnan(a[0]) && std::isnan(a.back()), "C17/array_bounds", "randD(dst,%d,min,max) wrote outside of its array", n);
    for (int i = 0; i < n; i++) {
      const double x = a[size_t(i) + 1];
      HV_CHECK(x >= lo && x < hi, "C17/range_array", "randD(dst,%d,%.17g,%.17g)[%d] is %.17g", n, lo, hi, i, x);
    }
    observed(sig);
  }
}
// histogram of [0,1) numbers
static void uniformBins(const std::vector<double>& u, int B, const char* w) {
  std::vector<uint64_t> h(static_cast<size_t>(B), 0);
  for (double x : u)
    if (x >= 0 && x < 1) h[size_t(x * B)]++;
  const double n = double(u.size()), p = 1.0 / B, sd = std::sqrt(n * p * (1 - p));
  for (int i = 0; i < B; i++)
    HV_CHECK(std::fabs(double(h[size_t(i)]) - n * p) <= 8 * sd + 1, std::string("C17/uniform/") + w, "%s: %llu of %.0f draws in bin %d of %d", w, (unsigned long long)h[size_t(i)], n, i, B);
  double c = 0;
  for (size_t i = 1; i < u.size(); i++) c += (u[i] - 0.5) * (u[i - 1] - 0.5);
  c = c / n * 12;
  HV_CHECK(std::fabs(c) <= 8 / std::sqrt(n), std::string("C17/independent/") + w, "%s: consecutive draws correlate with %.4f", w, c);
  observed(mix(h[0], h[size_t(B) / 2]));
}
HV_PART(rand_uniform) {
  for (int t = 0, T = scale(6); t < T; t++) {
    mt().seed(uint32_t(rng.next()));
    const int N = 60000;
    std::vector<double> u(static_cast<size_t>(N));
    beginCase("distribution of randD()");
    for (auto& x : u) x = heu::randD();
    uniformBins(u, 20, "randD()");
    beginCase("distribution of randD(dst,num)");
    heu::randD(u.data(), N);
    uniformBins(u, 20, "randD(dst,num)");
    beginCase("distribution of randF()");
    for (auto& x : u) x = heu::randF();
    uniformBins(u, 20, "randF()");
    const double lo = rng.d(-50, 50), hi = lo + rng.d(0.01, 90);
    beginCase(fmt("distribution of randD(%g,%g)", lo, hi));
    for (auto& x : u) x = (heu::randD(lo, hi) - lo) / (hi - lo);
    uniformBins(u, 20, "randD(min,max)");
    heu::randD(u.data(), N, lo, hi);
    for (auto& x : u) x = (x - lo) / (hi - lo);
    uniformBins(u, 20, "randD(dst,num,min,max)");
    // a range wider than the largest double
    beginCase("distribution of randD over the full range of double");
    const double M = std::numeric_limits<double>::max();
    for (auto& x : u) x = heu::randD(-M, M) / M / 2 + 0.5;
    uniformBins(u, 8, "randD(-max,max)");
  }
}
template <class I>
void idxRange(Rng& rng, const char* ty) {
  using L = std::numeric_limits<I>;
  for (int t = 0, T = scale(1200); t < T; t++) {
    newState(rng);
    // any ends
    auto any = [&]() -> I {
      switch (rng.range(0, 4)) {
        case 0: return L::min();
        case 1: return L::max();
        case 2: return I(rng.range(0, 20));
        case 3: return I(L::min() / 2 + I(rng.range(0, 9)));
        default: return I(rng.next());
      }
    };
    I a = any(), b = any();
    if (rng.coin(0.3) && a < L::max()) b = I(a + 1);
    if (a > b) std::swap(a, b);
    if (a < b) {
      beginCase(fmt("randIdx<%s>(%lld,%lld)", ty, (long long)a, (long long)b));
      uint64_t sig = 0;
      for (int i = 0; i < 30; i++) {
        const I x = heu::randIdx(a, b);
        HV_CHECK(x >= a && x < b, std::string("C17/randIdx2/") + ty, "randIdx(%lld,%lld) drew %lld", (long long)a, (long long)b, (long long)x);
        sig = mix(sig, uint64_t(x));
      }
      observed(sig);
    }
    I n = any();
    if (n > 0) {
      beginCase(fmt("randIdx<%s>(%lld)", ty, (long long)n));
      for (int i = 0; i < 30; i++) {
        const I x = heu::randIdx(n);
        HV_CHECK(x >= 0 && x < n, std::string("C17/randIdx1/") + ty, "randIdx(%llu) drew %lld", (unsigned long long)n, (long long)x);
      }
      observed(uint64_t(n));
    }
  }
  // every index equally often
  for (int t = 0, T = scale(6); t < T; t++) {
    mt().seed(uint32_t(rng.next()));
    const int w = int(rng.range(1, 12));
    const bool two = rng.coin();
    const I a = two ? I(rng.range(std::is_signed_v<I> ? -60 : 0, 100)) : I(0);
    beginCase(fmt("frequencies of randIdx<%s> over [%lld,%lld)", ty, (long long)a, (long long)a + w));
    std::map<long long, int> h;
    const int N = 12000;
    for (int i = 0; i < N; i++) h[(long long)(two ? heu::randIdx(a, I(a + w)) : heu::randIdx(I(w)))]++;
    const double p = 1.0 / w, sd = std::sqrt(N * p * (1 - p));
    for (int i = 0; i < w; i++)
      HV_CHECK(std::fabs(h[(long long)a + i] - N * p) <= 8 * sd, std::string("C17/idx_uniform/") + ty, "index %lld of [%lld,%lld): %d of %d draws", (long long)a + i, (long long)a, (long long)a + w, h[(long long)a + i], N);
    observed(mix(uint64_t(w), uint64_t(h[(long long)a])));
  }
}
HV_PART(rand_idx) {
  idxRange<int>(rng, "int");
  idxRange<unsigned>(rng, "unsigned");
  idxRange<size_t>(rng, "size_t");
  idxRange<int64_t>(rng, "int64_t");
  idxRange<int16_t>(rng, "int16_t");
  idxRange<uint16_t>(rng, "uint16_t");
  idxRange<int8_t>(rng, "int8_t");
  idxRange<uint8_t>(rng, "uint8_t");
}
HV_PART(rand_norm) {
  for (int t = 0, T = scale(6); t < T; t++) {
    mt().seed(uint32_t(rng.next()));
    const double mu = rng.d(-20, 20), sg = rng.d(0.01, 9);
    for (int kind = 0; kind < 3; kind++) {
      beginCase(kind == 0 ? "normD()" : kind == 1 ? fmt("normD(%g,%g)", mu, sg) : "normF()");
      const int N = 60000;
      double s = 0, s2 = 0, corr = 0, last = 0;
      int in1 = 0, in2 = 0, pos = 0;
      for (int i = 0; i < N; i++) {
        double x = kind == 0 ? heu::normD() : kind == 1 ? (heu::normD(mu, sg) - mu) / sg : heu::normF();
        HV_CHECK(std::isfinite(x), "C17/norm_finite", "a normal draw is %g", x);
        s += x, s2 += x * x, corr += x * last, last = x;
        in1 += std::fabs(x) < 1, in2 += std::fabs(x) < 2, pos += x > 0;
      }
      const double rt = std::sqrt(double(N));
      HV_CHECK(std::fabs(s / N) <= 8 / rt, fmt("C17/norm_mean/%d", kind), "mean of normal draws off by %g standard deviations", s / N);
      HV_CHECK(std::fabs(s2 / N - 1) <= 8 * std::sqrt(2.0) / rt, fmt("C17/norm_sd/%d", kind), "variance of normal draws is %g of the requested", s2 / N);
      HV_CHECK(std::fabs(in1 / double(N) - 0.682689) <= 8 * 0.4655 / rt && std::fabs(in2 / double(N) - 0.9545) <= 8 * 0.2085 / rt && std::fabs(pos / double(N) - 0.5) <= 4 / rt, fmt("C17/norm_shape/%d", kind),
               "normal draws within 1, 2 deviations, positive: %d %d %d of %d", in1, in2, pos, N);
      HV_CHECK(std::fabs(corr / N) <= 8 / rt, fmt("C17/norm_indep/%d", kind), "consecutive normal draws correlate with %g", corr / N);
      observed(bits(s));
    }
  }
}
static void chaosStep(double from, double to, const char* w) {
  const double want = 4 * from * (1 - from);
  HV_CHECK(std::fabs(to - want) <= 1e-15, std::string("C17/chaos_step/") + w, "%s: %.17g was followed by %.17g instead of %.17g", w, from, to, want);
  HV_CHECK(to >= 0 && to <= 1, std::string("C17/chaos_range/") + w, "%s: %.17g left [0,1]", w, to);
}
HV_PART(chaos) {
  for (int t = 0, T = scale(6000); t < T; t++) {
    newState(rng, 0.2);
    double seed = rng.coin(0.1) ? rng.pick(std::vector<double>{0.5, 0.75, 0.25, 1e-300, std::nextafter(1.0, 0)}) : rng.u();
    if (!(seed > 0)) seed = 0.3;
    beginCase(fmt("LogisticChaos(%.17g)", seed));
    heu::LogisticChaos c = rng.coin(0.2) ? heu::LogisticChaos() : heu::LogisticChaos(seed);
    HV_CHECK(c.value() >= 0 && c.value() < 1, "C17/chaos_init", "initial value %.17g", c.value());
    uint64_t sig = bits(c.value());
    for (int k = 0, K = int(rng.range(1, 10)); k < K; k++) {
      const double from = c.value();
      switch (rng.range(0, 2)) {
        case 0: {
          const double r = c();
          chaosStep(from, r, "operator()");
          HV_CHECK(r == c.value(), "C17/chaos_value", "operator() returned %.17g, value() is %.17g", r, c.value());
          break;
        }
        case 1: {
          const int L = int(rng.range(0, 12));
          std::vector<double> s(static_cast<size_t>(L) + 2, -3);
          c.makeSequence(s.data() + 1, size_t(L));
          HV_CHECK(s[0] == -3 && s.back() == -3, "C17/chaos_bounds", "makeSequence of %d wrote outside", L);
          double f = from;
          for (int i = 0; i < L; i++) chaosStep(f, s[size_t(i) + 1], "makeSequence"), f = s[size_t(i) + 1];
          HV_CHECK(c.value() == f, "C17/chaos_value", "makeSequence of %d ends with %.17g, value() is %.17g", L, f, c.value());
          break;
        }
        default: {
          const int n = int(rng.range(0, 12));
          double f = from;
          for (int i = 0; i < n; i++) f = 4 * f * (1 - f);
          c.iterate(size_t(n));
          HV_CHECK(std::fabs(c.value() - f) <= 1e-6, "C17/chaos_iterate", "%.17g iterated %d times gives %.17g instead of %.17g", from, n, c.value(), f);
          break;
        }
      }
      sig = mix(sig, bits(c.value()));
    }
    observed(sig);
  }
}

template <class I>
void combinatorics(const char* ty) {
  using L = std::numeric_limits<I>;
  const bool fl = std::is_floating_point_v<I>;
  // factorial
  long double f = 1;
  for (int n = 0; n <= 170; n++) {
    if (n > 1) f *= n;
    if (f > (long double)L::max()) break;
    beginCase(fmt("fractorial<%s>(%d)", ty, n));
    const I r = heu::fractorial(I(n));
    HV_CHECK(fl ? std::fabs((long double)r - f) <= 1e-13L * f : (long double)r == f, std::string("C17/fractorial/") + ty, "fractorial(%d) is %Lg instead of %Lg", n, (long double)r, f);
    observed(mix(uint64_t(n), sizeof(I)));
  }
  // Pascal's triangle, exactly while it fits
  std::vector<long double> row = {1};
  for (int n = 0; n <= (fl ? 300 : 66); n++) {
    for (int k = 0; k <= n; k++) {
      if (row[size_t(k)] > (long double)L::max() || n > (long double)L::max()) continue;
      beginCase(fmt("NchooseK<%s>(%d,%d)", ty, n, k));
      const I r = heu::NchooseK<I>(I(n), I(k));
      const long double want = row[size_t(k)];
      HV_CHECK(fl ? std::fabs((long double)r - want) <= 1e-11L * want : (long double)r == want, std::string("C17/NchooseK/") + ty, "NchooseK(%d,%d) is %.20Lg instead of %.20Lg", n, k, (long double)r, want);
      observed(mix(uint64_t(n * 1000 + k), sizeof(I) + 7));
    }
    std::vector<long double> nx(row.size() + 1, 1);
    for (size_t k = 1; k < row.size(); k++) nx[k] = row[k - 1] + row[k];
    row = nx;
  }
}
HV_PART(math_combinatorics) {
  combinatorics<int>("int");
  combinatorics<unsigned>("unsigned");
  combinatorics<uint64_t>("uint64_t");
  combinatorics<int64_t>("int64_t");
  combinatorics<int16_t>("int16_t");
  combinatorics<double>("double");
}

template <class T>
void packs(Rng& rng, const char* ty) {
  auto draw = [&]() -> T {
    if constexpr (std::is_floating_point_v<T>) return T(rng.coin(0.3) ? double(rng.range(-3, 3)) : anyFinite(rng));
    else return rng.coin(0.5) ? T(rng.range(0, 4)) : rng.coin(0.2) ? std::numeric_limits<T>::max() : rng.coin(0.2) ? std::numeric_limits<T>::min() : T(rng.next());
  };
  for (int t = 0, T0 = scale(2000); t < T0; t++) {
    T v[8];
    for (T& x : v) x = draw();
    const int n = int(rng.range(2, 8));
    beginCase(fmt("min/max<%s> of %d arguments", ty, n));
    T lo{}, hi{};
    switch (n) {
      case 2: lo = heu::min(v[0], v[1]), hi = heu::max(v[0], v[1]); break;
      case 3: lo = heu::min(v[0], v[1], v[2]), hi = heu::max(v[0], v[1], v[2]); break;
      case 4: lo = heu::min(v[0], v[1], v[2], v[3]), hi = heu::max(v[0], v[1], v[2], v[3]); break;
      case 5: lo = heu::min(v[0], v[1], v[2], v[3], v[4]), hi = heu::max(v[0], v[1], v[2], v[3], v[4]); break;
      case 6: lo = heu::min(v[0], v[1], v[2], v[3], v[4], v[5]), hi = heu::max(v[0], v[1], v[2], v[3], v[4], v[5]); break;
      case 7: lo = heu::min(v[0], v[1], v[2], v[3], v[4], v[5], v[6]), hi = heu::max(v[0], v[1], v[2], v[3], v[4], v[5], v[6]); break;
      default: lo = heu::min(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]), hi = heu::max(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); break;
    }
    const T wl = *std::min_element(v, v + n), wh = *std::max_element(v, v + n);
    HV_CHECK(lo == wl && hi == wh, std::string("C17/minmax/") + ty, "min and max of %d numbers are %.17g and %.17g instead of %.17g and %.17g", n, double(lo), double(hi), double(wl), double(wh));
    observed(mix(bits(double(lo)), bits(double(hi))));
  }
}
constexpr int64_t ctv(size_t set, size_t i) {
  uint64_t z = (set * 131 + i * 7 + 1) * 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 31)) * 0xBF58476D1CE4E5B9ull;
  z ^= z >> 29;
  return set % 3 == 0 ? int64_t(z) : set % 3 == 1 ? int64_t(z % 5) - 2 : int64_t(z % 2001) - 1000;
}
template <class T, size_t Set, size_t... I>
void ctPack(std::index_sequence<I...>) {
  constexpr T lo = heu::minmax<T, T(ctv(Set, I))...>::min, hi = heu::minmax<T, T(ctv(Set, I))...>::max;
  constexpr T lo2 = heu::min_v<T, T(ctv(Set, I))...>, hi2 = heu::max_v<T, T(ctv(Set, I))...>;
  const std::vector<T> v = {T(ctv(Set, I))...};
  const T wl = *std::min_element(v.begin(), v.end()), wh = *std::max_element(v.begin(), v.end());
  beginCase(fmt("compile-time minmax of %d numbers, set %d", int(v.size()), int(Set)));
  HV_CHECK(lo == wl && lo2 == wl, "C17/min_v", "compile-time min of %d numbers is %lld and %lld instead of %lld", int(v.size()), (long long)lo, (long long)lo2, (long long)wl);
  HV_CHECK(hi == wh && hi2 == wh, "C17/max_v", "compile-time max of %d numbers is %lld and %lld instead of %lld", int(v.size()), (long long)hi, (long long)hi2, (long long)wh);
  observed(mix(uint64_t(lo), uint64_t(hi)));
}
template <class T, size_t... Set>
void ctPacks(std::index_sequence<Set...>) {
  (ctPack<T, Set>(std::make_index_sequence<1 + Set % 9>()), ...);
}
template <class T>
void simple(Rng& rng, const char* ty) {
  for (int t = 0, T0 = scale(300); t < T0; t++) {
    T x;
    if constexpr (std::is_floating_point_v<T>) x = T(rng.coin(0.2) ? 0.0 : rng.coin(0.1) ? -0.0 : rng.coin() ? rng.d(-1e3, 1e3) : std::ldexp(rng.d(-1, 1), int(rng.range(-140, 120))));
    else x = T(rng.range(-30000, 30000));
    beginCase(fmt("square/sign<%s>(%.17g)", ty, double(x)));
    HV_CHECK(heu::square(x) == T(x * x), std::string("C17/square/") + ty, "square(%.17g) is %.17g", double(x), double(heu::square(x)));
    const T s = heu::sign(x);
    HV_CHECK(s == (x > 0 ? T(1) : x < 0 ? T(-1) : T(0)), std::string("C17/sign/") + ty, "sign(%.17g) is %.17g", double(x), double(s));
    observed(bits(double(x)));
  }
}
HV_PART(math_helpers) {
  packs<int>(rng, "int");
  packs<unsigned>(rng, "unsigned");
  packs<double>(rng, "double");
  packs<float>(rng, "float");
  packs<size_t>(rng, "size_t");
  ctPacks<int64_t>(std::make_index_sequence<60>());
  ctPacks<int>(std::make_index_sequence<30>());
  ctPacks<uint64_t>(std::make_index_sequence<30>());
  simple<int>(rng, "int");
  simple<double>(rng, "double");
  simple<float>(rng, "float");
  simple<int64_t>(rng, "int64_t");
  for (int t = 0, T = scale(300); t < T; t++) {
    const double x = rng.d(-30, 30), mu = rng.d(-9, 9), sg = rng.d(0.05, 9);
    beginCase(fmt("gaussianCurve(%g,%g,%g)", x, mu, sg));
    const double want = std::exp(-(x - mu) * (x - mu) / 2 / sg / sg) / sg / std::sqrt(2 * 3.14159265358979323846);
    HV_CHECK(near(heu::gaussianCurve(x, mu, sg), want, 1e-10, 1e-300), "C17/gaussian", "gaussianCurve(%g,%g,%g) is %g instead of %g", x, mu, sg, heu::gaussianCurve(x, mu, sg), want);
    HV_CHECK(near(heu::gaussianCurve(x), std::exp(-x * x / 2) / std::sqrt(2 * 3.14159265358979323846), 1e-10, 1e-300), "C17/gaussian_std", "gaussianCurve(%g) is %g", x, heu::gaussianCurve(x));
    observed(bits(x));
  }
}
