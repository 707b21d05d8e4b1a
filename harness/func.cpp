// C20, C21: benchmark functions against their published formulas, in arithmetic that bounds its own rounding.
// FN_GROUP 0: single-objective, 1: multi-objective of one/two/n variables, 2: DTLZ
#include "hv.hpp"
#include "errnum.hpp"
#include <array>
#include <limits>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
using namespace hv;
using en::E;
using en::PI;
using Vec = std::vector<E>;
#ifndef FN_GROUP
#define FN_GROUP 0
#endif

template <class V>
static V makeVar(const std::vector<double>& x) {
  V v;
  if constexpr (!heu::array_traits<V>::isFixedSize) v.resize(int(x.size()));
  for (size_t i = 0; i < x.size(); i++) heu::at(v, int(i)) = typename heu::array_traits<V>::Scalar_t(x[i]);
  return v;
}
template <class V>
static Vec asE(const V& v) {
  Vec r;
  for (int i = 0; i < int(v.size()); i++) {
    E e;
    e.v = heu::at(const_cast<V&>(v), i);
    r.push_back(e);
  }
  return r;
}
template <class S>
static void setEps() {
  en::EPS = std::numeric_limits<S>::epsilon();
}
static bool within(long double got, const E& want) {
  if (std::isnan(got)) return false;
  return std::fabs(got - want.v) <= 4 * want.e + (en::EPS > 1e-10L ? 1e-36L : 1e-300L);  // underflow
}
static std::string show(const Vec& x) {
  std::string s = "(";
  for (size_t i = 0; i < x.size() && i < 12; i++) s += fmt("%s%.17Lg", i ? "," : "", x[i].v);
  return s + ")";
}

#if FN_GROUP == 0
// ---------------------------------------------------------------- the published formulas
static E ackley(const Vec& v) { E x = v[0], y = v[1]; return E(-20) * exp(E(-0.2L) * sqrt(E(0.5L) * (sq(x) + sq(y)))) - exp(E(0.5L) * (cos(E(2) * E(PI) * x) + cos(E(2) * E(PI) * y))) + E(std::exp(1.0L)) + E(20); }
static E beale(const Vec& v) { E x = v[0], y = v[1]; return sq(E(1.5L) - x + x * y) + sq(E(2.25L) - x + x * y * y) + sq(E(2.625L) - x + x * y * y * y); }
static E goldstein(const Vec& v) {
  E x = v[0], y = v[1];
  return (E(1) + sq(x + y + E(1)) * (E(19) - E(14) * x + E(3) * x * x - E(14) * y + E(6) * x * y + E(3) * y * y)) *
         (E(30) + sq(E(2) * x - E(3) * y) * (E(18) - E(32) * x + E(12) * x * x + E(48) * y - E(36) * x * y + E(27) * y * y));
}
static E booth(const Vec& v) { E x = v[0], y = v[1]; return sq(x + E(2) * y - E(7)) + sq(E(2) * x + y - E(5)); }
static E bukin(const Vec& v) { E x = v[0], y = v[1]; return E(100) * sqrt(abs(y - E(0.01L) * x * x)) + E(0.01L) * abs(x + E(10)); }
static E matyas(const Vec& v) { E x = v[0], y = v[1]; return E(0.26L) * (x * x + y * y) - E(0.48L) * x * y; }
static E levy(const Vec& v) { E x = v[0], y = v[1]; return sq(sin(E(3) * E(PI) * x)) + sq(x - E(1)) * (E(1) + sq(sin(E(3) * E(PI) * y))) + sq(y - E(1)) * (E(1) + sq(sin(E(2) * E(PI) * y))); }
static E himmelblau(const Vec& v) { E x = v[0], y = v[1]; return sq(x * x + y - E(11)) + sq(x + y * y - E(7)); }
static E camel3(const Vec& v) { E x = v[0], y = v[1]; E x2 = x * x; return E(2) * x2 - E(1.05L) * x2 * x2 + x2 * x2 * x2 / E(6) + x * y + y * y; }
static E easom(const Vec& v) { E x = v[0], y = v[1]; return -(cos(x) * cos(y) * exp(-(sq(x - E(PI)) + sq(y - E(PI))))); }
static E crossInTray(const Vec& v) { E x = v[0], y = v[1]; return E(-0.0001L) * pow(abs(sin(x) * sin(y) * exp(abs(E(100) - sqrt(x * x + y * y) / E(PI)))) + E(1), 0.1L); }
static E eggHolder(const Vec& v) { E x = v[0], y = v[1]; return -((y + E(47)) * sin(sqrt(abs(x / E(2) + (y + E(47)))))) - x * sin(sqrt(abs(x - (y + E(47))))); }
static E holderTable(const Vec& v) { E x = v[0], y = v[1]; return -abs(sin(x) * cos(y) * exp(abs(E(1) - sqrt(x * x + y * y) / E(PI)))); }
static E mcCormick(const Vec& v) { E x = v[0], y = v[1]; return sin(x + y) + sq(x - y) - E(1.5L) * x + E(2.5L) * y + E(1); }
static E schaffer2(const Vec& v) { E x = v[0], y = v[1]; return E(0.5L) + (sq(sin(x * x - y * y)) - E(0.5L)) / sq(E(1) + E(0.001L) * (x * x + y * y)); }
static E schaffer4(const Vec& v) { E x = v[0], y = v[1]; return E(0.5L) + (sq(cos(sin(abs(x * x - y * y)))) - E(0.5L)) / sq(E(1) + E(0.001L) * (x * x + y * y)); }
static E rastrigin(const Vec& v) { E s = E(10) * E(int(v.size())); for (E x : v) s = s + (x * x - E(10) * cos(E(2) * E(PI) * x)); return s; }
static E sphere(const Vec& v) { E s; for (E x : v) s = s + x * x; return s; }
static E rosenbrock(const Vec& v) { E s; for (size_t i = 0; i + 1 < v.size(); i++) s = s + (E(100) * sq(v[i + 1] - v[i] * v[i]) + sq(E(1) - v[i])); return s; }
static E styblinski(const Vec& v) { E s; for (E x : v) s = s + (x * x * x * x - E(16) * x * x + E(5) * x); return s / E(2); }

struct Opt { std::vector<double> x; double f, tol; };
struct Fn { const char* name; E (*o)(const Vec&); double lox, hix, loy, hiy; std::vector<Opt> opt; };
static const std::vector<Fn> F2 = {
    {"ackley", ackley, -5, 5, -5, 5, {{{0, 0}, 0, 1e-6}}},
    {"beale", beale, -4.5, 4.5, -4.5, 4.5, {{{3, 0.5}, 0, 1e-6}}},
    {"GoldsteinPrice", goldstein, -2, 2, -2, 2, {{{0, -1}, 3, 1e-6}}},
    {"booth", booth, -10, 10, -10, 10, {{{1, 3}, 0, 1e-6}}},
    {"bukin", bukin, -15, -5, -3, 3, {{{-10, 1}, 0, 1e-6}}},
    {"matyas", matyas, -10, 10, -10, 10, {{{0, 0}, 0, 1e-6}}},
    {"levy", levy, -10, 10, -10, 10, {{{1, 1}, 0, 1e-6}}},
    {"himmelblau", himmelblau, -5, 5, -5, 5, {{{3, 2}, 0, 1e-6}, {{-2.805118, 3.131312}, 0, 1e-6}, {{-3.779310, -3.283186}, 0, 1e-6}, {{3.584428, -1.848126}, 0, 1e-6}}},
    {"threeHumpCamel", camel3, -5, 5, -5, 5, {{{0, 0}, 0, 1e-6}}},
    {"easom", easom, -100, 100, -100, 100, {{{double(PI), double(PI)}, -1, 1e-6}}},
    {"crossInTray", crossInTray, -10, 10, -10, 10, {{{1.34941, 1.34941}, -2.06261, 2e-5}, {{1.34941, -1.34941}, -2.06261, 2e-5}, {{-1.34941, 1.34941}, -2.06261, 2e-5}, {{-1.34941, -1.34941}, -2.06261, 2e-5}}},
    {"eggHolder", eggHolder, -512, 512, -512, 512, {{{512, 404.2319}, -959.6407, 1e-3}}},
    {"holderTable", holderTable, -10, 10, -10, 10, {{{8.05502, 9.66459}, -19.2085, 1e-4}, {{-8.05502, 9.66459}, -19.2085, 1e-4}, {{8.05502, -9.66459}, -19.2085, 1e-4}, {{-8.05502, -9.66459}, -19.2085, 1e-4}}},
    {"McCormick", mcCormick, -1.5, 4, -3, 4, {{{-0.54719, -1.54719}, -1.9133, 1e-4}}},
    {"schaffer2", schaffer2, -100, 100, -100, 100, {{{0, 0}, 0, 1e-6}}},
    {"schaffer4", schaffer4, -100, 100, -100, 100, {{{0, 1.25313}, 0.292579, 2e-6}, {{0, -1.25313}, 0.292579, 2e-6}, {{1.25313, 0}, 0.292579, 2e-6}, {{-1.25313, 0}, 0.292579, 2e-6}}},
};
static Fn fx(const char* name, int n) {
  const std::string s = name;
  const std::vector<double> zero(static_cast<size_t>(n), 0.0);
  if (s == "rastrigin") return {"rastrigin", rastrigin, -5.12, 5.12, -5.12, 5.12, {{zero, 0, 1e-6 * n}}};
  if (s == "sphere") return {"sphere", sphere, -100, 100, -100, 100, {{zero, 0, 1e-6 * n}}};
  if (s == "rosenbrock") return {"rosenbrock", rosenbrock, -30, 30, -30, 30, {{std::vector<double>(size_t(n), 1.0), 0, 1e-6 * n}}};
  return {"styblinskiTang", styblinski, -5, 5, -5, 5, {{std::vector<double>(size_t(n), -2.903534), -39.16617 * n, 2e-5 * n}}};
}
template <class V, class F>
struct Lib {
  const char* name;
  void (*plain)(const V*, F*);
  void (*args)(const V*, const int*, F*);
};
#define LF(n) {#n, [](const V* x, F* f) { heu::testFunctions<V, F>::n(x, f); }, [](const V* x, const int* a, F* f) { heu::testFunctions<V, F, int>::n(x, a, f); }}
template <class V, class F>
static void one(const char* cont, const Lib<V, F>& l, const Fn& fn, int n, Rng& rng, int T) {
  using S = typename heu::array_traits<V>::Scalar_t;
  if (std::is_same<S, float>::value || std::is_same<F, float>::value) setEps<float>(); else setEps<double>();
  const bool flt = en::EPS > 1e-10L;
  for (int t = 0; t < T; t++) {
    std::vector<double> x;
    int kind = int(rng.range(0, 7)), which = -1;
    if (t < int(fn.opt.size())) kind = 8, which = t;
    for (int i = 0; i < n; i++) {
      const double lo = i % 2 == 0 ? fn.lox : fn.loy, hi = i % 2 == 0 ? fn.hix : fn.hiy;
      switch (kind) {
        case 0: case 1: case 2: x.push_back(rng.d(lo, hi)); break;
        case 3: x.push_back(rng.d(lo - (hi - lo) / 2, hi + (hi - lo) / 2)); break;
        case 4: x.push_back(double(rng.range(-6, 6))); break;
        case 5: x.push_back(i > 0 && rng.coin() ? x[0] : rng.d(-2, 2)); break;
        case 6: x.push_back(rng.coin() ? lo : hi); break;
        case 7: x.push_back(fn.opt[0].x[size_t(i)] + rng.d(-1, 1) * 0.1); break;
        default: x.push_back(fn.opt[size_t(which)].x[size_t(i)]);
      }
    }
    const V v = makeVar<V>(x);
    const Vec e = asE(v);
    const E want = fn.o(e);
    if (t % 64 == 0 || kind == 8) beginCase(fmt("%s of %s, %d variables, at %s", fn.name, cont, n, show(e).c_str()));
    else R.evaluations++;
    F got = F(777), got2 = F(-777);
    l.plain(&v, &got);
    int arg = 5;
    l.args(&v, &arg, &got2);
    HV_CHECK(within(got, want), std::string("C20/formula/") + fn.name, "%s<%s>%s is %.17g, published formula %.17Lg (rounding bound %.3Lg)", fn.name, cont, show(e).c_str(), double(got), want.v, 4 * want.e);
    HV_CHECK(bits(double(got)) == bits(double(got2)) || within(got2, want), std::string("C20/args/") + fn.name, "%s<%s>%s is %.17g, with Args %.17g", fn.name, cont, show(e).c_str(), double(got), double(got2));
    bool in = true;
    for (int i = 0; i < n; i++) in = in && e[size_t(i)].v >= (i % 2 ? fn.loy : fn.lox) && e[size_t(i)].v <= (i % 2 ? fn.hiy : fn.hix);
    const double slack = fn.opt[0].tol + double(4 * want.e);
    if (in) HV_CHECK(got >= fn.opt[0].f - slack, std::string("C20/below_minimum/") + fn.name, "%s<%s>%s is %.17g, below the published minimum %.10g", fn.name, cont, show(e).c_str(), double(got), fn.opt[0].f);
    if (kind == 8) {
      HV_CHECK(std::fabs(got - fn.opt[size_t(which)].f) <= slack + (flt ? 1e-2 : 0), std::string("C20/minimum/") + fn.name, "%s<%s> is %.17g at its published minimizer %s, not %.10g", fn.name, cont, double(got), show(e).c_str(), fn.opt[size_t(which)].f);
      count("known_minima");
    }
    count("points");
    if (flt) count("points_float");
    if (fn.opt.size() && in) count("points_in_domain");
    observed(mix(bits(double(got)), uint64_t(fn.name[0]) * 31 + uint64_t(n)));
  }
}
template <class V, class F>
static void two(const char* cont, Rng& rng, int T) {
  const std::vector<Lib<V, F>> L = {LF(ackley), LF(beale), LF(GoldsteinPrice), LF(booth), LF(bukin), LF(matyas), LF(levy), LF(himmelblau), LF(threeHumpCamel), LF(easom), LF(crossInTray), LF(eggHolder), LF(holderTable), LF(McCormick), LF(schaffer2), LF(schaffer4)};
  for (size_t i = 0; i < L.size(); i++) one<V, F>(cont, L[i], F2[i], 2, rng, T);
}
template <class V, class F>
static void many(const char* cont, int n, Rng& rng, int T) {
  const std::vector<Lib<V, F>> L = {LF(rastrigin), LF(sphere), LF(rosenbrock), LF(styblinskiTang)};
  for (auto& l : L) one<V, F>(cont, l, fx(l.name, n), n, rng, T);
}
HV_PART(so_two) {
  const int T = scale(3000);
  using A2 = std::array<double, 2>; using A2f = std::array<float, 2>;
  two<A2, double>("std::array<double,2>", rng, T);
  two<std::vector<double>, double>("std::vector<double>", rng, T);
  two<Eigen::Array2d, double>("Eigen::Array2d", rng, T);
  two<Eigen::ArrayXd, double>("Eigen::ArrayXd", rng, T);
  two<Eigen::Vector2d, double>("Eigen::Vector2d", rng, T);
  two<Eigen::VectorXd, double>("Eigen::VectorXd", rng, T);
  two<Eigen::RowVector2d, double>("Eigen::RowVector2d", rng, T);
  two<Eigen::RowVectorXd, double>("Eigen::RowVectorXd", rng, T);
  two<A2f, float>("std::array<float,2>, float", rng, T);
  two<std::vector<float>, double>("std::vector<float>", rng, T);
  two<Eigen::ArrayXf, float>("Eigen::ArrayXf, float", rng, T);
  two<std::vector<double>, float>("std::vector<double>, float", rng, T);
}
HV_PART(so_many) {
  const int T = scale(1500);
  many<std::array<double, 1>, double>("std::array<double,1>", 1, rng, T);
  many<std::array<double, 7>, double>("std::array<double,7>", 7, rng, T);
  many<Eigen::Array<double, 1, 1>, double>("Eigen::Array<double,1,1>", 1, rng, T);
  many<Eigen::Array<double, 5, 1>, double>("Eigen::Array<double,5,1>", 5, rng, T);
  many<Eigen::Matrix<double, 6, 1>, double>("Eigen::Matrix<double,6,1>", 6, rng, T);
  many<Eigen::Matrix<double, 1, 4>, double>("Eigen::Matrix<double,1,4>", 4, rng, T);
  many<Eigen::Array<double, 1, 3>, double>("Eigen::Array<double,1,3>", 3, rng, T);
  many<std::array<float, 3>, float>("std::array<float,3>, float", 3, rng, T);
  for (int n : {1, 2, 3, 8, 30, 1 + int(rng.range(0, 99))}) {
    many<std::vector<double>, double>("std::vector<double>", n, rng, T);
    many<Eigen::ArrayXd, double>("Eigen::ArrayXd", n, rng, T);
    many<Eigen::VectorXd, double>("Eigen::VectorXd", n, rng, T);
    many<Eigen::RowVectorXd, double>("Eigen::RowVectorXd", n, rng, T);
    many<std::vector<float>, double>("std::vector<float>", n, rng, T);
    many<Eigen::ArrayXf, float>("Eigen::ArrayXf, float", n, rng, T);
  }
}
#else
// ---------------------------------------------------------------- multi-objective
struct Out {
  Vec f;
  std::vector<E> viol;  // viol[j] > 0: the constraint penalizing objective j is violated by that much
  bool constrained = false;
};
using Oracle = Out (*)(const Vec&, int);
static E sumSq(const Vec& f) { E s; for (E x : f) s = s + x * x; return s; }
#if FN_GROUP == 1
static Out schaffer1(const Vec& v, int) { return {{v[0] * v[0], sq(v[0] - E(2))}, {}}; }
static Out schaffer2m(const Vec& v, int) {
  const E x = v[0];
  const E f1 = x.v <= 1 ? -x : x.v <= 3 ? x - E(2) : x.v <= 4 ? E(4) - x : x - E(4);
  return {{f1, sq(x - E(5))}, {}};
}
static Out binhKorn(const Vec& v, int) {
  E x = v[0], y = v[1];
  return {{E(4) * x * x + E(4) * y * y, sq(x - E(5)) + sq(y - E(5))}, {sq(x - E(5)) + y * y - E(25), E(7.7L) - sq(x - E(8)) - sq(y + E(3))}, true};
}
static Out chankong(const Vec& v, int) {
  E x = v[0], y = v[1];
  return {{E(2) + sq(x - E(2)) + sq(y - E(1)), E(9) * x - sq(y - E(1))}, {x * x + y * y - E(225), x - E(3) * y + E(10)}, true};
}
static Out poloni(const Vec& v, int) {
  E x = v[0], y = v[1];
  auto B1 = [](E a, E b) { return E(0.5L) * sin(a) - E(2) * cos(a) + sin(b) - E(1.5L) * cos(b); };
  auto B2 = [](E a, E b) { return E(1.5L) * sin(a) - cos(a) + E(2) * sin(b) - E(0.5L) * cos(b); };
  return {{E(1) + sq(B1(E(1), E(2)) - B1(x, y)) + sq(B2(E(1), E(2)) - B2(x, y)), sq(x + E(3)) + sq(y + E(1))}, {}};
}
static Out viennet(const Vec& v, int) {
  E x = v[0], y = v[1], r = x * x + y * y;
  return {{E(0.5L) * r + sin(r), sq(E(3) * x - E(2) * y + E(4)) / E(8) + sq(x - y + E(1)) / E(27) + E(15), E(1) / (r + E(1)) - E(1.1L) * exp(-r)}, {}};
}
static Out fonseca(const Vec& v, int) {
  E a, b, r = E(1) / sqrt(E(int(v.size())));
  for (E x : v) a = a + sq(x - r), b = b + sq(x + r);
  return {{E(1) - exp(-a), E(1) - exp(-b)}, {}};
}
static Out kursawe(const Vec& v, int) {
  E a, b;
  for (size_t i = 0; i + 1 < v.size(); i++) a = a - E(10) * exp(E(-0.2L) * sqrt(v[i] * v[i] + v[i + 1] * v[i + 1]));
  for (E x : v) b = b + (pow(abs(x), 0.8L) + E(5) * sin(x * x * x));
  return {{a, b}, {}};
}
#else
static E g1(const Vec& v, int M) {
  E s;
  const int k = int(v.size()) - M + 1;
  for (int i = M - 1; i < int(v.size()); i++) s = s + (sq(v[size_t(i)] - E(0.5L)) - cos(E(20) * E(PI) * (v[size_t(i)] - E(0.5L))));
  return E(100) * (E(k) + s);
}
static E g2(const Vec& v, int M) {
  E s;
  for (int i = M - 1; i < int(v.size()); i++) s = s + sq(v[size_t(i)] - E(0.5L));
  return s;
}
static Out dtlz1(const Vec& v, int M) {
  Out o;
  const E g = E(1) + g1(v, M);
  for (int j = 0; j < M; j++) {  // f_j = 1/2 x_1 ... x_{M-1-j} (1 - x_{M-j}) (1+g)
    E p = E(0.5L) * g;
    for (int i = 0; i < M - 1 - j; i++) p = p * v[size_t(i)];
    if (j > 0) p = p * (E(1) - v[size_t(M - 1 - j)]);
    o.f.push_back(p);
  }
  return o;
}
static Out spherical(const Vec& theta, E g, int M) {
  Out o;
  for (int j = 0; j < M; j++) {
    E p = E(1) + g;
    for (int i = 0; i < M - 1 - j; i++) p = p * cos(theta[size_t(i)]);
    if (j > 0) p = p * sin(theta[size_t(M - 1 - j)]);
    o.f.push_back(p);
  }
  return o;
}
static Out dtlz2(const Vec& v, int M) { Vec th; for (int i = 0; i < M - 1; i++) th.push_back(v[size_t(i)] * E(PI) / E(2)); return spherical(th, g2(v, M), M); }
static Out dtlz3(const Vec& v, int M) { Vec th; for (int i = 0; i < M - 1; i++) th.push_back(v[size_t(i)] * E(PI) / E(2)); return spherical(th, g1(v, M), M); }
template <int A>
static Out dtlz4(const Vec& v, int M) { Vec th; for (int i = 0; i < M - 1; i++) th.push_back(pow(v[size_t(i)], A) * E(PI) / E(2)); return spherical(th, g2(v, M), M); }
static Out curve(const Vec& v, E g, int M) {
  Vec th{v[0] * E(PI) / E(2)};
  for (int i = 1; i < M - 1; i++) th.push_back(E(PI) / (E(4) * (E(1) + g)) * (E(1) + E(2) * g * v[size_t(i)]));
  return spherical(th, g, M);
}
static Out dtlz5(const Vec& v, int M) { return curve(v, g2(v, M), M); }
static Out dtlz6(const Vec& v, int M) { E g; for (int i = M - 1; i < int(v.size()); i++) g = g + pow(v[size_t(i)], 0.1L); return curve(v, g, M); }
static Out dtlz7(const Vec& v, int M) {
  Out o;
  E s, h = E(M);
  for (int i = M - 1; i < int(v.size()); i++) s = s + v[size_t(i)];
  const E g = E(1) + E(9) / E(int(v.size()) - M + 1) * s;
  for (int i = 0; i < M - 1; i++) {
    o.f.push_back(v[size_t(i)]);
    h = h - v[size_t(i)] / (E(1) + g) * (E(1) + sin(E(3) * E(PI) * v[size_t(i)]));
  }
  o.f.push_back((E(1) + g) * h);
  return o;
}
static Out dtlz8(const Vec& v, int M) {
  Out o;
  const int N = int(v.size());
  for (int j = 0; j < M; j++) {
    E s;
    for (int i = j * N / M; i <= std::min((j + 1) * N / M, N - 1); i++) s = s + v[size_t(i)];
    o.f.push_back(s / E(N / M));
  }
  for (int j = 0; j < M - 1; j++) o.viol.push_back(E(1) - o.f[size_t(M - 1)] - E(4) * o.f[size_t(j)]);
  if (M > 2) {
    E best;
    bool first = true;
    for (int i = 0; i < M - 1; i++)
      for (int j = i + 1; j < M - 1; j++) {
        const E s = o.f[size_t(i)] + o.f[size_t(j)];
        if (first || s.v < best.v) best = s, first = false;
      }
    o.viol.push_back(E(1) - E(2) * o.f[size_t(M - 1)] - best);
  } else
    o.viol.push_back(E(-1));
  o.constrained = true;
  return o;
}
static Out dtlz9(const Vec& v, int M) {
  Out o;
  const int N = int(v.size());
  for (int j = 0; j < M; j++) {
    E s;
    for (int i = j * N / M; i <= std::min((j + 1) * N / M, N - 1); i++) s = s + pow(v[size_t(i)], 0.1L);
    o.f.push_back(s);
  }
  for (int j = 0; j < M - 1; j++) o.viol.push_back(E(1) - sq(o.f[size_t(M - 1)]) - sq(o.f[size_t(j)]));
  o.viol.push_back(E(-1));
  o.constrained = true;
  return o;
}
#endif

template <class V, class F>
struct Lib {
  const char* name;
  void (*plain)(const V*, F*);
  void (*args)(const V*, const int*, F*);
  Oracle o;
  double lo, hi;
};
#define LM(n, o, lo, hi) {#n, [](const V* x, F* f) { heu::testFunctions<V, F>::n(x, f); }, [](const V* x, const int* a, F* f) { heu::testFunctions<V, F, int>::n(x, a, f); }, o, lo, hi}
// sizes: does the function size its fitness itself?
template <class V, class F>
static void one(const char* cont, const Lib<V, F>& l, int N, int M, bool sizesItself, Rng& rng, int T) {
  using S = typename heu::array_traits<V>::Scalar_t;
  using SF = typename heu::array_traits<F>::Scalar_t;
  if (std::is_same<S, float>::value || std::is_same<SF, float>::value) setEps<float>(); else setEps<double>();
  const std::string nm = l.name;
  for (int t = 0; t < T; t++) {
    std::vector<double> x;
    const int kind = int(rng.range(0, 5));
    const bool dtlz = l.lo == 0 && l.hi == 1;
    int front = 0;
    if (t % 8 == 0) {
      if (nm == "DTLZ1" || nm == "DTLZ2" || nm == "DTLZ3" || nm == "DTLZ4" || nm == "DTLZ5") front = 1;  // x_M = 0.5
      if (nm == "DTLZ6" || nm == "DTLZ7") front = 2;                                                     // x_M = 0
      if (nm == "FonsecaFleming") front = 3;                                                             // the diagonal
    }
    const double diag = rng.d(-1, 1) / std::sqrt(double(N));
    for (int i = 0; i < N; i++) {
      double r;
      switch (kind) {
        case 0: r = rng.coin(0.3) ? (rng.coin() ? l.lo : l.hi) : rng.d(l.lo, l.hi); break;
        case 1: r = dtlz ? double(rng.range(0, 4)) / 4 : double(rng.range(-6, 6)); break;
        case 2: r = dtlz ? std::pow(rng.u(), 8) : rng.d(l.lo, l.hi) * 1.5; break;
        case 3: r = dtlz ? (i >= M - 1 ? 0.5 : rng.u()) : rng.d(-1, 1); break;
        default: r = rng.d(l.lo, l.hi);
      }
      if (front == 1 && i >= M - 1) r = 0.5;
      if (front == 2 && i >= M - 1) r = 0;
      if (front == 3) r = diag;
      x.push_back(r);
    }
    const V v = makeVar<V>(x);
    const Vec e = asE(v);
    const Out want = l.o(e, M);
    if (t % 32 == 0) beginCase(fmt("%s of %s, %d variables, %d objectives, at %s", l.name, cont, N, M, show(e).c_str()));
    else R.evaluations++;
    F f, f2;
    if constexpr (!heu::array_traits<F>::isFixedSize) {
      const int s0 = sizesItself && rng.coin() ? int(rng.range(0, 5)) : M;
      f.resize(s0);
      f2.resize(M);
    }
    for (int j = 0; j < int(f.size()); j++) heu::at(f, j) = SF(777);
    for (int j = 0; j < int(f2.size()); j++) heu::at(f2, j) = SF(-777);
    l.plain(&v, &f);
    int arg = 9;
    l.args(&v, &arg, &f2);
    if (int(f.size()) != M || int(f2.size()) != M) {
      violation("C21/size/" + nm, fmt("%s<%s> left %d / %d objectives instead of %d", l.name, cont, int(f.size()), int(f2.size()), M));
      continue;
    }
    uint64_t sig = uint64_t(N) * 131 + uint64_t(M);
    for (int j = 0; j < M; j++) {
      const double got = heu::at(f, j), got2 = heu::at(f2, j);
      const E w = want.f[size_t(j)];
      HV_CHECK(bits(got) == bits(got2), "C21/args/" + nm, "%s<%s>%s objective %d is %.17g, with Args %.17g", l.name, cont, show(e).c_str(), j, got, got2);
      int state = -1;  // -1 satisfied or none, 0 on the border up to rounding, 1 violated
      if (want.constrained) {
        const E g = want.viol[size_t(j)];
        state = g.v > 4 * g.e ? 1 : g.v > -4 * g.e && g.e > 0 && g.v != -1 ? 0 : -1;
      }
      const bool exact = within(got, w), penal = got >= double(w.v) + 1e3 - 1e-3 - double(4 * w.e);
      if (state == -1) HV_CHECK(exact, "C21/formula/" + nm, "%s<%s>%s, %d objectives: objective %d is %.17g, published formula %.17Lg (rounding bound %.3Lg)", l.name, cont, show(e).c_str(), M, j, got, w.v, 4 * w.e);
      else if (state == 1) {
        HV_CHECK(penal, "C21/penalty/" + nm, "%s<%s>%s: objective %d is %.17g although its constraint is violated by %.17Lg (unpenalized %.17Lg)", l.name, cont, show(e).c_str(), j, got, want.viol[size_t(j)].v, w.v);
        count("penalties");
      } else
        HV_CHECK(exact || penal, "C21/formula/" + nm, "%s<%s>%s: objective %d is %.17g on the border, published formula %.17Lg", l.name, cont, show(e).c_str(), j, got, w.v);
      sig = mix(sig, bits(got));
    }
    // the published fronts, from the library's values alone
    if (front) {
      const double tol = en::EPS > 1e-10L ? 2e-4 : 1e-9;
      double s1 = 0, s2 = 0;
      for (int j = 0; j < M; j++) s1 += double(heu::at(f, j)), s2 += double(heu::at(f, j)) * double(heu::at(f, j));
      bool ok = true;
      if (nm == "DTLZ1") ok = std::fabs(s1 - 0.5) < tol;
      else if (nm == "DTLZ7") {
        double h = M;
        for (int j = 0; j < M - 1; j++) h -= double(heu::at(f, j)) / 2 * (1 + std::sin(3 * M_PI * double(heu::at(f, j))));
        ok = std::fabs(double(heu::at(f, M - 1)) - 2 * h) < tol * M;
      } else if (nm == "FonsecaFleming") {
        const double f1 = heu::at(f, 0), f2v = heu::at(f, 1), r = 2 - std::sqrt(std::max(0.0, -std::log(1 - f1)));
        ok = std::fabs(f2v - (1 - std::exp(-r * r))) < (tol > 1e-6 ? 2e-2 : 1e-6);
      } else
        ok = std::fabs(s2 - 1) < tol * 10;
      if (ok && (nm == "DTLZ5" || nm == "DTLZ6")) {  // a curve: the first objectives follow from the last
        for (int j = 1; j + 1 < M; j++) {
          const double r = double(heu::at(f, 0)) * std::pow(std::sqrt(2.0), j - 1);
          ok = ok && std::fabs(double(heu::at(f, j)) - r) < tol * 10;
        }
      }
      HV_CHECK(ok, "C21/front/" + nm, "%s<%s>%s is Pareto optimal but its %d objectives miss the published front", l.name, cont, show(e).c_str(), M);
      count("front_points");
    }
    count("points");
    observed(sig);
  }
}
#if FN_GROUP == 1
template <class V, class F>
static void oneVar(const char* c, Rng& rng, int T) {
  const std::vector<Lib<V, F>> L = {LM(Schaffer1, schaffer1, -10, 10), LM(Schaffer2, schaffer2m, -5, 10)};
  for (auto& l : L) one<V, F>(c, l, 1, 2, true, rng, T);
}
template <class V, class F>
static void twoVar(const char* c, Rng& rng, int T) {
  const std::vector<Lib<V, F>> L = {LM(BinhKorn, binhKorn, 0, 5), LM(ChangkongHaimes, chankong, -20, 20), LM(Poloni, poloni, -3.14159, 3.14159)};
  for (auto& l : L) one<V, F>(c, l, 2, 2, true, rng, T);
}
template <class V, class F>
static void twoVar3(const char* c, Rng& rng, int T) {
  const std::vector<Lib<V, F>> L = {LM(viennet, viennet, -3, 3)};
  for (auto& l : L) one<V, F>(c, l, 2, 3, true, rng, T);
}
template <class V, class F>
static void manyVar(const char* c, int n, Rng& rng, int T) {
  const std::vector<Lib<V, F>> L = {LM(FonsecaFleming, fonseca, -4, 4), LM(Kursawe, kursawe, -5, 5)};
  for (auto& l : L) one<V, F>(c, l, n, 2, false, rng, T);
}
using namespace Eigen;
using SV = std::vector<double>;
#define TS(x) #x
HV_PART(mo_one) {
  const int T = scale(6000);
  oneVar<std::array<double, 1>, std::array<double, 2>>("std::array,std::array", rng, T);
  oneVar<std::array<double, 1>, SV>("std::array,std::vector", rng, T);
  oneVar<SV, SV>("std::vector,std::vector", rng, T);
  oneVar<SV, std::array<double, 2>>("std::vector,std::array", rng, T);
  oneVar<SV, ArrayXd>("std::vector,ArrayXd", rng, T);
  oneVar<ArrayXd, Array2d>("ArrayXd,Array2d", rng, T);
  oneVar<VectorXd, SV>("VectorXd,std::vector", rng, T);
  oneVar<Array<double, 1, 1>, VectorXd>("Array<double,1,1>,VectorXd", rng, T);
  oneVar<Matrix<double, 1, 1>, Vector2d>("Matrix<double,1,1>,Vector2d", rng, T);
  oneVar<std::vector<float>, std::vector<float>>("float std::vector", rng, T);
}
HV_PART(mo_two) {
  const int T = scale(4000);
#define BOTH(V, F2_, F3_) twoVar<V, F2_>(#V "," #F2_, rng, T), twoVar3<V, F3_>(#V "," #F3_, rng, T)
  using A2 = std::array<double, 2>; using A3 = std::array<double, 3>; using SF = std::vector<float>;
  BOTH(A2, A2, A3); BOTH(A2, SV, SV); BOTH(A2, ArrayXd, ArrayXd); BOTH(A2, Array2d, Array3d);
  BOTH(SV, A2, A3); BOTH(SV, SV, SV); BOTH(SV, VectorXd, VectorXd); BOTH(SV, Array2d, Array3d);
  BOTH(Array2d, A2, A3); BOTH(Array2d, SV, SV); BOTH(Array2d, ArrayXd, ArrayXd); BOTH(Array2d, Array2d, Array3d);
  BOTH(ArrayXd, A2, A3); BOTH(ArrayXd, ArrayXd, ArrayXd); BOTH(VectorXd, VectorXd, VectorXd); BOTH(RowVector2d, Vector2d, Vector3d);
  BOTH(SF, SF, SF);
}
HV_PART(mo_many) {
  const int T = scale(3000);
  using A1 = std::array<double, 1>; using A2 = std::array<double, 2>; using A3 = std::array<double, 3>; using A6 = std::array<double, 6>;
  manyVar<A3, A2>("array3,array2", 3, rng, T);
  manyVar<A6, Array2d>("array6,Array2d", 6, rng, T);
  manyVar<A1, A2>("array1,array2", 1, rng, T);
  manyVar<A2, ArrayXd>("array2,ArrayXd", 2, rng, T);
  manyVar<Array<double, 3, 1>, A2>("Array3,array2", 3, rng, T);
  manyVar<Array<double, 5, 1>, Array2d>("Array5,Array2d", 5, rng, T);
  manyVar<Matrix<double, 4, 1>, Vector2d>("Vector4,Vector2d", 4, rng, T);
  manyVar<Matrix<double, 1, 4>, SV>("RowVector4,vector", 4, rng, T);
  for (int n : {1, 2, 3, 7, 20, int(rng.range(1, 60))}) {
    manyVar<SV, SV>("vector,vector", n, rng, T);
    manyVar<SV, A2>("vector,array", n, rng, T);
    manyVar<ArrayXd, ArrayXd>("ArrayXd,ArrayXd", n, rng, T);
    manyVar<ArrayXd, Array2d>("ArrayXd,Array2d", n, rng, T);
    manyVar<VectorXd, Vector2d>("VectorXd,Vector2d", n, rng, T);
    manyVar<RowVectorXd, A2>("RowVectorXd,array2", n, rng, T);
    manyVar<std::vector<float>, std::vector<float>>("vector<float>", n, rng, T);
  }
}
#else
template <class V, class F>
static void dtlz(const char* c, int N, int M, Rng& rng, int T) {
  const std::vector<Lib<V, F>> L = {LM(DTLZ1, dtlz1, 0, 1), LM(DTLZ2, dtlz2, 0, 1), LM(DTLZ3, dtlz3, 0, 1), LM(template DTLZ4<>, dtlz4<100>, 0, 1), LM(template DTLZ4<2>, dtlz4<2>, 0, 1), LM(DTLZ5, dtlz5, 0, 1), LM(DTLZ6, dtlz6, 0, 1), LM(DTLZ7, dtlz7, 0, 1)};
  for (auto l : L) {
    if (std::string(l.name).find("DTLZ4") != std::string::npos) l.name = "DTLZ4";
    one<V, F>(c, l, N, M, false, rng, T);
  }
}
template <class V, class F>
static void dtlz89(const char* c, int N, int M, Rng& rng, int T) {
  const std::vector<Lib<V, F>> L = {LM(DTLZ8, dtlz8, 0, 1), LM(DTLZ9, dtlz9, 0, 1)};
  for (auto l : L) one<V, F>(c, l, N, M, false, rng, T);
}
template <class V, class F>
static void dtlzAll(const char* c, int N, int M, Rng& rng, int T) {
  dtlz<V, F>(c, N, M, rng, T);
  dtlz89<V, F>(c, N, M, rng, T);
}
using namespace Eigen;
using SV = std::vector<double>;
HV_PART(dtlz_fixed) {
  const int T = scale(2000);
  using A3 = std::array<double, 3>; using A7 = std::array<double, 7>; using A2 = std::array<double, 2>; using A10 = std::array<double, 10>;
  using R7 = Array<double, 7, 1>; using R3 = Array<double, 3, 1>; using M7 = Matrix<double, 7, 1>; using M3 = Matrix<double, 3, 1>;
  dtlzAll<A7, A3>("array7,array3", 7, 3, rng, T);
  dtlzAll<A7, R3>("array7,Array3", 7, 3, rng, T);
  dtlzAll<R7, A3>("Array7,array3", 7, 3, rng, T);
  dtlzAll<R7, R3>("Array7,Array3", 7, 3, rng, T);
  dtlzAll<M7, M3>("Vector7,Vector3", 7, 3, rng, T);
  dtlzAll<R7, M3>("Array7,Vector3", 7, 3, rng, T);
  dtlzAll<Matrix<double, 1, 6>, Matrix<double, 1, 4>>("RowVector6,RowVector4", 6, 4, rng, T);
  dtlzAll<A10, A2>("array10,array2", 10, 2, rng, T);
  dtlzAll<R7, Array<double, 6, 1>>("Array7,Array6", 7, 6, rng, T);
  dtlz<R3, R3>("Array3,Array3 (k=1)", 3, 3, rng, T);
  dtlz<A2, A2>("array2,array2 (k=1)", 2, 2, rng, T);
  dtlzAll<std::array<float, 7>, std::array<float, 3>>("float array7,array3", 7, 3, rng, T);
}
HV_PART(dtlz_dynamic) {
  const int T = scale(800);
  for (int t = 0; t < 10; t++) {
    const int M = 2 + int(rng.range(0, t < 5 ? 2 : 6)), N = M + 1 + int(rng.range(0, 14));
    dtlzAll<SV, SV>("vector,vector", N, M, rng, T);
    dtlzAll<ArrayXd, ArrayXd>("ArrayXd,ArrayXd", N, M, rng, T);
    dtlzAll<VectorXd, VectorXd>("VectorXd,VectorXd", N, M, rng, T);
    dtlzAll<SV, ArrayXd>("vector,ArrayXd", N, M, rng, T);
    dtlzAll<ArrayXd, SV>("ArrayXd,vector", N, M, rng, T);
    dtlz<SV, SV>("vector,vector (k=1)", M, M, rng, T);
    dtlz<ArrayXd, ArrayXd>("ArrayXd,ArrayXd (k=1)", M, M, rng, T);
  }
}
HV_PART(dtlz_mixed) {
  const int T = scale(1000);
  for (int t = 0; t < 4; t++) {
    const int N = 4 + int(rng.range(0, 12));
    dtlzAll<SV, std::array<double, 3>>("vector,array3", N, 3, rng, T);
    dtlzAll<ArrayXd, Array3d>("ArrayXd,Array3d", N, 3, rng, T);
    dtlzAll<VectorXd, Array4d>("VectorXd,Array4d", 5 + N, 4, rng, T);
    dtlzAll<RowVectorXd, std::array<double, 2>>("RowVectorXd,array2", N, 2, rng, T);
    const int M = 2 + int(rng.range(0, 5));
    dtlzAll<std::array<double, 9>, SV>("array9,vector", 9, M, rng, T);
    dtlzAll<Array<double, 9, 1>, ArrayXd>("Array9,ArrayXd", 9, M, rng, T);
    dtlzAll<Array<double, 9, 1>, SV>("Array9,vector", 9, M, rng, T);
    dtlzAll<ArrayXf, ArrayXf>("ArrayXf", N, 3, rng, T);
  }
}
#endif
#endif
