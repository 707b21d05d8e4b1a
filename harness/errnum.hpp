// numbers with a rigorous first-order rounding bound: the oracle's value in long double and how far a straightforward
// evaluation in the library's scalar type (rounding unit EPS per operation) may be from it
#pragma once
#include <cmath>
#include <limits>
namespace en {
using ld = long double;
inline ld EPS = 1.2e-16L;
constexpr ld PI = 3.14159265358979323846264338327950288L;
struct E {
  ld v = 0, e = 0;
  E() = default;
  E(ld x) : v(x), e(std::fabs(x) * EPS) {}
  E(double x) : E(ld(x)) {}
  E(int x) : E(ld(x)) {}
  E(ld x, ld err) : v(x), e(err + std::fabs(x) * EPS + 1e-320L) {}
};
inline E operator+(E a, E b) { return E(a.v + b.v, a.e + b.e); }
inline E operator-(E a, E b) { return E(a.v - b.v, a.e + b.e); }
inline E operator-(E a) { E r = a; r.v = -a.v; return r; }
inline E operator*(E a, E b) { return E(a.v * b.v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e); }
inline E operator/(E a, E b) {
  const ld lo = std::max(std::fabs(b.v) - b.e, ld(1e-300));
  return E(a.v / b.v, (a.e + std::fabs(a.v / b.v) * b.e) / lo);
}
inline E sin(E a) { return E(std::sin(a.v), a.e + EPS); }
inline E cos(E a) { return E(std::cos(a.v), a.e + EPS); }
inline E abs(E a) { E r = a; r.v = std::fabs(a.v); return r; }
inline E exp(E a) { const ld v = std::exp(a.v); return E(v, v * std::expm1(std::min(a.e, ld(700)))); }
inline E sqrt(E a) {
  const ld v = std::sqrt(a.v), h = std::sqrt(a.v + a.e), l = std::sqrt(std::max(a.v - a.e, ld(0)));
  return E(v, std::max(h - v, v - l));
}
inline E pow(E a, ld p) {  // a >= 0, p > 0
  const ld v = std::pow(a.v, p), h = std::pow(a.v + a.e, p), l = std::pow(std::max(a.v - a.e, ld(0)), p);
  return E(v, std::max(h - v, v - l) + std::fabs(v) * EPS * 4);
}
inline E sq(E a) { return a * a; }
}  // namespace en
