// C16: compile-time number codes round-trip. CD_GROUP 0: run time, 1: compile time
#include "hv.hpp"
#include <array>
#include <HeuristicFlow/Global>
using namespace hv;
#ifndef CD_GROUP
#define CD_GROUP 0
#endif

static inline double fromBits(uint64_t b) {
  double d;
  memcpy(&d, &b, 8);
  return d;
}
static inline float fromBits(uint32_t b) {
  float d;
  memcpy(&d, &b, 4);
  return d;
}
static inline uint64_t toBits(double d) {
  uint64_t b;
  memcpy(&b, &d, 8);
  return b;
}
static inline uint32_t toBits(float d) {
  uint32_t b;
  memcpy(&b, &d, 4);
  return b;
}
constexpr uint64_t cmix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

template <class F, class U>
void oneNumber(U pattern, F back, U code, const char* w) {
  const F x = fromBits(pattern);
  if (std::isnan(x)) {
    HV_CHECK(std::isnan(back), std::string("C16/nan") + w, "NaN %016llx came back as %a", (unsigned long long)pattern, double(back));
    return;
  }
  HV_CHECK(back == x, std::string("C16/roundtrip") + w, "%a (%016llx) came back as %a (code %016llx)", double(x), (unsigned long long)pattern, double(back), (unsigned long long)code);
  if (x != 0)  // the sign of zero aside
    HV_CHECK(code == pattern, std::string("C16/code") + w, "the code of %a is %016llx, its IEEE-754 encoding is %016llx", double(x), (unsigned long long)code, (unsigned long long)pattern);
}

#if CD_GROUP == 0
template <class F, class U, class Code>
void number(U pattern, const char* w) {
  volatile F v = fromBits(pattern);
  const F x = v;
  const Code c = heu::encode(x);
  oneNumber<F, U>(pattern, heu::decode(c), U(c), w);
  // decoding an arbitrary code
  const F d = heu::decode(Code(pattern));
  if (std::isnan(x)) HV_CHECK(std::isnan(d), std::string("C16/nan") + w, "code %016llx of NaN decodes to %a", (unsigned long long)pattern, double(d));
  else HV_CHECK(d == x && std::signbit(d) == std::signbit(x), std::string("C16/decode") + w, "code %016llx of %a decodes to %a", (unsigned long long)pattern, double(x), double(d));
  observed(mix(pattern, sizeof(U)));
}
HV_PART(codes_double) {
  for (int neg = 0; neg < 2; neg++)
    for (uint64_t e = 0; e < 2048; e++) {
      beginCase(fmt("double, sign %d, exponent code %d", neg, int(e)));
      const uint64_t base = (uint64_t(neg) << 63) | (e << 52), M = (1ull << 52) - 1;
      std::vector<uint64_t> ms = {0, 1, 2, M, M - 1, 1ull << 51, (1ull << 51) - 1, (1ull << 51) + 1, 0x5555555555555ull, 0xAAAAAAAAAAAAAull};
      for (int i = 0, n = scale(6, 60); i < n; i++) ms.push_back(rng.next() & M);
      for (int i = 0, n = scale(4, 12); i < n; i++) ms.push_back((rng.next() & M) >> rng.range(0, 51));
      for (int i = 0, n = scale(4, 12); i < n; i++) ms.push_back((M << rng.range(1, 51)) & M);
      for (uint64_t m : ms) number<double, uint64_t, heu::binCode64>(base | m, "/double");
    }
  beginCase("random doubles");
  for (int i = 0, n = scale(40000, 40); i < n; i++) {
    if ((i & 4095) == 0) beginCase(fmt("random doubles from %d", i));
    const double d = rng.coin() ? rng.d(-1000, 1000) : double(rng.range(-100000, 100000)) / double(rng.range(1, 1000));
    number<double, uint64_t, heu::binCode64>(toBits(d), "/double");
  }
}
HV_PART(codes_float) {
  for (uint32_t hi = 0; hi < 512; hi++) {
    beginCase(fmt("float, sign and exponent code %03x", hi));
    const uint32_t base = hi << 23, M = (1u << 23) - 1;
    std::vector<uint32_t> ms = {0, 1, 2, M, M - 1, 1u << 22, (1u << 22) - 1, (1u << 22) + 1, 0x555555u & M, 0x2AAAAAu};
    for (int i = 0, n = scale(200, 200); i < n; i++) ms.push_back(uint32_t(rng.next()) & M);
    for (int i = 0; i < 23; i++) ms.push_back((M << i) & M), ms.push_back(M >> i), ms.push_back(1u << i & M);
    for (uint32_t m : ms) number<float, uint32_t, heu::binCode32>(base | m, "/float");
  }
}
#endif

#if CD_GROUP == 1
// the same at compile time
constexpr uint64_t pat64(size_t i) {
  const uint64_t r = cmix(i * 77 + 5), M = (1ull << 52) - 1;
  const uint64_t exps[] = {0, 0, 1, 2, 511, 1022, 1023, 1024, 1060, 1500, 2045, 2046};
  const uint64_t ms[] = {0, 1, M, M - 1, 1ull << 51, r & M, (r & M) >> (r >> 58), (M << (r >> 59)) & M};
  if (i == 0) return 0;
  if (i == 1) return 0x7FFull << 52;
  if (i == 2) return 0xFFFull << 52;
  const uint64_t e = (r >> 20) % 3 ? exps[(r >> 30) % 12] : (r >> 30) % 2047;
  return ((r & 1) << 63) | (e << 52) | ms[(r >> 8) % 8];
}
constexpr uint32_t pat32(size_t i) {
  const uint64_t r = cmix(i * 91 + 7);
  const uint32_t M = (1u << 23) - 1;
  const uint32_t exps[] = {0, 0, 1, 2, 60, 126, 127, 128, 150, 200, 253, 254};
  const uint32_t ms[] = {0, 1, M, M - 1, 1u << 22, uint32_t(r) & M, (uint32_t(r) & M) >> (r >> 60), (M << (r >> 60)) & M};
  if (i == 0) return 0;
  if (i == 1) return 0xFFu << 23;
  if (i == 2) return 0x1FFu << 23;
  const uint32_t e = (r >> 20) % 3 ? exps[(r >> 30) % 12] : uint32_t((r >> 30) % 255);
  return (uint32_t(r >> 40 & 1) << 31) | (e << 23) | ms[(r >> 8) % 8];
}
template <size_t I>
void ct64() {
  constexpr uint64_t p = pat64(I);
  constexpr double d = __builtin_bit_cast(double, p);
  constexpr heu::binCode64 c = heu::encode(d);
  constexpr double back = heu::decode(c);
  beginCase(fmt("compile-time double %a", d));
  oneNumber<double, uint64_t>(p, back, uint64_t(c), "/double/constexpr");
  volatile double v = d;
  HV_CHECK(heu::encode(double(v)) == c, "C16/ct_vs_rt", "run-time and compile-time code of %a differ", d);
  HV_CHECK(toBits(heu::decode(heu::encode(double(v)))) == toBits(back), "C16/ct_vs_rt", "run-time and compile-time decoding of %a differ", d);
  observed(p);
}
template <size_t I>
void ct32() {
  constexpr uint32_t p = pat32(I);
  constexpr float d = __builtin_bit_cast(float, p);
  constexpr heu::binCode32 c = heu::encode(d);
  constexpr float back = heu::decode(c);
  beginCase(fmt("compile-time float %a", double(d)));
  oneNumber<float, uint32_t>(p, back, uint32_t(c), "/float/constexpr");
  volatile float v = d;
  HV_CHECK(heu::encode(float(v)) == c, "C16/ct_vs_rt", "run-time and compile-time code of %a differ", double(d));
  observed(p);
}
template <size_t... I>
void runCt(std::index_sequence<I...>) {
  (ct64<I>(), ...);
  (ct32<I>(), ...);
}
HV_PART(codes_constexpr) { runCt(std::make_index_sequence<220>()); }
#endif

#if CD_GROUP == 2
// ---- quotients ----
constexpr int32_t divA(size_t i) {
  const int32_t sp[] = {0, 1, -1, 2, -2, 7, -7, INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, 1000000007};
  const uint64_t r = cmix(i * 13 + 1);
  return i % 3 ? sp[r % 12] : int32_t(uint32_t(r >> 16) >> (r % 24));
}
constexpr uint32_t divB(size_t i) {
  const uint32_t sp[] = {1, 2, 3, 10, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xFFFFFFFFu, 65536, 1000};
  const uint64_t r = cmix(i * 17 + 3);
  const uint32_t v = i % 2 ? sp[r % 10] : uint32_t(uint32_t(r >> 16) >> (r % 31));
  return v ? v : 1;
}
template <int32_t a, uint32_t b>
void oneDiv() {
  constexpr heu::DivCode c = heu::DivEncode<a, b>::code;
  constexpr double real = heu::DivDecode<c>::real;
  beginCase(fmt("DivCode of %d/%u", a, b));
  HV_CHECK(real == double(a) / double(b), "C16/div", "%d/%u decodes to %.17g instead of %.17g", a, b, real, double(a) / double(b));
  HV_CHECK((int32_t(heu::DivDecode<c>::numerator) == a && uint32_t(heu::DivDecode<c>::denominator) == b), "C16/div_parts", "%d/%u decodes to %d/%u", a, b, int(heu::DivDecode<c>::numerator), unsigned(heu::DivDecode<c>::denominator));
  observed(mix(uint64_t(uint32_t(a)), b));
}
template <heu::DivCode c>
void oneConst(const char* n, double want) {
  beginCase(fmt("DivCode constant %s", n));
  constexpr double real = heu::DivDecode<c>::real;
  HV_CHECK(std::fabs(real - want) <= 1e-12 * want, "C16/div_constant", "DivCode_%s decodes to %.17g instead of %.17g", n, real, want);
  observed(uint64_t(c));
}
// ---- powers ----
constexpr int64_t powS(size_t i) {
  const uint64_t r = cmix(i * 19 + 11);
  uint64_t s = 0;
  const int digits = int(r % 16) + 1;
  uint64_t q = cmix(r);
  for (int k = 0; k < digits; k++) {
    uint64_t dgt = (q >> 7) % 10;
    if (k == 0 && dgt == 0) dgt = 1 + (q % 9);
    if ((r >> 40) % 4 == 0) dgt = 9;
    s = s * 10 + dgt;
    q = cmix(q);
  }
  if (i == 0) s = 0;
  if (i == 1) s = 1;
  if (i == 2) s = 9;
  if (i == 3) s = 9999999999999999ull;
  if (i == 4) s = 1000000000000000ull;
  if (i == 5) s = 2;
  return (r >> 50) & 1 ? -int64_t(s) : int64_t(s);
}
constexpr int16_t powP(size_t i) {
  const int16_t sp[] = {0, 1, -1, 2, -2, 15, 16, 17, -16, 22, 23, -22, -23, 100, -100, 254, 255, -254, -255};
  const uint64_t r = cmix(i * 23 + 2);
  return i % 2 ? sp[r % 19] : int16_t(int(r % 511) - 255);
}
template <int64_t s, int16_t p>
void onePow() {
  constexpr heu::PowCode c = heu::PowEncode<s, p>::code;
  constexpr double real = heu::PowDecode<c>::real;
  char digits[40], text[80];
  snprintf(digits, sizeof digits, "%lld", (long long)(s < 0 ? -s : s));
  snprintf(text, sizeof text, "%s%c.%se%d", s < 0 ? "-" : "", digits[0], digits[1] ? digits + 1 : "0", int(p));
  const double want = strtod(text, nullptr);
  beginCase(fmt("PowCode of %s", text));
  HV_CHECK(real == want || std::fabs(real - want) <= 1e-13 * std::fabs(want), "C16/pow", "PowEncode<%lld,%d> decodes to %.17g instead of %s", (long long)s, int(p), real, text);
  if constexpr (s > -100000000000000ll && s < 100000000000000ll) {
    constexpr heu::PowCode c10 = heu::PowEncode<s * 10, p>::code;
    HV_CHECK(c10 == c, "C16/pow_normal", "PowEncode<%lld,%d> and PowEncode<%lld,%d> differ", (long long)s, int(p), (long long)s * 10, int(p));
  }
  observed(mix(uint64_t(s), uint64_t(p)));
}
template <size_t... I>
void runDiv(std::index_sequence<I...>) {
  (oneDiv<divA(I), divB(I)>(), ...);
}
template <size_t... I>
void runPow(std::index_sequence<I...>) {
  (onePow<powS(I), powP(I)>(), ...);
}
HV_PART(codes_div) {
  runDiv(std::make_index_sequence<300>());
  oneDiv<1, 2>(), oneDiv<-1, 2>(), oneDiv<INT32_MIN, 1>(), oneDiv<INT32_MIN, 0xFFFFFFFFu>(), oneDiv<INT32_MAX, 1>(), oneDiv<-1, 0xFFFFFFFFu>();
  const double pi = 3.14159265358979323846;
  oneConst<heu::DivCode_Half>("Half", 0.5);
  oneConst<heu::DivCode_Pi>("Pi", pi);
  oneConst<heu::DivCode_Pi_mul_2>("Pi_mul_2", pi * 2);
  oneConst<heu::DivCode_Pi_mul_3>("Pi_mul_3", pi * 3);
  oneConst<heu::DivCode_Pi_mul_4>("Pi_mul_4", pi * 4);
  oneConst<heu::DivCode_Pi_mul_6>("Pi_mul_6", pi * 6);
  oneConst<heu::DivCode_Pi_div_2>("Pi_div_2", pi / 2);
  oneConst<heu::DivCode_Pi_div_3>("Pi_div_3", pi / 3);
  oneConst<heu::DivCode_Pi_div_4>("Pi_div_4", pi / 4);
  oneConst<heu::DivCode_Pi_div_6>("Pi_div_6", pi / 6);
  oneConst<heu::DivCode_Sqrt2>("Sqrt2", std::sqrt(2.0));
  oneConst<heu::DivCode_one_div_Sqrt2>("one_div_Sqrt2", std::sqrt(0.5));
  oneConst<heu::DivCode_E>("E", std::exp(1.0));
}
HV_PART(codes_pow) { runPow(std::make_index_sequence<260>()); }
#endif
