// C13: every box keeps every value it produces inside.
#include "boxgen.hpp"
using namespace bx;
using heu::BoxShape;
#ifndef BX_GROUP
#define BX_GROUP 0
#endif

template <class V>
void discreteSquare(Rng& rng, const char* name, int n) {
  for (int k = 0; k < n; k++) {
    heu::DiscretBox<V, BoxShape::SQUARE_BOX> b;
    for (int again = 0; again < 2; again++) {  // the same box gets a second range and dimension
      Spec<V> s;
      dims(rng, s);
      fillRange(rng, s, true);
      s.what = fmt("DiscretBox square %s %s [%s,%s]", name, list(s.r, s.c).c_str(), str(s.lo[0]).c_str(), str(s.hi[0]).c_str());
      beginCase(s.what);
      setDims(b, s);
      setSquare(rng, b, s);
      monitorBox(rng, b, s, int(rng.range(0, 2)) == 0 ? 60 * s.n + 10 : 30);
      auto copy = b;
      checkReadback(copy, s);
    }
  }
}
template <class V>
void discreteRect(Rng& rng, const char* name, int n) {
  for (int k = 0; k < n; k++) {
    heu::DiscretBox<V, BoxShape::RECTANGLE_BOX> b;
    for (int again = 0; again < 2; again++) {
      Spec<V> s;
      dims(rng, s);
      fillRange(rng, s, false);
      s.what = fmt("DiscretBox rectangle %s %s [%s,%s]..", name, list(s.r, s.c).c_str(), str(s.lo[0]).c_str(), str(s.hi[0]).c_str());
      beginCase(s.what);
      setDims(b, s);
      setRect(rng, b, s);
      monitorBox(rng, b, s, int(rng.range(0, 2)) == 0 ? 60 * s.n + 10 : 30);
    }
  }
}
template <class B, class V>
void checkDelta(const B& b, const Spec<V>& s) {
  for (int i = 0; i < s.n; i++)
    HV_CHECK(b.delta(i) == s.delta[size_t(i)], "C13/delta-readback", "%s: delta of %d reads %s, was set to %s", s.what.c_str(), i, str(b.delta(i)).c_str(), str(s.delta[size_t(i)]).c_str());
  if constexpr (VT<V>::mat && VT<V>::fixed == false)
    for (int r = 0; r < s.r; r++)
      for (int c = 0; c < s.c; c++)
        HV_CHECK(b.delta(r, c) == s.delta[size_t(r + c * s.r)], "C13/delta-readback", "%s: delta(%d,%d) is %s, not %s", s.what.c_str(), r, c, str(b.delta(r, c)).c_str(),
                 str(s.delta[size_t(r + c * s.r)]).c_str());
}
template <class V>
void continousSquare(Rng& rng, const char* name, int n) {
  for (int k = 0; k < n; k++) {
    heu::ContinousBox<V, BoxShape::SQUARE_BOX> b;
    for (int again = 0; again < 2; again++) {
      Spec<V> s;
      dims(rng, s);
      fillRange(rng, s, true);
      fillDelta(rng, s, true);
      s.what = fmt("ContinousBox square %s %s [%s,%s] delta %s", name, list(s.r, s.c).c_str(), str(s.lo[0]).c_str(), str(s.hi[0]).c_str(), str(s.delta[0]).c_str());
      beginCase(s.what);
      setDims(b, s);
      setSquare(rng, b, s);
      if (rng.coin()) b.setDelta(s.delta[0]);
      else b.delta() = s.delta[0];
      checkReadback(b, s);
      for (int i = 0; i < s.n; i++)
        HV_CHECK(b.delta(i) == s.delta[0], "C13/delta-readback", "%s: delta(%d) is %s", s.what.c_str(), i, str(b.delta(i)).c_str());
      monitorBox(rng, b, s, int(rng.range(0, 2)) == 0 ? 60 * s.n + 10 : 30);
    }
  }
}
template <class V>
void continousRect(Rng& rng, const char* name, int n) {
  for (int k = 0; k < n; k++) {
    heu::ContinousBox<V, BoxShape::RECTANGLE_BOX> b;
    for (int again = 0; again < 2; again++) {
      Spec<V> s;
      dims(rng, s);
      fillRange(rng, s, false);
      fillDelta(rng, s, false);
      s.what = fmt("ContinousBox rectangle %s %s [%s,%s].. delta %s..", name, list(s.r, s.c).c_str(), str(s.lo[0]).c_str(), str(s.hi[0]).c_str(), str(s.delta[0]).c_str());
      beginCase(s.what);
      setDims(b, s);
      setRect(rng, b, s);
      if (rng.coin()) b.setDelta(vec(s, s.delta));
      else
        for (int i = 0; i < s.n; i++) put(b.delta(), i, s.delta[size_t(i)]);
      checkDelta(b, s);
      monitorBox(rng, b, s, int(rng.range(0, 2)) == 0 ? 60 * s.n + 10 : 30);
    }
  }
}
template <class B>
void fixedBox(Rng& rng, const char* name, int n, typename VT<typename B::Var_t>::T lo, typename VT<typename B::Var_t>::T hi, double delta) {
  using V = typename B::Var_t;
  for (int k = 0; k < n; k++) {
    B b;
    Spec<V> s;
    dims(rng, s);
    s.lo.assign(size_t(s.n), lo);
    s.hi.assign(size_t(s.n), hi);
    if (delta > 0) s.delta.assign(size_t(s.n), typename VT<V>::T(delta));
    s.what = fmt("%s %s", name, list(s.r, s.c).c_str());
    beginCase(s.what);
    setDims(b, s);
    HV_CHECK(b.min() == lo && b.max() == hi, "C13/readback", "%s: min()/max() are %s/%s", name, str(b.min()).c_str(), str(b.max()).c_str());
    if constexpr (heu::isContinousBox_v<B>)
      HV_CHECK(b.delta() == typename VT<V>::T(delta), "C13/delta-readback", "%s: delta() is %s", name, str(b.delta()).c_str());
    monitorBox(rng, b, s, int(rng.range(0, 2)) == 0 ? 60 * s.n + 10 : 30);
  }
}
template <class V>
void gaussian(Rng& rng, const char* name, int n) {
  using T = typename VT<V>::T;
  for (int k = 0; k < n; k++) {
    heu::GaussianBox<V> b;
    Spec<V> s;
    dims(rng, s);
    setDims(b, s);
    const T mu = T(rng.d(-50, 50)), sg = T(rng.coin(0.3) ? 1e-3 : rng.d(0.1, 9)), de = T(rng.d(0.01, 3));
    b.setMu(mu);
    b.setSigma(sg);
    b.setDelta(de);
    s.what = fmt("GaussianBox %s %s mu=%g sigma=%g delta=%g", name, list(s.r, s.c).c_str(), double(mu), double(sg), double(de));
    beginCase(s.what);
    const auto& cb = b;
    HV_CHECK(cb.mu() == mu && cb.sigma() == sg && cb.delta() == de && cb.variance() == sg * sg, "C13/gauss-readback", "%s does not read back", s.what.c_str());
    constexpr T inf = std::numeric_limits<T>::infinity();
    HV_CHECK(cb.min() == -inf && cb.max() == inf && cb.min(0) == -inf && cb.max(0) == inf && cb.min(0, 0) == -inf && cb.max(0, 0) == inf, "C13/gauss-range", "%s: range is not unbounded", s.what.c_str());
    HV_CHECK(cb.dimensions() == s.n, "C13/dimensions", "%s: %d dimensions", s.what.c_str(), int(cb.dimensions()));
    const int rounds = 400;
    double sum = 0, sq = 0;
    uint64_t sig = 5;
    std::vector<int> touched(size_t(s.n), 0);
    for (int q = 0; q < rounds; q++) {
      V v;
      b.initialize(&v);
      if (int(v.size()) != s.n || (VT<V>::mat && rows(v) != s.r)) {
        violation("C13/gauss-shape", fmt("%s: wrong shape", s.what.c_str()));
        return;
      }
      for (int i = 0; i < s.n; i++) {
        double z = (double(get(v, i)) - double(mu)) / double(sg);
        sum += z;
        sq += z * z;
      }
      V c = v;
      b.applyConstraint(&c);
      b.applyConstraint(&c, int(rng.range(0, s.n - 1)));
      V d = v;
      b.applyDelta(&d);
      int ch = 0;
      for (int i = 0; i < s.n; i++) {
        HV_CHECK(get(c, i) == get(v, i), "C13/gauss-constraint", "%s: a constraint changed an element", s.what.c_str());
        if (get(d, i) != get(v, i)) {
          ch++;
          touched[size_t(i)]++;
          HV_CHECK(std::fabs(double(get(d, i)) - double(get(v, i))) <= double(de) * (1 + 1e-6) + 1e-5, "C13/gauss-delta", "%s: moved by %g", s.what.c_str(), double(get(d, i)) - double(get(v, i)));
        }
      }
      HV_CHECK(ch <= 1, "C13/delta-one", "%s: a delta changed %d elements", s.what.c_str(), ch);
      count("gaussian initializations");
    }
    const double N = double(rounds) * s.n;
    HV_CHECK(std::fabs(sum / N) <= 8 / std::sqrt(N) + 1e-4, "C13/gauss-mean", "%s: mean is off by %g sigma", s.what.c_str(), sum / N);
    HV_CHECK(std::fabs(sq / N - 1) <= 8 * std::sqrt(2 / N) + 1e-3, "C13/gauss-sigma", "%s: variance ratio is %g", s.what.c_str(), sq / N);
    observed(mix(sig, bits(sum)));
  }
}

template <class T>
using Vd = std::vector<T>;
#define ALL(FN, T, n)                                                   \
  FN<std::array<T, 1>>(rng, "array<" #T ",1>", n);                      \
  FN<std::array<T, 4>>(rng, "array<" #T ",4>", n);                      \
  FN<Vd<T>>(rng, "vector<" #T ">", n);                                  \
  FN<Eigen::Array<T, 5, 1>>(rng, "Array<" #T ",5,1>", n);               \
  FN<Eigen::Array<T, 1, 3>>(rng, "Array<" #T ",1,3>", n);               \
  FN<Eigen::Array<T, Eigen::Dynamic, 1>>(rng, "ArrayX<" #T ">", n);     \
  FN<Eigen::Matrix<T, 2, 3>>(rng, "Matrix<" #T ",2,3>", n);             \
  FN<Eigen::Array<T, Eigen::Dynamic, Eigen::Dynamic>>(rng, "ArrayXX<" #T ">", n);

#if BX_GROUP == 0
HV_PART(box_int_square) {
  const int n = scale(12);
  ALL(discreteSquare, int, n)
  ALL(discreteSquare, uint8_t, n)
  discreteSquare<std::vector<int8_t>>(rng, "vector<int8_t>", n);
  discreteSquare<std::vector<int16_t>>(rng, "vector<int16_t>", n);
  discreteSquare<std::array<uint16_t, 3>>(rng, "array<uint16_t,3>", n);
  discreteSquare<std::vector<uint32_t>>(rng, "vector<uint32_t>", n);
  discreteSquare<std::vector<int64_t>>(rng, "vector<int64_t>", n);
  discreteSquare<std::array<uint64_t, 2>>(rng, "array<uint64_t,2>", n);
}
HV_PART(box_bool) {
  const int n = scale(12);
  discreteSquare<std::array<bool, 10>>(rng, "array<bool,10>", n);
  discreteSquare<std::array<bool, 1>>(rng, "array<bool,1>", n);
  discreteSquare<Eigen::Array<bool, 6, 1>>(rng, "Array<bool,6,1>", n);
  discreteSquare<Eigen::Array<bool, Eigen::Dynamic, 1>>(rng, "ArrayX<bool>", n);
  discreteSquare<Eigen::Array<bool, 3, 2>>(rng, "Array<bool,3,2>", n);
  discreteSquare<Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic>>(rng, "ArrayXX<bool>", n);
}
#elif BX_GROUP == 1
HV_PART(box_int_rect) {
  const int n = scale(12);
  ALL(discreteRect, int, n)
  ALL(discreteRect, uint8_t, n)
  discreteRect<std::vector<int8_t>>(rng, "vector<int8_t>", n);
  discreteRect<std::vector<int64_t>>(rng, "vector<int64_t>", n);
  discreteRect<std::array<uint64_t, 3>>(rng, "array<uint64_t,3>", n);
}
HV_PART(box_fixed) {
  const int n = scale(20);
#define FD(V, lo, hi) fixedBox<heu::FixedDiscreteBox<V, lo, hi>>(rng, "FixedDiscreteBox<" #V "," #lo "," #hi ">", n, lo, hi, 0);
  using A23 = Eigen::Array<int, 2, 3>;
  using VI = std::vector<int>;
  using A4u = std::array<uint8_t, 4>;
  using AXX = Eigen::ArrayXXi;
  using AX = Eigen::ArrayXi;
  FD(A23, -3, -2)
  FD(VI, -3, 6)
  FD(A4u, 250, 255)
  FD(AXX, 0, 1)
  FD(AX, 2147483640, 2147483647)
  FD(AX, -2147483647, 5)
#define FC(V, T, lo, hi, de) fixedBox<heu::FixedContinousBox17<V, heu::encode(T(lo)), heu::encode(T(hi)), heu::encode(T(de))>>(rng, "FixedContinousBox17<" #V "," #lo "," #hi "," #de ">", n, T(lo), T(hi), double(T(de)));
  using A3d = Eigen::Array<double, 3, 1>;
  using V2 = std::array<double, 2>;
  using VD = std::vector<double>;
  using XXf = Eigen::ArrayXXf;
  using M22 = Eigen::Matrix2d;
  FC(A3d, double, -5.0, 5.0, 1.5)
  FC(V2, double, 0.0, 1.0, 0.02)
  FC(VD, double, -1e6, 1e6, 0.5)
  FC(XXf, float, -10.0, 5.0, 0.5)
  FC(M22, double, 0.25, 0.75, 3.0)
#define FD17(V, T, lo, hi) fixedBox<heu::FixedDiscreteBox17<V, heu::encode(T(lo)), heu::encode(T(hi))>>(rng, "FixedDiscreteBox17<" #V "," #lo "," #hi ">", n, T(lo), T(hi), 0);
  FD17(A3d, double, -5.0, 5.0)
  FD17(VD, double, 0.0, 12.0)
  FD17(XXf, float, -2.0, 3.0)
}
#elif BX_GROUP == 2
HV_PART(box_real_square) {
  const int n = scale(12);
  ALL(continousSquare, double, n)
  ALL(continousSquare, float, n)
  ALL(discreteSquare, double, n)
}
HV_PART(box_gaussian) {
  const int n = scale(6);
  ALL(gaussian, double, n)
  gaussian<std::vector<float>>(rng, "vector<float>", n);
  gaussian<Eigen::ArrayXXf>(rng, "ArrayXXf", n);
}
#elif BX_GROUP == 3
HV_PART(box_real_rect) {
  const int n = scale(12);
  ALL(continousRect, double, n)
  ALL(continousRect, float, n)
  discreteRect<std::vector<double>>(rng, "vector<double>", n);
  discreteRect<Eigen::ArrayXXf>(rng, "ArrayXXf", n);
}
#endif
#if BX_GROUP == 4  // compiled as C++20: floating-point template arguments and the concept-based checks
HV_PART(box_cxx20) {
  const int n = scale(20);
#define FC20(V, lo, hi, de) fixedBox<heu::FixedContinousBox20<V, lo, hi, de>>(rng, "FixedContinousBox20<" #V "," #lo "," #hi "," #de ">", n, lo, hi, de);
  using A3d = Eigen::Array<double, 3, 1>;
  using VD = std::vector<double>;
  using XXf = Eigen::ArrayXXf;
  FC20(A3d, -5.0, 5.0, 1.5)
  FC20(VD, 0.0, 1.0, 0.02)
  FC20(XXf, -10.0f, 5.0f, 0.5f)
#define FD20(V, lo, hi) fixedBox<heu::FixedDiscreteBox<V, lo, hi>>(rng, "FixedDiscreteBox<" #V "," #lo "," #hi ">", n, lo, hi, 0);
  FD20(VD, -3.0, 6.0)
  FD20(A3d, 0.0, 2.0)
  static_assert(heu::isBoxConstraint<heu::ContinousBox<VD, heu::BoxShape::SQUARE_BOX>>);
  static_assert(heu::isBoxConstraint<heu::DiscretBox<std::vector<int>, heu::BoxShape::RECTANGLE_BOX>>);
  continousSquare<VD>(rng, "vector<double>", n);
  continousRect<XXf>(rng, "ArrayXXf", n);
  discreteRect<std::vector<int>>(rng, "vector<int>", n);
}
#endif
