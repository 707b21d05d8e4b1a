// C27: what the type traits and the names of enumerators say, against live objects.
#include <array>
#include <deque>
#include <list>
#include <map>
#include <string>
#include <vector>
#include <iostream>
#include <HeuristicFlow/Global>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>
#include <HeuristicFlow/SimpleMatrix>
#include "hv.hpp"
using namespace hv;
using namespace heu;

// independent of the library: what kind of container is it?
template <class V>
constexpr bool eigenObject = std::is_base_of_v<Eigen::EigenBase<V>, V>;
template <class V>
constexpr bool canGrow = requires(V v) { v.resize(3); };
template <class V, bool = eigenObject<V>>
struct Shape {
  static constexpr int rows = V::RowsAtCompileTime, cols = V::ColsAtCompileTime;
  static constexpr int size = rows > 0 && cols > 0 ? rows * cols : -1;
};
template <class S>
struct StdLen {
  static constexpr int value = -1;
};
template <class S, size_t N>
struct StdLen<std::array<S, N>> {
  static constexpr int value = int(N);
};
template <class V>
struct Shape<V, false> {
  static constexpr int size = StdLen<V>::value, rows = size, cols = 1;
};
template <class S>
static S number(Rng& rng) {
  if constexpr (std::is_same_v<S, bool>) return rng.coin();
  else if constexpr (std::is_integral_v<S>) return S(rng.range(0, 120));
  else return S(rng.range(-1000, 1000)) / 8;
}

template <class V>
static void container(Rng& rng, const char* name) {
  beginCase(std::string("container ") + name);
  using T = array_traits<V>;
  using K = Shape<V>;
  using S = std::decay_t<decltype(*std::declval<V&>().data())>;
  HV_CHECK((std::is_same_v<typename T::Scalar_t, S>), "C27/scalar", "Scalar_t of %s is wrong", name);
  HV_CHECK(T::isEigenClass == eigenObject<V>, "C27/eigen", "isEigenClass of %s is %d", name, T::isEigenClass);
  HV_CHECK(T::containerType == (eigenObject<V> ? ContainerOption::Eigen : ContainerOption::Std), "C27/container-type", "containerType of %s is %c", name, char(T::containerType));
  HV_CHECK(T::sizeCT == K::size, "C27/size", "sizeCT of %s is %d, it has %d", name, T::sizeCT, K::size);
  HV_CHECK(T::rowsCT == K::rows && T::colsCT == K::cols, "C27/shape", "%s is %dx%d, traits say %dx%d", name, K::rows, K::cols, T::rowsCT, T::colsCT);
  HV_CHECK(T::isFixedSize == (K::size >= 0), "C27/fixed", "isFixedSize of %s is %d", name, T::isFixedSize);
  HV_CHECK(T::isRowVector == (K::rows == 1) && T::isColVector == (K::cols == 1), "C27/row-col", "row/column vector traits of %s are %d/%d", name, T::isRowVector, T::isColVector);
  HV_CHECK(T::isVector == (K::rows == 1 || K::cols == 1) && T::isMatrix == !T::isVector, "C27/vector-matrix", "isVector/isMatrix of %s are %d/%d", name, T::isVector, T::isMatrix);
  HV_CHECK(isVector_v<V>, "C27/is-vector", "isVector_v of %s is false", name);
  HV_CHECK((sizeMayMatch<V, 4>::value == (K::size < 0 || K::size == 4)) && (sizeMayMatch<V, 6>::value == (K::size < 0 || K::size == 6)) &&
               (sizeMayMatch<V, 1>::value == (K::size < 0 || K::size == 1)),
           "C27/size-may-match", "sizeMayMatch of %s is wrong", name);
  // live objects
  uint64_t h = 17;
  for (int round = 0; round < 4; round++) {
    V v{};
    if constexpr (K::size < 0) {
      if constexpr (K::rows == 1 || K::cols == 1) v.resize(size_t(rng.range(1, 8)));
      else v.resize(K::rows > 0 ? K::rows : int(rng.range(1, 4)), K::cols > 0 ? K::cols : int(rng.range(1, 4)));
    }
    const int n = int(v.size());
    if (T::isFixedSize) HV_CHECK(n == T::sizeCT, "C27/live-size", "a %s has %d elements, sizeCT is %d", name, n, T::sizeCT);
    if constexpr (eigenObject<V>) {
      HV_CHECK(!T::isRowVector || v.rows() == 1, "C27/live-row", "a %s of %d rows", name, int(v.rows()));
      HV_CHECK(!T::isColVector || v.cols() == 1, "C27/live-col", "a %s of %d columns", name, int(v.cols()));
    }
    std::vector<S> want(size_t(n), S{});
    for (int i = 0; i < n; i++) v.data()[i] = want[size_t(i)] = number<S>(rng);
    for (int k = 0; k < 12; k++) {
      const int i = int(rng.range(0, n - 1));
      const S x = number<S>(rng);
      at(v, i) = x;
      want[size_t(i)] = x;
      const V& c = v;
      for (int j = 0; j < n; j++) {
        HV_CHECK(c.data()[j] == want[size_t(j)], "C27/at-write", "at(%s,%d)=x changed element %d", name, i, j);
        HV_CHECK(at(c, j) == want[size_t(j)], "C27/at-read", "at(const %s,%d) is not the element", name, j);
        HV_CHECK(&at(v, j) == v.data() + j, "C27/at-reference", "at(%s,%d) refers to another element", name, j);
      }
      h = mix(h, bits(double(x)));
    }
  }
  observed(mix(h, uint64_t(T::sizeCT) * 31 + uint64_t(K::rows)));
}
#define CON(...) container<__VA_ARGS__>(rng, #__VA_ARGS__)

template <class S>
static void family(Rng& rng) {
  using Eigen::Array;
  using Eigen::Matrix;
  CON(std::array<S, 1>);
  CON(std::array<S, 4>);
  CON(std::array<S, 6>);
  CON(std::array<S, 33>);
  CON(Array<S, 1, 1>);
  CON(Array<S, 4, 1>);
  CON(Array<S, 1, 4>);
  CON(Array<S, 2, 3>);
  CON(Array<S, 2, 3, Eigen::RowMajor>);
  CON(Array<S, -1, 1>);
  CON(Array<S, 1, -1>);
  CON(Array<S, -1, -1>);
  CON(Array<S, -1, -1, Eigen::RowMajor>);
  CON(Array<S, -1, 3>);
  CON(Array<S, 2, -1>);
  CON(Array<S, -1, 1, 0, 8, 1>);
  CON(Matrix<S, 6, 1>);
  CON(Matrix<S, 1, 6>);
  CON(Matrix<S, 4, 4>);
  CON(Matrix<S, -1, 1>);
  CON(Matrix<S, 1, -1>);
  CON(Matrix<S, -1, -1>);
}
HV_PART(traits_double) {
  for (int k = 0; k < scale(10); k++) {
    family<double>(rng);
    CON(std::vector<double>);
    CON(stdContainer<double, 5>);
    CON(stdContainer<double, Eigen::Dynamic>);
  }
}
HV_PART(traits_numbers) {
  for (int k = 0; k < scale(4); k++) {
    family<float>(rng);
    family<int>(rng);
    CON(std::vector<float>);
    CON(std::vector<int>);
    CON(std::vector<uint8_t>);
    CON(std::array<bool, 5>);
    CON(std::array<char, 3>);
    CON(Eigen::Array<bool, 4, 1>);
    CON(Eigen::Array<uint8_t, -1, 1>);
    CON(std::array<int64_t, 2>);
  }
}

// ---- which types fit
namespace fit {
struct Empty {};
struct NoData {
  double operator[](int) const { return 0; }
  int size() const { return 0; }
};
struct NoSize {
  double d[2];
  double* data() { return d; }
  double operator[](int i) const { return d[i]; }
};
struct Own {
  double d[3];
  double* data() { return d; }
  const double* data() const { return d; }
  size_t size() const { return 3; }
  double& operator[](size_t i) { return d[i]; }
  const double& operator[](size_t i) const { return d[i]; }
};
struct Gene0 {
  double decision_variable = 0, fitness = 0;
  bool is_fitness_computed = false;
  void set_fitness_uncomputed() {}
};
struct NoVar {
  double fitness = 0;
  bool is_fitness_computed = false;
  void set_fitness_uncomputed() {}
};
struct NoFit {
  double decision_variable = 0;
  bool is_fitness_computed = false;
  void set_fitness_uncomputed() {}
};
struct NoFlag {
  double decision_variable = 0, fitness = 0;
  void set_fitness_uncomputed() {}
};
struct NoReset {
  double decision_variable = 0, fitness = 0;
  bool is_fitness_computed = false;
};
struct Gene1 : Gene0 {
  size_t dominated_by_num = 0;
};
struct Gene1NoFit : NoFit {
  size_t dominated_by_num = 0;
};
struct Gene2 : Gene1 {
  double congestion = 0;
};
struct Gene2NoDom : Gene0 {
  double congestion = 0;
};
struct Gene3 : Gene1 {
  double translatedFitness = 0, distance = 0;
  size_t closestRefPoint = 0;
};
struct Gene3NoDistance : Gene1 {
  double translatedFitness = 0;
  size_t closestRefPoint = 0;
};
struct Gene3NoPoint : Gene1 {
  double translatedFitness = 0, distance = 0;
};
struct Gene3NoTranslated : Gene1 {
  double distance = 0;
  size_t closestRefPoint = 0;
};
struct NoDelta {  // a box without steps
  using Var_t = std::array<double, 2>;
  using Scalar_t = double;
  static constexpr BoxShape Shape = BoxShape::SQUARE_BOX;
  double min(int = 0) const { return 0; }
  double max(int = 0) const { return 1; }
  void initialize(Var_t*) const {}
  void initializeSize(Var_t*) const {}
  void applyConstraint(Var_t*) const {}
  void applyConstraint(Var_t*, int) const {}
  void applyDelta(Var_t*) const {}
  int dimensions() const { return 2; }
};
struct NoMax {
  using Var_t = std::array<double, 2>;
  using Scalar_t = double;
  static constexpr BoxShape Shape = BoxShape::SQUARE_BOX;
  double min(int = 0) const { return 0; }
  void initialize(Var_t*) const {}
  void initializeSize(Var_t*) const {}
  void applyConstraint(Var_t*) const {}
  void applyConstraint(Var_t*, int) const {}
  void applyDelta(Var_t*) const {}
  int dimensions() const { return 2; }
};
}  // namespace fit

template <class S>
using GeneOf = std::decay_t<decltype(std::declval<const S&>().population().front())>;

static void fact(const char* what, bool have, bool want) {
  beginCase(what);
  HV_CHECK(have == want, "C27/fit", "%s is %s", what, have ? "true" : "false");
  uint64_t h = 99;
  for (const char* p = what; *p; p++) h = mix(h, uint64_t(*p));
  observed(h);
}
#define FACT(want, ...) fact(#__VA_ARGS__, bool(__VA_ARGS__), want)
HV_PART(traits_fit) {
  (void)rng;
  using V = std::array<double, 3>;
  FACT(true, isVector_v<fit::Own>);
  FACT(true, isVector_v<std::string>);
  FACT(false, isVector_v<fit::Empty>);
  FACT(false, isVector_v<fit::NoData>);
  FACT(false, isVector_v<fit::NoSize>);
  FACT(false, isVector_v<std::deque<double>>);
  FACT(false, isVector_v<std::list<double>>);
  FACT(false, isVector_v<std::map<int, double>>);
  FACT(false, isVector_v<int>);
  FACT(false, array_traits<fit::Own>::isEigenClass);
  FACT(true, array_traits<fit::Own>::sizeCT == 3);
#define BOX(ct, ...)                            \
  FACT(true, isBoxConstraint_v<__VA_ARGS__>);   \
  FACT(ct, isContinousBox_v<__VA_ARGS__>)
  BOX(true, ContinousBox<V, BoxShape::SQUARE_BOX>);
  BOX(true, ContinousBox<V, BoxShape::RECTANGLE_BOX>);
  BOX(true, ContinousBox<Eigen::ArrayXXd, BoxShape::RECTANGLE_BOX>);
  BOX(true, ContinousBox<std::vector<double>, BoxShape::SQUARE_BOX>);
  BOX(true, GaussianBox<V>);
  FACT(false, isBoxConstraint_v<fit::NoMax>);
  FACT(false, isBoxConstraint_v<fit::Empty>);
  FACT(false, isContinousBox_v<fit::NoDelta>);
  FACT(false, isContinousBox_v<fit::Empty>);
  FACT(true, isBoxConstraint_v<fit::NoDelta>);
  // genes
  FACT(true, is_GA_gene_v<fit::Gene0>);
  FACT(false, is_GA_gene_v<fit::NoVar>);
  FACT(false, is_GA_gene_v<fit::NoFit>);
  FACT(false, is_GA_gene_v<fit::NoFlag>);
  FACT(false, is_GA_gene_v<fit::NoReset>);
  FACT(false, is_GA_gene_v<fit::Empty>);
  FACT(false, is_NSGA_gene_v<fit::Gene0>);
  FACT(true, is_NSGA_gene_v<fit::Gene1>);
  FACT(false, is_NSGA_gene_v<fit::Gene1NoFit>);
  FACT(false, is_NSGA2_gene_v<fit::Gene1>);
  FACT(true, is_NSGA2_gene_v<fit::Gene2>);
  FACT(false, is_NSGA2_gene_v<fit::Gene2NoDom>);
  FACT(false, is_NSGA3_gene_v<fit::Gene2>);
  FACT(true, is_NSGA3_gene_v<fit::Gene3>);
  FACT(false, is_NSGA3_gene_v<fit::Gene3NoDistance>);
  FACT(false, is_NSGA3_gene_v<fit::Gene3NoPoint>);
  FACT(false, is_NSGA3_gene_v<fit::Gene3NoTranslated>);
  using G1 = SOGA<V>;
  using G2 = NSGA2<V, 3>;
  using G3 = NSGA3<V, 3>;
  FACT(true, is_GA_gene_v<GeneOf<G1>>);
  FACT(true, is_NSGA2_gene_v<GeneOf<G2>>);
  FACT(true, is_NSGA3_gene_v<GeneOf<G3>>);
  FACT(true, std::is_same_v<stdContainer<float, 3>, std::array<float, 3>>);
  FACT(true, std::is_same_v<stdContainer<float, 0>, std::array<float, 0>>);
  FACT(true, std::is_same_v<stdContainer<int, Eigen::Dynamic>, std::vector<int>>);
  FACT(true, internal::pinfD > std::numeric_limits<double>::max() && internal::ninfD < std::numeric_limits<double>::lowest());
  FACT(true, internal::pinfF > std::numeric_limits<float>::max() && internal::ninfF < std::numeric_limits<float>::lowest());
}
template <size_t B>
static void uints() {
  using U = uintX_t<B>;
  beginCase(fmt("uintX_t<%zu>", B));
  constexpr size_t have = size_t(std::numeric_limits<U>::digits);
  HV_CHECK(std::is_unsigned_v<U> && have >= B && (have == 8 || have / 2 < B), "C27/uintX", "uintX_t<%zu> has %zu bits", B, have);
  observed(B * 977 + have);
  if constexpr (B < 64) uints<B + 1>();
}
HV_PART(traits_uint) {
  (void)rng;
  uints<1>();
}

// ---- names
template <class E>
static void names(const char* what, const std::vector<std::pair<E, const char*>>& all, bool contains) {
  std::set<std::string> seen;
  for (auto& p : all) {
    beginCase(fmt("Enum2String(%s %s)", what, p.second));
    const char* s = Enum2String(p.first);
    const std::string t = s ? s : "(null)";
    std::string low;
    for (char ch : t) low += char(std::tolower(ch));
    HV_CHECK(s && (contains ? low.find(p.second) != std::string::npos : t == p.second), "C27/name", "%s %d is called \"%s\", expected %s%s", what, int(p.first), t.c_str(),
             contains ? "a name with " : "", p.second);
    HV_CHECK(seen.insert(t).second, "C27/name-twice", "two enumerators of %s are called \"%s\"", what, t.c_str());
    uint64_t h = 3;
    for (char ch : t) h = mix(h, uint64_t(ch));
    observed(h);
  }
}
HV_PART(traits_names) {
  (void)rng;
#define N(x) {x, #x}
  names<RecordOption>("RecordOption", {N(RECORD_FITNESS), N(DONT_RECORD_FITNESS)}, false);
  names<FitnessOption>("FitnessOption", {N(FITNESS_LESS_BETTER), N(FITNESS_GREATER_BETTER)}, false);
  names<SelectMethod>("SelectMethod", {N(RouletteWheel), N(Tournament), N(Truncation), N(MonteCarlo), N(Probability), N(LinearRank), N(ExponentialRank), N(Boltzmann),
                                       N(StochasticUniversal), N(EliteReserved), N(RunTimeSelectMethod)}, false);
  names<ContainerOption>("ContainerOption", {{ContainerOption::Std, "std"}, {ContainerOption::Eigen, "eigen"}, {ContainerOption::Custom, "custom"}}, true);
  names<BoxShape>("BoxShape", {{BoxShape::RECTANGLE_BOX, "non-square"}, {BoxShape::SQUARE_BOX, "square"}}, true);
  HV_CHECK(std::string(Enum2String(BoxShape::SQUARE_BOX)).find("on-") == std::string::npos, "C27/name", "the square box is called \"%s\"", Enum2String(BoxShape::SQUARE_BOX));
  names<EncodeType>("EncodeType", {{EncodeType::Real, "real"}, {EncodeType::Binary, "binary"}, {EncodeType::Symbolic, "symbolic"}}, true);
}
