// C18: SimpleMatrix containers behave like a column-major matrix value. MT_GROUP picks the element type.
#include "hv.hpp"
#include <memory>
#include <optional>
#include <string>
#include <HeuristicFlow/SimpleMatrix>
using namespace hv;
#ifndef MT_GROUP
#define MT_GROUP 0
#endif

// an element that knows which of its objects are alive
struct Counted {
  static std::set<const void*>& live() {
    static std::set<const void*> s;
    return s;
  }
  int v;
  int* own;  // leaked or freed twice when the bookkeeping is wrong
  void born() { HV_CHECK(live().insert(this).second, "C18/lifetime/double_construct", "an element was constructed over a living one"); }
  void need(const char* w) const { HV_CHECK(live().count(this), std::string("C18/lifetime/") + w, "%s of an element that was never constructed or is destroyed", w); }
  Counted() : v(0), own(new int(0)) { born(); }
  Counted(int x) : v(x), own(new int(x)) { born(); }
  Counted(const Counted& o) : v(o.v), own(nullptr) {
    o.need("copy");
    own = new int(v);
    born();
  }
  Counted& operator=(const Counted& o) {
    o.need("copy");
    need("assignment");
    v = o.v;
    if (live().count(this)) *own = v;
    return *this;
  }
  ~Counted() {
    need("destruction");
    if (live().erase(this)) delete own;
  }
  bool operator==(const Counted& o) const { return v == o.v && *own == o.v; }
};
struct Big {
  double a[5];
  bool operator==(const Big& o) const { return !memcmp(a, o.a, sizeof a); }
};
template <class T>
T make(Rng& rng) {
  if constexpr (std::is_same_v<T, std::string>) return std::string(size_t(rng.range(0, 40)), char('a' + rng.range(0, 25)));
  else if constexpr (std::is_same_v<T, Counted>) return Counted(int(rng.next() >> 40));
  else if constexpr (std::is_same_v<T, Big>) return Big{{rng.u(), rng.u(), rng.u(), 1, 2}};
  else if constexpr (std::is_same_v<T, std::vector<int>>) return std::vector<int>(size_t(rng.range(0, 5)), int(rng.range(0, 99)));
  else return T(rng.range(0, 120));
}
// what a matrix must hold; content[i] is empty where it is unspecified
template <class T>
struct Model {
  int r = 0, c = 0;
  std::vector<std::optional<T>> x;
  int n() const { return r * c; }
};
template <class M, class = void>
struct constIterable : std::false_type {};
template <class M>
struct constIterable<M, std::void_t<decltype(std::declval<const M&>().begin()), decltype(std::declval<const M&>().end())>> : std::true_type {};
template <class M, class T>
void compare(const M& mc, const Model<T>& w, const std::string& k) {
  HV_CHECK(int(mc.rows()) == w.r && int(mc.cols()) == w.c && int(mc.size()) == w.n(), "C18/shape/" + k, "matrix is %dx%d with %d elements instead of %dx%d", int(mc.rows()), int(mc.cols()), int(mc.size()), w.r, w.c);
  if (int(mc.rows()) != w.r || int(mc.cols()) != w.c || int(mc.size()) != w.n()) return;
  M& m = const_cast<M&>(mc);
  bool ok = true, addr = true;
  for (int j = 0; j < w.c; j++)
    for (int i = 0; i < w.r; i++) {
      const int l = j * w.r + i;
      addr = addr && &m(i, j) == m.data() + l && &mc(i, j) == mc.data() + l && &m(l) == m.data() + l && &mc(l) == mc.data() + l && &m[l] == m.data() + l && &mc[l] == mc.data() + l;
      if (w.x[size_t(l)] && !(mc(i, j) == *w.x[size_t(l)])) ok = false;
    }
  HV_CHECK(addr, "C18/order/" + k, "an index of a %dx%d matrix does not address its column-major place", w.r, w.c);
  HV_CHECK(ok, "C18/content/" + k, "a %dx%d matrix does not hold what was written", w.r, w.c);
  int cnt = 0;
  for (auto& e : m) addr = addr && &e == m.data() + cnt, cnt++;
  if constexpr (constIterable<M>::value) {
    int cc = 0;
    for (const auto& e : mc) addr = addr && cc < w.n() && &e == m.data() + cc, cc++;
    if (cc != w.n()) cnt = cc;
  }
  addr = addr && static_cast<const M&>(mc).data() == m.data();
  HV_CHECK(cnt == w.n() && addr, "C18/iterate/" + k, "iterating visits %d elements of a %dx%d matrix, or in another order", cnt, w.r, w.c);
}

template <class T>
struct Play {
  using D = heu::MatrixDynamicSize<T>;
  Rng& rng;
  std::string k;
  std::vector<std::unique_ptr<D>> d;
  std::vector<Model<T>> m;
  std::string trace;
  Play(Rng& r, const std::string& ty) : rng(r), k(ty) {}
  void op(const std::string& s) {
    trace += (trace.empty() ? "" : ";") + s;
    if (trace.size() > 420) trace = "..." + trace.substr(trace.size() - 380);
    snprintf(R.curCase, sizeof R.curCase, "%s: %s", k.c_str(), trace.c_str());
  }
  // makes every unspecified element specified
  void settle(size_t i) {
    for (int l = 0; l < m[i].n(); l++)
      if (!m[i].x[size_t(l)]) {
        T v = make<T>(rng);
        (*d[i])(l) = v;
        m[i].x[size_t(l)] = v;
      }
  }
  void add(std::unique_ptr<D> p, Model<T> w) {
    d.push_back(std::move(p));
    m.push_back(std::move(w));
  }
  // the model of a matrix whose value is unspecified but which must be usable
  void resync(size_t i) {
    m[i].r = int(d[i]->rows()), m[i].c = int(d[i]->cols());
    m[i].x.assign(size_t(std::max(0, m[i].n())), std::nullopt);
    settle(i);
  }
  void fresh() {
    if (rng.coin(0.3)) {
      op("D()");
      add(std::make_unique<D>(), {});
    } else {
      Model<T> w;
      const bool big = rng.coin(0.02);
      w.r = int(rng.range(0, big ? 40 : 6)), w.c = int(rng.range(0, big ? 40 : 6));
      w.x.resize(size_t(w.n()));
      op(fmt("D(%d,%d)", w.r, w.c));
      add(std::make_unique<D>(w.r, w.c), w);
      if constexpr (std::is_class_v<T> && !std::is_trivial_v<T>)
        for (int l = 0; l < w.n(); l++) HV_CHECK((*d.back())(l) == T(), "C18/default/" + k, "a new matrix holds other elements than default ones");
      settle(d.size() - 1);
    }
  }
  template <class F>
  void assignFixed(size_t i) {
    F f;
    Model<T> w;
    w.r = int(f.rows()), w.c = int(f.cols());
    for (int l = 0; l < w.n(); l++) {
      T v = make<T>(rng);
      if (rng.coin()) f(size_t(l % w.r), size_t(l / w.r)) = v;
      else if (rng.coin()) f[size_t(l)] = v;
      else f(size_t(l)) = v;
      w.x.push_back(v);
    }
    compare(f, w, k + "/fixed");
    F g(f);
    compare(g, w, k + "/fixed_copy");
    if (rng.coin()) {
      T v = make<T>(rng);
      g.fill(v);
      Model<T> wf = w;
      for (auto& e : wf.x) e = v;
      compare(g, wf, k + "/fixed_fill");
      compare(f, w, k + "/fixed");
    }
    g = f;
    compare(g, w, k + "/fixed_assign");
    g = g;
    compare(g, w, k + "/fixed_assign");
    const int what = int(rng.range(0, 2));
    op(fmt("%s %dx%d", what == 0 ? "D=fixed" : what == 1 ? "fixed=D" : "fixed=map=fixed", w.r, w.c));
    if (what == 0) {
      *d[i] = f;
      m[i] = w;
      for (int l = 0; l < w.n(); l++) f(size_t(l)) = make<T>(rng);
    } else if (what == 1) {
      D src(w.r, w.c);
      for (int l = 0; l < w.n(); l++) src(l) = *w.x[size_t(l)];
      F h;
      h = src;
      compare(h, w, k + "/fixed_from_dynamic");
      if (w.n()) src(0) = make<T>(rng), compare(h, w, k + "/fixed_from_dynamic");
    } else {
      std::vector<T> buf(size_t(w.n()), make<T>(rng));
      heu::MatrixMap<T> mp(buf.data(), size_t(w.r), size_t(w.c));
      mp = f;
      compareMap(mp, w);
      F h;
      h = mp;
      compare(h, w, k + "/fixed_from_map");
    }
  }
  void compareMap(const heu::MatrixMap<T>& mp, const Model<T>& w) {
    compare(mp, w, k + "/map");
    HV_CHECK(mp.cbegin() == mp.data() && mp.cend() == mp.data() + w.n(), "C18/iterate/" + k + "/map", "const iterators of a mapped %dx%d matrix", w.r, w.c);
  }
  void maps(size_t i) {
    const int r = int(rng.range(0, 5)), c = int(rng.range(0, 5)), n = r * c;
    // one guard element before and after what is mapped
    std::vector<T> buf, guard;
    for (int l = 0; l < n + 2; l++) buf.push_back(make<T>(rng));
    guard = {buf.front(), buf.back()};
    heu::MatrixMap<T> mp(buf.data() + 1, size_t(r), size_t(c));
    Model<T> w;
    w.r = r, w.c = c;
    for (int l = 0; l < n; l++) w.x.push_back(buf[size_t(l) + 1]);
    compareMap(mp, w);
    for (int q = 0; q < 4 && n; q++) {
      const int l = int(rng.range(0, n - 1));
      T v = make<T>(rng);
      if (rng.coin()) mp(size_t(l % r), size_t(l / r)) = v;
      else if (rng.coin()) mp[size_t(l)] = v;
      else mp(size_t(l)) = v;
      w.x[size_t(l)] = v;
      HV_CHECK(buf[size_t(l) + 1] == v, "C18/map_writes/" + k, "writing to a mapped matrix does not write to its memory");
    }
    heu::MatrixMap<T> mq(mp);  // shallow
    HV_CHECK(mq.data() == mp.data() && mq.rows() == mp.rows() && mq.cols() == mp.cols(), "C18/map_copy/" + k, "copy of a map maps something else");
    if (rng.coin(0.3) && n) {
      T v = make<T>(rng);
      mq.fill(v);
      for (auto& e : w.x) e = v;
    }
    compareMap(mp, w);
    switch (rng.range(0, 3)) {
      case 0:
        op(fmt("D=map %dx%d", r, c));
        *d[i] = mp;
        m[i] = w;
        if (n) buf[1] = make<T>(rng), w.x[0] = buf[1];
        break;
      case 1: {
        op("map=D");
        const Model<T>& s = m[i];
        std::vector<T> other(size_t(s.n()) + 1, make<T>(rng));
        const T end = other.back();
        heu::MatrixMap<T> mt(other.data(), size_t(s.r), size_t(s.c));
        mt = *d[i];
        compareMap(mt, s);
        HV_CHECK(other.back() == end, "C18/map_bounds/" + k, "assigning to a mapped matrix wrote behind it");
        break;
      }
      case 2: {
        op("map=map");
        std::vector<T> other(size_t(n) + 1, make<T>(rng));
        const T end = other.back();
        heu::MatrixMap<T> mt(other.data(), size_t(r), size_t(c));
        if (rng.coin()) mt = mp;
        else mp.deepCopyTo(&mt);
        compareMap(mt, w);
        HV_CHECK(mt.data() == other.data() && other.back() == end, "C18/map_bounds/" + k, "copying a mapped matrix wrote elsewhere");
        break;
      }
      default: {  // another shape of the same memory
        op("map.resize");
        mp.resize(size_t(c), size_t(r));
        std::swap(w.r, w.c);
        break;
      }
    }
    compareMap(mp, w);
    HV_CHECK(buf.front() == guard[0] && buf.back() == guard[1], "C18/map_bounds/" + k, "a mapped matrix wrote outside of its memory");
  }
  void step() {
    if (d.size() < 2 || (d.size() < 5 && rng.coin(0.1))) {
      fresh();
      return;
    }
    const size_t i = size_t(rng.range(0, int64_t(d.size()) - 1)), j = size_t(rng.range(0, int64_t(d.size()) - 1));
    D& a = *d[i];
    switch (rng.range(0, 14)) {
      case 0:
      case 1:
        if (m[i].n()) {
          const int l = int(rng.range(0, m[i].n() - 1));
          T v = make<T>(rng);
          op(fmt("write %d", l));
          switch (rng.range(0, 4)) {
            case 0: a(l % m[i].r, l / m[i].r) = v; break;
            case 1: a(l) = v; break;
            case 2: a[l] = v; break;
            case 3: a.data()[l] = v; break;
            default: a.begin()[l] = v; break;
          }
          m[i].x[size_t(l)] = v;
        }
        break;
      case 2: {
        op("fill");
        T v = make<T>(rng);
        a.fill(v);
        for (auto& e : m[i].x) e = v;
        break;
      }
      case 3: {
        op("copy-construct");
        if (d.size() < 5) {
          add(std::make_unique<D>(static_cast<const D&>(a)), m[i]);
        } else {
          D t(static_cast<const D&>(a));
          compare(t, m[i], k + "/copy");
          t.fill(make<T>(rng));
        }
        break;
      }
      case 4: {
        op("move-construct");
        add(std::make_unique<D>(std::move(a)), m[i]);
        resync(i);
        break;
      }
      case 5:
        op(i == j ? "self-assign" : "copy-assign");
        a = static_cast<const D&>(*d[j]);
        m[i] = m[j];
        break;
      case 6:
      case 7: {
        op(i == j ? "self-move" : "move-assign");
        D& ret = (a = std::move(*d[j]));
        HV_CHECK(&ret == &a, "C18/move_returns/" + k, "move assignment does not return the matrix");
        if (i != j) m[i] = m[j];
        resync(j);
        break;
      }
      case 8:
      case 9: {
        const bool big = rng.coin(0.02);
        const int r = int(rng.range(0, big ? 40 : 7)), c = int(rng.range(0, big ? 40 : 7)), oldCap = a.capacity();
        const T* oldData = a.data();
        op(fmt("resize %dx%d->%dx%d cap %d", m[i].r, m[i].c, r, c, oldCap));
        a.resize(r, c);
        const int keep = r * c <= oldCap ? std::min(r * c, m[i].n()) : 0;
        m[i].r = r, m[i].c = c;
        m[i].x.resize(size_t(keep));
        m[i].x.resize(size_t(r * c));
        if (r * c <= oldCap) HV_CHECK(a.data() == oldData && a.capacity() == oldCap, "C18/resize_capacity/" + k, "resize within the capacity moved the elements");
        if constexpr (std::is_class_v<T> && !std::is_trivial_v<T>)
          for (int l = 0; l < m[i].n(); l++) {
            T copy(a(l));  // must be a valid object
            (void)copy;
          }
        compare(a, m[i], k + "/resize");
        settle(i);
        break;
      }
      case 10: {
        const int s = int(rng.range(0, rng.coin(0.03) ? 700 : 60)), oldCap = a.capacity();
        const T* oldData = a.data();
        op(fmt("reserve %d cap %d", s, oldCap));
        a.reserve(s);
        HV_CHECK(a.capacity() >= s, "C18/reserve/" + k, "capacity is %d after reserve(%d)", a.capacity(), s);
        if (s <= oldCap) HV_CHECK(a.capacity() == oldCap && a.data() == oldData, "C18/reserve_noop/" + k, "reserve(%d) with capacity %d did something", s, oldCap);
        break;
      }
      case 11:
        switch (rng.range(0, 4)) {
          case 0: assignFixed<heu::MatrixFixedSize<T, 1, 1>>(i); break;
          case 1: assignFixed<heu::MatrixFixedSize<T, 3, 4>>(i); break;
          case 2: assignFixed<heu::MatrixFixedSize<T, 4, 3>>(i); break;
          case 3: assignFixed<heu::MatrixFixedSize<T, 2, 7>>(i); break;
          default: assignFixed<heu::MatrixFixedSize<T, 6, 1>>(i); break;
        }
        break;
      case 12:
      case 13: maps(i); break;
      default:
        op("destroy");
        d.erase(d.begin() + long(i));
        m.erase(m.begin() + long(i));
        break;
    }
    uint64_t sig = 0;
    for (size_t q = 0; q < d.size(); q++) {
      compare(static_cast<const D&>(*d[q]), m[q], k);
      HV_CHECK(d[q]->capacity() >= d[q]->size(), "C18/capacity/" + k, "capacity %d is less than size %d", d[q]->capacity(), d[q]->size());
      sig = mix(mix(sig, uint64_t(m[q].r * 100 + m[q].c)), uint64_t(d[q]->capacity()));
    }
    observed(mix(sig, trace.size()));
    count("operations");
  }
};
template <class T>
void play(Rng& rng, const char* ty) {
  for (int t = 0, T0 = scale(250, 20); t < T0; t++) {
    beginCase(fmt("%s matrices, sequence %d", ty, t));
    {
      Play<T> p(rng, ty);
      for (int s = 0; s < 60; s++) p.step();
    }
    if constexpr (std::is_same_v<T, Counted>) {
      HV_CHECK(Counted::live().empty(), "C18/lifetime/never_destroyed", "%d elements were never destroyed", int(Counted::live().size()));
      Counted::live().clear();
    }
  }
}
#if MT_GROUP == 0
HV_PART(mat_int) { play<int>(rng, "int"); }
HV_PART(mat_double) { play<double>(rng, "double"); }
HV_PART(mat_byte) { play<uint8_t>(rng, "byte"); }
#elif MT_GROUP == 1
HV_PART(mat_string) { play<std::string>(rng, "string"); }
HV_PART(mat_vector) { play<std::vector<int>>(rng, "vector"); }
#else
HV_PART(mat_counted) { play<Counted>(rng, "counted"); }
HV_PART(mat_big) { play<Big>(rng, "big"); }
#endif
