// C19: multiBitSet is a faithful packed array. BS_GROUP picks the block type.
#include "hv.hpp"
#include <memory>
#include <HeuristicFlow/SimpleMatrix>
using namespace hv;
#ifndef BS_GROUP
#define BS_GROUP 0
#endif

template <int Bits, class Block>
struct Play {
  using S = heu::multiBitSet<Bits, Block>;
  using V = typename S::value_t;
  static constexpr uint64_t mask = Bits == 64 ? ~0ull : (1ull << (Bits % 64)) - 1;
  Rng& rng;
  std::string k;
  std::vector<std::unique_ptr<S>> s;
  std::vector<std::vector<uint64_t>> m;
  std::string trace;
  explicit Play(Rng& r) : rng(r), k(fmt("%dbit/%d", Bits, int(sizeof(Block) * 8))) {}
  void op(const std::string& t) {
    trace += (trace.empty() ? "" : ";") + t;
    if (trace.size() > 420) trace = "..." + trace.substr(trace.size() - 380);
    snprintf(R.curCase, sizeof R.curCase, "multiBitSet %s: %s", k.c_str(), trace.c_str());
  }
  uint64_t val() {
    switch (rng.range(0, 4)) {
      case 0: return 0;
      case 1: return mask;
      case 2: return V(~uint64_t(0));  // more bits than an element has
      default: return V(rng.next());
    }
  }
  // full: every access path; otherwise the packed values only
  void compare(size_t i, bool full, const char* w) {
    S& a = *s[i];
    const S& c = a;
    const auto& x = m[i];
    HV_CHECK(c.size() == x.size(), std::string("C19/size/") + k, "after %s size() is %llu instead of %llu", w, (unsigned long long)c.size(), (unsigned long long)x.size());
    if (c.size() != x.size()) return;
    HV_CHECK(c.capacity() >= c.size() && c.blocks() * sizeof(Block) * 8 >= c.size() * uint64_t(Bits), std::string("C19/capacity/") + k, "after %s: size %llu, capacity %llu, %llu blocks", w, (unsigned long long)c.size(), (unsigned long long)c.capacity(), (unsigned long long)c.blocks());
    for (size_t l = 0; l < x.size(); l++) {
      const uint64_t g = full ? uint64_t(c[l]) : uint64_t(V(a[l]));
      if (g != x[l]) {
        HV_CHECK(false, std::string("C19/value/") + k, "after %s element %llu of %llu is %llu instead of %llu", w, (unsigned long long)l, (unsigned long long)x.size(), (unsigned long long)g, (unsigned long long)x[l]);
        return;
      }
    }
    if (!full) return;
    bool ok = true;
    for (size_t l = 0; l < x.size(); l++) ok = ok && uint64_t(c.at(l)) == x[l] && uint64_t(V(a.at(l))) == x[l] && uint64_t(V(a[l])) == x[l];
    HV_CHECK(ok, std::string("C19/access/") + k, "after %s at() and operator[] disagree", w);
    if (!x.empty()) HV_CHECK(uint64_t(c.front()) == x.front() && uint64_t(V(a.front())) == x.front() && uint64_t(c.back()) == x.back() && uint64_t(V(a.back())) == x.back(), std::string("C19/ends/") + k, "after %s front/back", w);
    // iterators, forwards and backwards
    size_t l = 0;
    ok = true;
    for (auto it = a.begin(); it != a.end() && l < x.size(); ++it, ++l) ok = ok && uint64_t(V(*it)) == x[l] && it.index() == l && !it.isNull();
    ok = ok && l == x.size();
    l = 0;
    for (auto it = c.begin(); it != c.end() && l < x.size(); it++, ++l) ok = ok && uint64_t(*it) == x[l] && it.index() == l;
    ok = ok && l == x.size();
    l = x.size();
    for (auto it = a.end(); it != a.begin() && l > 0;) --it, --l, ok = ok && uint64_t(V(*it)) == x[l];
    ok = ok && l == 0;
    l = 0;
    for (auto e : a) ok = ok && l < x.size() && uint64_t(V(e)) == x[l], l++;
    ok = ok && l == x.size();
    ok = ok && a.end().isNull() && a.begin() + int64_t(x.size()) == a.end() && a.end() - int64_t(x.size()) == a.begin();
    typename S::constIterator_t ci = a.begin();
    ok = ok && ci == a.begin() && ci == c.begin();
    if (!x.empty()) {
      const size_t q = size_t(rng.range(0, int64_t(x.size()) - 1));
      ok = ok && uint64_t(V(*(a.begin() + int64_t(q)))) == x[q] && uint64_t(*(c.begin() + int64_t(q))) == x[q] && uint64_t(V(*(a.begin()[int64_t(q)]))) == x[q] && uint64_t(V(*(a.end() - int64_t(x.size() - q)))) == x[q];
      auto it = a.begin() + int64_t(q);
      auto was = it++;
      ok = ok && was.index() == q && it.index() == q + 1;
      was = it--;
      ok = ok && was.index() == q + 1 && it.index() == q;
      auto from = s.front()->end();  // maybe of another array
      from = it;  // iterators are values
      ok = ok && from == it && from.index() == q && uint64_t(V(*from)) == x[q];
      const S& other = *s.back();
      auto cf = other.end();
      const auto cq = c.begin() + int64_t(q);
      cf = cq;
      ok = ok && cf == cq && !(cf != cq) && cf != c.end() && cf.index() == q && uint64_t(*cf) == x[q];
      cf = it;
      ok = ok && cf == cq;
      auto cw = cf++;
      ok = ok && cw.index() == q && cf.index() == q + 1;
      cw = cf--;
      ok = ok && cw.index() == q + 1 && cf.index() == q;
      ++cf;
      const auto cb = --cf;
      ok = ok && cb.index() == q && (c.end() - int64_t(x.size() - q)).index() == q && uint64_t(*(c.begin()[int64_t(q)])) == x[q];
    }
    HV_CHECK(ok, std::string("C19/iterators/") + k, "after %s an iterator shows something else", w);
  }
  void write(size_t i, size_t l, uint64_t v) {
    S& a = *s[i];
    uint64_t ret = v & mask;
    switch (rng.range(0, 6)) {
      case 0: ret = uint64_t(a.at(l) = V(v)); break;
      case 1: {
        auto it = a.begin() + int64_t(l);
        ret = uint64_t(*it = V(v));
        break;
      }
      case 2: {
        auto r = a[l];
        r = V(v);
        break;
      }
      case 3:
        if (l == 0) a.front() = V(v);
        else if (l + 1 == m[i].size()) a.back() = V(v);
        else a[l] = V(v);
        break;
      case 4: {  // from another element
        const size_t o = size_t(rng.range(0, int64_t(m[i].size()) - 1));
        v = m[i][o];
        if (rng.coin()) a[l] = a[o];
        else *(a.begin() + int64_t(l)) = a.at(o);
        ret = v;
        break;
      }
      default: a[l] = V(v); break;
    }
    HV_CHECK(ret == (v & mask), std::string("C19/assign_returns/") + k, "assigning %llu returned %llu", (unsigned long long)v, (unsigned long long)ret);
    m[i][l] = v & mask;
  }
  void step() {
    if (s.size() < 2 || (s.size() < 4 && rng.coin(0.05))) {
      if (rng.coin(0.3)) {
        op("S()");
        s.push_back(std::make_unique<S>());
        m.push_back({});
      } else {
        const size_t n = rng.coin(0.2) ? 0 : size_t(rng.range(1, rng.coin(0.02) ? 1500 : 70));
        op(fmt("S(%d)", int(n)));
        s.push_back(std::make_unique<S>(n));
        m.push_back(std::vector<uint64_t>(n, 0));
      }
      compare(s.size() - 1, true, "construction");
      return;
    }
    const size_t i = size_t(rng.range(0, int64_t(s.size()) - 1)), j = size_t(rng.range(0, int64_t(s.size()) - 1));
    S& a = *s[i];
    const char* w = "?";
    switch (rng.range(0, 15)) {
      case 0:
      case 1:
      case 2:
        w = "writes";
        if (!m[i].empty())
          for (int q = 0; q < 8; q++) {
            const size_t l = size_t(rng.range(0, int64_t(m[i].size()) - 1));
            op(fmt("[%d]=", int(l)));
            write(i, l, val());
          }
        break;
      case 3:
      case 4:
      case 5:
        w = "push_back";
        for (int q = 0, Q = int(rng.range(1, 12)); q < Q; q++) {
          const uint64_t v = val();
          if (rng.coin()) a.push_back(V(v));
          else a.emplace_back(V(v));
          m[i].push_back(v & mask);
        }
        op("push");
        break;
      case 6:
        w = "pop_back";
        for (int q = 0, Q = int(rng.range(1, 6)); q < Q && !m[i].empty(); q++) a.pop_back(), m[i].pop_back();
        op("pop");
        break;
      case 7:
      case 8: {
        w = "resize";
        const size_t n = size_t(rng.range(0, rng.coin(0.02) ? 1500 : 90));
        op(fmt("resize %d->%d", int(m[i].size()), int(n)));
        a.resize(n);
        m[i].resize(n, 0);
        break;
      }
      case 9: {
        w = "reserve";
        const size_t n = size_t(rng.range(0, rng.coin(0.02) ? 1500 : 120));
        const size_t cap = a.capacity();
        const Block* p = a.data();
        op(fmt("reserve %d cap %d", int(n), int(cap)));
        a.reserve(n);
        HV_CHECK(a.capacity() >= n, std::string("C19/reserve/") + k, "capacity %d after reserve(%d)", int(a.capacity()), int(n));
        if (n <= cap) HV_CHECK(a.capacity() == cap && a.data() == p, std::string("C19/reserve_noop/") + k, "reserve(%d) with capacity %d did something", int(n), int(cap));
        else {
          p = a.data();
          while (m[i].size() < n) a.push_back(V(m[i].size())), m[i].push_back(V(m[i].size()) & mask);
          HV_CHECK(a.data() == p, std::string("C19/reserve_enough/") + k, "memory reserved for %d elements was not enough", int(n));
        }
        break;
      }
      case 10:
        w = "shrink_to_fit";
        op(fmt("shrink %d cap %d", int(m[i].size()), int(a.capacity())));
        a.shrink_to_fit();
        HV_CHECK(a.blocks() * sizeof(Block) * 8 < m[i].size() * uint64_t(Bits) + sizeof(Block) * 8, std::string("C19/shrink/") + k, "%d blocks for %d elements after shrink_to_fit", int(a.blocks()), int(m[i].size()));
        break;
      case 11:
        w = "clear";
        op("clear");
        a.clear();
        m[i].clear();
        break;
      case 12: {
        w = "copy construction";
        op("copy-construct");
        const S& src = a;
        if (s.size() < 4) {
          s.push_back(std::make_unique<S>(src));
          m.push_back(m[i]);
        } else
          s[j] = std::make_unique<S>(src), m[j] = std::vector<uint64_t>(m[i]);
        break;
      }
      case 13: {
        w = "move construction";
        op("move-construct");
        auto p = std::make_unique<S>(std::move(a));
        const S& left = a;
        // what is left must be usable
        std::vector<uint64_t> rest;
        for (size_t l = 0; l < left.size(); l++) rest.push_back(left[l]);
        s.push_back(std::move(p));
        m.push_back(m[i]);
        m[i] = rest;
        break;
      }
      default:
        w = i == j ? "self assignment" : "assignment";
        op(w);
        if (rng.coin(0.3) && i != j) {
          a = std::move(*s[j]);
          m[i] = m[j];
          const S& left = *s[j];
          m[j].clear();
          for (size_t l = 0; l < left.size(); l++) m[j].push_back(left[l]);
        } else {
          a = static_cast<const S&>(*s[j]);
          m[i] = std::vector<uint64_t>(m[j]);
        }
        break;
    }
    const bool full = rng.coin(0.25);
    uint64_t sig = 0;
    for (size_t q = 0; q < s.size(); q++) {
      compare(q, full, w);
      for (uint64_t v : m[q]) sig = mix(sig, v);
      sig = mix(sig, s[q]->capacity());
    }
    while (s.size() > 5) s.erase(s.begin()), m.erase(m.begin());
    observed(mix(sig, trace.size()));
    count("operations");
  }
};
template <int Bits, class Block>
void play(Rng& rng) {
  for (int t = 0, T0 = scale(14, 30); t < T0; t++) {
    beginCase(fmt("multiBitSet<%d> of %d-bit blocks, sequence %d", Bits, int(sizeof(Block) * 8), t));
    Play<Bits, Block> p(rng);
    for (int q = 0; q < 60; q++) p.step();
  }
  // every element of a small array, all neighbours known
  beginCase(fmt("multiBitSet<%d> of %d-bit blocks, neighbours", Bits, int(sizeof(Block) * 8)));
  Play<Bits, Block> p(rng);
  const size_t n = 40;
  p.s.push_back(std::make_unique<typename Play<Bits, Block>::S>(n));
  p.m.push_back(std::vector<uint64_t>(n, 0));
  for (uint64_t bg : {uint64_t(0), Play<Bits, Block>::mask})
    for (size_t l = 0; l < n; l++) {
      for (size_t q = 0; q < n; q++) p.write(0, q, bg), (*p.s[0])[q] = typename Play<Bits, Block>::V(bg), p.m[0][q] = bg & p.mask;
      p.write(0, l, ~bg & p.mask);
      p.compare(0, false, "one write among equal neighbours");
      observed(mix(l, bg));
    }
}
// sizes whose number of bits has no exact float representation
template <int Bits, class Block>
void huge(Rng& rng) {
  for (int t = 0, T0 = scale(2, 4); t < T0; t++) {
    const size_t n = ((size_t(1) << rng.range(24, 25)) + size_t(rng.range(1, 4000))) / Bits + 1;
    beginCase(fmt("multiBitSet<%d> of %d-bit blocks with %llu elements", Bits, int(sizeof(Block) * 8), (unsigned long long)n));
    using S = heu::multiBitSet<Bits, Block>;
    using V = typename S::value_t;
    S a;
    const int how = int(rng.range(0, 2));
    if (how == 0) a = S(n);
    else if (how == 1) a.resize(n);
    else {
      a.reserve(n);
      HV_CHECK(a.capacity() >= n, "C19/huge", "reserve(%llu) gives capacity %llu", (unsigned long long)n, (unsigned long long)a.capacity());
      a.resize(n);
    }
    HV_CHECK(a.size() == n && a.capacity() >= n && a.blocks() * sizeof(Block) * 8 >= n * uint64_t(Bits), "C19/huge", "%llu elements of %d bits in %llu blocks of %d bits", (unsigned long long)n, Bits, (unsigned long long)a.blocks(), int(sizeof(Block) * 8));
    if (a.blocks() * sizeof(Block) * 8 >= n * uint64_t(Bits)) {
      a.back() = V(1);
      a.front() = V(1);
      S b(static_cast<const S&>(a));
      b.shrink_to_fit();
      HV_CHECK(uint64_t(V(b.back())) == 1 && uint64_t(V(b.front())) == 1 && b.size() == n, "C19/huge", "copy of %llu elements lost the ends", (unsigned long long)n);
      a.push_back(V(1));
      HV_CHECK(uint64_t(V(a.back())) == 1 && a.size() == n + 1, "C19/huge", "push_back onto %llu elements", (unsigned long long)n);
    }
    observed(n);
  }
}
#if BS_GROUP == 0
HV_PART(bits_u8a) { play<1, uint8_t>(rng), play<2, uint8_t>(rng), play<3, uint8_t>(rng), play<4, uint8_t>(rng); }
HV_PART(bits_u8b) { play<5, uint8_t>(rng), play<6, uint8_t>(rng), play<7, uint8_t>(rng), play<8, uint8_t>(rng), huge<3, uint8_t>(rng); }
#elif BS_GROUP == 1
HV_PART(bits_u16a) { play<1, uint16_t>(rng), play<3, uint16_t>(rng), play<5, uint16_t>(rng), play<6, uint16_t>(rng), play<7, uint16_t>(rng); }
HV_PART(bits_u16b) { play<8, uint16_t>(rng), play<9, uint16_t>(rng), play<11, uint16_t>(rng), play<15, uint16_t>(rng), play<16, uint16_t>(rng), huge<5, uint16_t>(rng); }
#elif BS_GROUP == 2
HV_PART(bits_u32a) { play<1, uint32_t>(rng), play<2, uint32_t>(rng), play<3, uint32_t>(rng), play<5, uint32_t>(rng), play<7, uint32_t>(rng); }
HV_PART(bits_u32b) { play<8, uint32_t>(rng), play<13, uint32_t>(rng), play<17, uint32_t>(rng), play<31, uint32_t>(rng), play<32, uint32_t>(rng), huge<7, uint32_t>(rng); }
#else
HV_PART(bits_u64a) { play<1, size_t>(rng), play<2, size_t>(rng), play<3, size_t>(rng), play<4, size_t>(rng), play<5, size_t>(rng), play<6, size_t>(rng), play<7, size_t>(rng), huge<1, size_t>(rng), huge<7, size_t>(rng); }
HV_PART(bits_u64b) { play<8, size_t>(rng), play<9, uint64_t>(rng), play<16, size_t>(rng), play<23, size_t>(rng), play<32, size_t>(rng), play<33, size_t>(rng), play<48, size_t>(rng), play<63, size_t>(rng), play<64, size_t>(rng), huge<33, size_t>(rng); }
#endif
