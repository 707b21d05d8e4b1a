// Puts the library's random engine into states whose next draws are extreme.
#pragma once
#include <random>
#include <sstream>
#include "hv.hpp"
namespace eng {
inline uint32_t untemper(uint32_t y) {
  y ^= y >> 18;
  y ^= (y << 15) & 0xefc60000u;
  uint32_t x = y;
  for (int i = 0; i < 5; i++) x = y ^ ((x << 7) & 0x9d2c5680u);
  y = x;
  x = y;
  for (int i = 0; i < 3; i++) x = y ^ (x >> 11);
  return x;
}
// the next 624 outputs of the engine are out[0], out[1], ... (cyclic)
inline void force(std::mt19937& mt, const std::vector<uint32_t>& out) {
  std::ostringstream os;
  for (int i = 0; i < 624; i++) os << untemper(out[size_t(i) % out.size()]) << ' ';
  os << 0;
  std::istringstream is(os.str());
  is >> mt;
}
// outputs that mix extreme with ordinary words
inline std::vector<uint32_t> hostile(hv::Rng& rng) {
  std::vector<uint32_t> v;
  const int mode = int(rng.range(0, 5));
  const size_t n = size_t(rng.range(1, 624));
  for (size_t i = 0; i < n; i++) {
    const uint32_t r = uint32_t(rng.next());
    switch (mode) {
      case 0: v.push_back(0xFFFFFFFFu); break;
      case 1: v.push_back(0); break;
      case 2: v.push_back(rng.coin() ? 0xFFFFFFFFu : 0); break;
      case 3: v.push_back(rng.coin(0.3) ? 0xFFFFFFFFu - (r % 3) : r); break;
      case 4: v.push_back(rng.coin(0.3) ? r % 3 : r); break;
      default: v.push_back(rng.coin(0.2) ? 0x80000000u : rng.coin(0.2) ? 0x7FFFFFFFu : r); break;
    }
  }
  return v;
}
// one run in eight starts in a hostile state; what such a run does doesn't count for statistics
inline bool& hostileRun() {
  static bool b = false;
  return b;
}
inline void start(std::mt19937& mt, hv::Rng& rng) {
  mt.seed(uint32_t(rng.next()));
  hostileRun() = rng.coin(0.12);
  if (!hostileRun()) return;
  auto w = hostile(rng);
  w.resize(std::min<size_t>(w.size(), 600));
  while (w.size() < 624) w.push_back(uint32_t(rng.next()) | 1u);  // never (close to) the absorbing all-zero state, no short cycles
  force(mt, w);
  hv::count("runs_with_hostile_random_states");
}
}  // namespace eng
