// Control over the OpenMP runtime the monitored library runs on (see ompshim.cpp).
#pragma once
#include <atomic>
#include <cstdint>
namespace shim {
enum Mode { RANDOM = 0, ROUND_ROBIN, LAST_TAKES_ALL, REVERSED, FIRST_TAKES_ALL, NMODES };
struct State {
  int threads = 0;   // team size, 0: drawn anew for every region
  int mode = -1;      // who runs which chunk, -1: drawn anew for every region
  uint64_t seed = 1;
  bool delays = false;
  int limit = 0;      // the number of threads the program has been told to use, 0: not watched
  int asked = 0;      // omp_set_num_threads
  // what happened
  uint64_t regions = 0, loops = 0, chunks = 0, iterations = 0, busiestTeam = 0, schedule = 0, badChunks = 0, tooMany = 0, tooFew = 0;
};
extern State state;
}  // namespace shim
