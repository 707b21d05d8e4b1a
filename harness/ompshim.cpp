// A stand-in for libgomp: the compiled OpenMP code of the library calls these functions instead of the runtime's.
// Every parallel region gets fresh threads; which thread runs which chunk, and in which order, is drawn from a seed by
// every thread for itself, without any shared counter: nothing orders two threads of a region but the library's own
// synchronisation, so ThreadSanitizer sees every unordered pair of accesses, whatever the timing.
#include "ompshim.hpp"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <algorithm>
#include <vector>

namespace shim {
State state;
namespace {
uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
struct Team {
  int n, mode;
  uint64_t seed;
  bool delays;
  pthread_barrier_t bar;
};
struct Self {
  Team* team = nullptr;
  int id = 0;
  uint64_t loopNo = 0, singleNo = 0;
  std::vector<std::pair<long, long>> mine;  // chunks left in the current loop
  size_t next = 0;
  long cur = 0, curEnd = 0, cnt = 0;
  uint64_t loops = 0, chunks = 0, iterations = 0, sched = 0, bad = 0;
  unsigned sectionCount = 0;
};
thread_local Self* self = nullptr;
void (*noop)() = nullptr;
pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER, nameless = PTHREAD_MUTEX_INITIALIZER;

void pauseABit(uint64_t r) {
  if (r % 4 == 0) sched_yield();
  if (r % 64 == 1) usleep(useconds_t(r / 64 % 60));
}
// the chunks of [0,total) that this thread runs, in its order
void share(long total, long chunk, Self& s) {
  s.mine.clear();
  s.next = 0;
  s.loops++;
  if (chunk <= 0) {
    s.bad++;
    chunk = 1;
  }
  const Team& t = *s.team;
  const uint64_t seed = mix(t.seed, ++s.loopNo);
  const long n = (total + chunk - 1) / chunk;
  for (long c = 0; c < n; c++) {
    int owner = 0;
    switch (t.mode) {
      case ROUND_ROBIN: owner = int(c % t.n); break;
      case LAST_TAKES_ALL: owner = t.n - 1; break;
      case REVERSED: owner = int((n - 1 - c) * t.n / n); break;
      case FIRST_TAKES_ALL: owner = 0; break;
      default: owner = int(mix(seed, uint64_t(c)) % uint64_t(t.n)); break;
    }
    if (owner == s.id) s.mine.push_back({c * chunk, std::min(total, (c + 1) * chunk)});
  }
  if (t.mode == REVERSED) std::reverse(s.mine.begin(), s.mine.end());
  if (t.mode == RANDOM)
    for (size_t i = s.mine.size(); i > 1; i--) std::swap(s.mine[i - 1], s.mine[mix(seed, i * 77 + uint64_t(s.id)) % i]);
}
bool nextChunk(Self& s, long& a, long& b) {
  if (s.next >= s.mine.size()) return false;
  a = s.mine[s.next].first;
  b = s.mine[s.next].second;
  s.next++;
  s.chunks++;
  s.iterations += uint64_t(b - a);
  s.sched = mix(mix(s.sched, uint64_t(a)), uint64_t(s.id));
  if (s.team->delays) pauseABit(mix(s.team->seed, s.sched));
  return true;
}
struct Start {
  void (*fn)(void*);
  void* data;
  Self* self;
};
void* entry(void* p) {
  Start* st = static_cast<Start*>(p);
  self = st->self;
  if (self->team->delays) pauseABit(mix(self->team->seed, uint64_t(self->id) * 3));
  st->fn(st->data);
  self = nullptr;
  return nullptr;
}
uint64_t region = 0;

void collect(const Self& s) {
  state.loops += s.loops;
  state.chunks += s.chunks;
  state.iterations += s.iterations;
  state.badChunks += s.bad;
  if (s.sched) state.schedule += mix(s.sched, region * 64 + uint64_t(s.id));
}
// body() runs as team of one inside `s`
Self*& lonely() {
  static thread_local Self* l = nullptr;
  return l;
}
Self& me() {
  if (self) return *self;
  // orphaned work sharing outside any region: a team of one
  Self*& l = lonely();
  if (!l) {
    l = new Self;
    l->team = new Team{1, FIRST_TAKES_ALL, 1, false, {}};
  }
  return *l;
}
void parallel(void (*fn)(void*), void* data, void (*prepare)(Self&, void*), void* pd, unsigned want) {
  if (self) {  // nested region: a team of one
    Team t{1, FIRST_TAKES_ALL, 1, false, {}};
    Self s, *outer = self;
    s.team = &t;
    self = &s;
    if (prepare) prepare(s, pd);
    fn(data);
    self = outer;
    return;
  }
  region++;
  state.regions++;
  const uint64_t r = mix(state.seed, region);
  static const int sizes[] = {1, 2, 3, 4, 8};
  // the team the program asks for; fewer when the sizes are drawn here
  int n = state.asked > 0 ? state.asked : state.threads > 0 ? state.threads : sizes[r % 5];
  if (want > 0) n = state.threads > 0 ? int(std::min(want, 64u)) : std::min(n, int(want));
  Team t{n, state.mode >= 0 ? state.mode : int((r / 5) % NMODES), r, state.delays, {}};
  pthread_barrier_init(&t.bar, nullptr, unsigned(t.n));
  std::vector<Self> ss(size_t(t.n));
  std::vector<Start> st(size_t(t.n));
  std::vector<pthread_t> th(size_t(t.n));
  for (int i = 0; i < t.n; i++) {
    ss[size_t(i)].team = &t;
    ss[size_t(i)].id = i;
    if (prepare) prepare(ss[size_t(i)], pd);
    st[size_t(i)] = {fn, data, &ss[size_t(i)]};
  }
  for (int i = 1; i < t.n; i++)
    if (pthread_create(&th[size_t(i)], nullptr, entry, &st[size_t(i)])) _exit(9);
  entry(&st[0]);
  for (int i = 1; i < t.n; i++) pthread_join(th[size_t(i)], nullptr);
  pthread_barrier_destroy(&t.bar);
  const uint64_t before = state.iterations;
  for (auto& s : ss) collect(s);
  if (state.limit > 0 && t.n > state.limit) state.tooMany++;
  if (state.limit > 0 && state.threads > 0 && t.n < std::min(state.limit, state.threads) && state.iterations - before >= 8 * uint64_t(std::min(state.limit, state.threads))) state.tooFew++;
  state.busiestTeam = std::max<uint64_t>(state.busiestTeam, uint64_t(t.n));
}
struct Loop {
  long start, end, incr, chunk;
};
thread_local long loopStart = 0, loopIncr = 1;
long trips(long start, long end, long incr) {
  if (incr > 0) return start < end ? (end - start + incr - 1) / incr : 0;
  return start > end ? (start - end - incr - 1) / -incr : 0;
}
bool loopNext(long* a, long* b) {
  Self& s = me();
  long i, j;
  if (!nextChunk(s, i, j)) return false;
  *a = loopStart + i * loopIncr;
  *b = loopStart + j * loopIncr;
  return true;
}
bool loopStartWith(long start, long end, long incr, long chunk, long* a, long* b) {
  loopStart = start;
  loopIncr = incr;
  share(trips(start, end, incr), chunk, me());
  return loopNext(a, b);
}
struct LoopRegion {
  void (*fn)(void*);
  void* data;
  Loop l;
};
void runLoopRegion(void* p) {  // combined parallel + loop: every thread starts with its share ready
  LoopRegion* r = static_cast<LoopRegion*>(p);
  loopStart = r->l.start;
  loopIncr = r->l.incr;
  share(trips(r->l.start, r->l.end, r->l.incr), r->l.chunk, me());
  r->fn(r->data);
}
void parallelLoop(void (*fn)(void*), void* data, unsigned want, long start, long end, long incr, long chunk) {
  LoopRegion r{fn, data, {start, end, incr, chunk}};
  parallel(runLoopRegion, &r, nullptr, nullptr, want);
}
}  // namespace
}  // namespace shim

using namespace shim;
typedef unsigned long long ull;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned want, unsigned) { parallel(fn, data, nullptr, nullptr, want); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned want, unsigned) {
  parallel(fn, data, nullptr, nullptr, want);
  return 1;
}
#define PLOOP(NAME)                                                                                                            \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned want, long s, long e, long i, long c, unsigned) { \
    parallelLoop(fn, data, want, s, e, i, c);                                                                                       \
  }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(NAME)                                                                                                   \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned want, long s, long e, long i, unsigned) { \
    parallelLoop(fn, data, want, s, e, i, 1);                                                                               \
  }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(NAME)                                                                                  \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) {                 \
    return loopStartWith(s, e, i, c, a, b);                                                         \
  }                                                                                                 \
  bool GOMP_loop_##NAME##_next(long* a, long* b) { return loopNext(a, b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(NAME)                                                                        \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) {                \
    return loopStartWith(s, e, i, 1, a, b);                                                \
  }                                                                                        \
  bool GOMP_loop_##NAME##_next(long* a, long* b) { return loopNext(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
// 64 bit unsigned loops; the offset from the start always fits
bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull* a, ull* b) {
  long i, j;
  if (!nextChunk(me(), i, j)) return false;
  *a = ull(loopStart) + ull(i) * ull(loopIncr);
  *b = ull(loopStart) + ull(j) * ull(loopIncr);
  return true;
}
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up, ull s, ull e, ull incr, ull c, ull* a, ull* b) {
  const long n = up ? (s < e ? long((e - s + incr - 1) / incr) : 0) : (s > e ? long((s - e + (0 - incr) - 1) / (0 - incr)) : 0);
  loopStart = long(s);
  loopIncr = long(incr);
  share(n, long(c), me());
  return GOMP_loop_ull_nonmonotonic_dynamic_next(a, b);
}
#define ULOOP(NAME)                                                                                      \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) {               \
    return GOMP_loop_ull_nonmonotonic_dynamic_start(up, s, e, i, c, a, b);                               \
  }                                                                                                      \
  bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return GOMP_loop_ull_nonmonotonic_dynamic_next(a, b); }
ULOOP(dynamic) ULOOP(static) ULOOP(guided) ULOOP(nonmonotonic_guided)
#define ULOOPR(NAME)                                                                                     \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) {                      \
    return GOMP_loop_ull_nonmonotonic_dynamic_start(up, s, e, i, 1, a, b);                               \
  }                                                                                                      \
  bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return GOMP_loop_ull_nonmonotonic_dynamic_next(a, b); }
ULOOPR(runtime) ULOOPR(nonmonotonic_runtime) ULOOPR(maybe_nonmonotonic_runtime)
void GOMP_barrier() {
  if (self && self->team->n > 1) pthread_barrier_wait(&self->team->bar);
}
bool GOMP_barrier_cancel() {
  GOMP_barrier();
  return false;
}
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_single_start() {
  Self& s = me();
  s.singleNo++;
  return int(mix(s.team->seed, s.singleNo * 5) % uint64_t(s.team->n)) == s.id;
}
unsigned GOMP_sections_next() {
  Self& s = me();
  long a, b;
  return nextChunk(s, a, b) ? unsigned(a) + 1 : 0;
}
unsigned GOMP_sections_start(unsigned n) {
  share(long(n), 1, me());
  return GOMP_sections_next();
}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned want, unsigned n, unsigned) { parallelLoop(fn, data, want, 0, long(n), 1, 1); }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_critical_start() { pthread_mutex_lock(&nameless); }
void GOMP_critical_end() { pthread_mutex_unlock(&nameless); }
void GOMP_critical_name_start(void** p) {
  pthread_mutex_lock(&big);
  if (!*p) {
    pthread_mutex_t* m = new pthread_mutex_t;
    pthread_mutex_init(m, nullptr);
    *p = m;
  }
  pthread_mutex_t* m = static_cast<pthread_mutex_t*>(*p);
  pthread_mutex_unlock(&big);
  pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(static_cast<pthread_mutex_t*>(*p)); }
void GOMP_atomic_start() { pthread_mutex_lock(&big); }
void GOMP_atomic_end() { pthread_mutex_unlock(&big); }
// tasks run at once
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  if (!cpy) {
    fn(data);
    return;
  }
  std::vector<char> buf(size_t(size + align));
  char* p = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(buf.data()) + uintptr_t(align) - 1) & ~(uintptr_t(align) - 1));
  cpy(p, data);
  fn(p);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
int omp_get_thread_num() { return self ? self->id : 0; }
int omp_get_num_threads() { return self ? self->team->n : 1; }
int omp_get_max_threads() { return state.asked > 0 ? state.asked : state.threads > 0 ? state.threads : 8; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return self && self->team->n > 1; }
int omp_get_level() { return self ? 1 : 0; }
int omp_get_thread_limit() { return 64; }
int omp_get_dynamic() { return 0; }
void omp_set_num_threads(int n) { state.asked = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
}
