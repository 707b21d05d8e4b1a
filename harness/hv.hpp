// Common support for the monitors: seeded randomness, case accounting, reports, crash and hang reporting.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <algorithm>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define HV_SAN 1
#endif

namespace hv {

// ---------- randomness of the harness itself (never the library's engine) ----------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // inclusive range
  int64_t range(int64_t a, int64_t b) { return a + int64_t(next() % uint64_t(b - a + 1)); }
  double u() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  double d(double a, double b) { return a + (b - a) * u(); }
  bool coin(double p = 0.5) { return u() < p; }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[size_t(next() % v.size())];
  }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
inline uint64_t bits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}

// bitwise-or-equal comparison (NaN equal to the same NaN)
inline bool same(double a, double b) { return bits(a) == bits(b) || a == b; }
inline bool near(double a, double b, double rel = 1e-9, double abs = 1e-9) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

// ---------- report ----------
struct Report {
  std::string part, out, tier = "quick";
  uint64_t seed = 1;
  uint64_t evaluations = 0, observations = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  struct V {
    std::string key, detail, where;
    uint64_t n;
  };
  std::map<std::string, V> violations;
  char curCase[512] = "(start)";
  volatile sig_atomic_t cpuTicks = 0;
  int cpuLimit = 60;
  bool dying = false;
  bool complete = false;

  static std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') {
        r += '\\';
        r += char(c);
      } else if (c < 0x20 || c > 0x7e) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      } else
        r += char(c);
    }
    return r;
  }
  void write() {
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"part\":\"%s\",\"seed\":%llu,\"complete\":%s,\"evaluations\":%llu,\"distinct\":%llu",
            esc(part).c_str(), (unsigned long long)seed, complete ? "true" : "false",
            (unsigned long long)std::max(evaluations, observations), (unsigned long long)distinct.size());
    fprintf(f, ",\"counters\":{");
    bool first = true;
    for (auto& c : counters) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second);
      first = false;
    }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& s : samples) {
      fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str());
      first = false;
    }
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto& p : violations) {
      auto& v = p.second;
      fprintf(f, "%s{\"key\":\"%s\",\"detail\":\"%s\",\"case\":\"%s\",\"count\":%llu}", first ? "" : ",",
              esc(v.key).c_str(), esc(v.detail).c_str(), esc(v.where).c_str(), (unsigned long long)v.n);
      first = false;
    }
    fprintf(f, "],\"last_case\":\"%s\"}\n", esc(curCase).c_str());
    if (f != stdout)
      fclose(f);
    else
      fflush(f);
  }
};
inline Report R;

inline void violation(const std::string& key, const std::string& detail) {
  auto it = R.violations.find(key);
  if (it != R.violations.end()) {
    it->second.n++;
    return;
  }
  R.violations[key] = {key, detail, R.curCase, 1};
}
#define HV_CHECK(cond, key, ...)                          \
  do {                                                    \
    if (!(cond)) ::hv::violation((key), ::hv::fmt(__VA_ARGS__)); \
  } while (0)

inline void count(const char* name, uint64_t n = 1) { R.counters[name] += n; }
// begin a case: resets the hang detector and remembers what runs
inline void beginCase(const std::string& what) {
  snprintf(R.curCase, sizeof R.curCase, "%s", what.c_str());
  R.cpuTicks = 0;
  R.evaluations++;
  if (R.samples.size() < 4 || (R.samples.size() < 8 && (R.evaluations & (R.evaluations - 1)) == 0 && R.evaluations > 64))
    R.samples.push_back(what);
}
// non-trivial distinct behaviour observed (signature of what the monitor saw)
inline void observed(uint64_t sig) {
  R.observations++;
  R.distinct.insert(sig);
}
inline bool thorough() { return R.tier == "thorough"; }
inline int scale(int quick, int thoroughMul = 12) { return thorough() ? quick * thoroughMul : quick; }

inline void onDeath() {
  if (R.dying) return;
  R.dying = true;
  R.violations["CRASH"] = {"CRASH", "sanitizer report or abort", R.curCase, 1};
  R.write();
}
inline void onAbort(int sig) {
  (void)sig;
  onDeath();
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
}
inline void onTick(int) {
  R.cpuTicks = R.cpuTicks + 1;
  if (R.cpuTicks > R.cpuLimit) {
    if (!R.dying) {
      R.dying = true;
      R.violations["HANG"] = {"HANG", "one case used more than its CPU budget", R.curCase, 1};
      R.write();
    }
    _exit(7);
  }
}

// ---------- parts ----------
struct Part {
  const char* name;
  void (*fn)(Rng&);
};
inline std::vector<Part>& parts() {
  static std::vector<Part> p;
  return p;
}
struct RegPart {
  RegPart(const char* n, void (*f)(Rng&)) { parts().push_back({n, f}); }
};
#define HV_PART(NAME)                                         \
  static void hv_part_##NAME(::hv::Rng&);                     \
  static ::hv::RegPart hv_reg_##NAME(#NAME, hv_part_##NAME);  \
  static void hv_part_##NAME([[maybe_unused]] ::hv::Rng& rng)

inline int mainRun(int argc, char** argv) {
  std::string part;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") R.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--tier") R.tier = val();
    else if (a == "--out") R.out = val();
    else if (a == "--part") part = val();
    else if (a == "--cpu") R.cpuLimit = atoi(val().c_str());
    else if (a == "--list") {
      for (auto& p : parts()) printf("%s\n", p.name);
      return 0;
    }
  }
#ifdef HV_SAN
  __sanitizer_set_death_callback(onDeath);
#endif
  signal(SIGABRT, onAbort);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onTick;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  struct itimerval tv;
  tv.it_interval.tv_sec = tv.it_value.tv_sec = 1;
  tv.it_interval.tv_usec = tv.it_value.tv_usec = 0;
  setitimer(ITIMER_PROF, &tv, nullptr);
  bool any = false;
  R.part = part;
  for (auto& p : parts())
    if (part == p.name) {
      any = true;
      uint64_t h = 1469598103934665603ull;
      for (const char* c = p.name; *c; c++) h = (h ^ uint64_t(*c)) * 1099511628211ull;
      Rng rng(mix(h, R.seed));
      p.fn(rng);
    }
  if (!any) {
    fprintf(stderr, "no such part %s\n", part.c_str());
    return 9;
  }
  R.complete = true;
  R.write();
  return R.violations.empty() ? 0 : 1;
}
}  // namespace hv

#ifndef HV_NO_MAIN
int main(int argc, char** argv) { return hv::mainRun(argc, argv); }
#endif
