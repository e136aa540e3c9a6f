// Choice-sequence based property testing core: every random decision of a case is one entry of a
// choice log, so that a failing case can be replayed and shrunk by editing the log.
#pragma once
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <map>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;

struct Fail {
  std::string msg;
};
struct Known {
  std::string id;
};

static inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

// Shared log; lives in a mapped file so that the choices survive a crash of the worker.
#define LOG_MAX (1u << 20)
struct SharedLog {
  volatile uint64_t case_no;
  volatile uint64_t started_ms;
  volatile uint32_t n;
  volatile uint32_t state;  // 0 idle, 1 running case, 2 done
  uint64_t choice[LOG_MAX];
};

struct Src {
  SharedLog *log = nullptr;
  bool replay = false;
  const std::vector<uint64_t> *in = nullptr;
  size_t pos = 0;
  uint64_t s = 1;

  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // Uniform in [0, n). Smaller values must be "simpler".
  uint64_t draw(uint64_t n) {
    uint64_t v;
    if (replay) {
      v = pos < in->size() ? (*in)[pos] : 0;
      pos++;
      if (n && v >= n) v = n - 1;
    } else {
      v = next();
      if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    }
    if (log && log->n < LOG_MAX) {
      log->choice[log->n] = v;
      log->n = log->n + 1;
    }
    return v;
  }
  uint64_t raw64() { return draw(0); }
  int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return (int)draw(den) >= den - num; }  // 0 => false
  bool coin() { return draw(2) == 1; }
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[draw(v.size())];
  }
  int weighted(std::initializer_list<int> w) {
    int tot = 0;
    for (int x : w) tot += x;
    int d = (int)draw(tot), i = 0;
    for (int x : w) {
      if (d < x) return i;
      d -= x;
      i++;
    }
    return 0;
  }
  // A size biased towards small values but with occasional large ones.
  int size_biased(int small, int big) {
    return chance(1, 8) ? range(0, big) : range(0, small);
  }
};

struct Ctx {
  Src &src;
  bool is_nontrivial = false;
  std::string desc;
  std::vector<std::string> labels;
  bool verbose = false;
  explicit Ctx(Src &s) : src(s) {}
  void nontrivial() { is_nontrivial = true; }
  void label(const std::string &l) { labels.push_back(l); }
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    char b[600];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    if (desc.size() < 4000) {
      if (!desc.empty()) desc += "; ";
      desc += b;
    }
    if (verbose) {
      fprintf(stderr, "  note: %s\n", b);
    }
  }
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    char b[3000];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    throw Fail{b};
  }
  bool holds(bool x) const { return x; }
};
[[noreturn]] inline void fail_with(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fail_with(const char *fmt, ...) {
  char b[3000];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  throw Fail{b};
}
// ctx.require(condition, format, ...): the message is only made when it is needed.
#define require(cond, ...) holds(cond) ? (void)0 : fail_with(__VA_ARGS__)

typedef void (*PropFn)(Ctx &);
struct PropDef {
  const char *id;
  PropFn fn;
  const char *rule;
  void (*setup)();  // once per process, may be null
};
std::vector<PropDef> &prop_registry();
struct PropReg {
  PropReg(const char *id, PropFn fn, const char *rule, void (*setup)() = nullptr) {
    prop_registry().push_back({id, fn, rule, setup});
  }
};
#define PROPERTY(ID, RULE)              \
  static void prop_##ID(Ctx &c);        \
  static PropReg reg_##ID(#ID, prop_##ID, RULE); \
  static void prop_##ID(Ctx &c)

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hexs(const uint8_t *p, size_t n, size_t max = 64);
void det_rand_seed(uint64_t seed);  // seeds the deterministic OpenSSL RAND replacement
extern std::string g_keys_dir, g_scratch_dir;
