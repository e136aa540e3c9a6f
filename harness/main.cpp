#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <openssl/rand.h>

#include <algorithm>
#include <set>
#include <unordered_set>

#include "core.h"

void install_openssl_allocator();
std::string g_keys_dir, g_scratch_dir;

std::vector<PropDef> &prop_registry() {
  static std::vector<PropDef> r;
  return r;
}
std::string strf(const char *fmt, ...) {
  char b[4000];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  return b;
}
std::string hexs(const uint8_t *p, size_t n, size_t max) {
  std::string s;
  for (size_t i = 0; i < n && i < max; i++) s += strf("%02x", p[i]);
  if (n > max) s += strf("..(%zu bytes)", n);
  return s;
}

// ---- deterministic randomness for OpenSSL (ECDSA nonces, key generation) -------------------------
static uint64_t g_rand_state = 1;
static int det_bytes(unsigned char *buf, int num) {
  for (int i = 0; i < num; i++) {
    uint64_t v = __atomic_add_fetch(&g_rand_state, 0x9E3779B97F4A7C15ull, __ATOMIC_RELAXED);
    buf[i] = (uint8_t)(mix64(v) >> 24);
  }
  return 1;
}
static int det_seed(const void *, int) { return 1; }
static int det_add(const void *, int, double) { return 1; }
static int det_status(void) { return 1; }
static RAND_METHOD g_meth = {det_seed, det_bytes, nullptr, det_add, det_bytes, det_status};
void det_rand_seed(uint64_t seed) { __atomic_store_n(&g_rand_state, mix64(seed), __ATOMIC_RELAXED); }

static SharedLog *map_log(const char *path) {
  SharedLog *l;
  if (path) {
    int fd = open(path, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(SharedLog))) exit(3);
    l = (SharedLog *)mmap(nullptr, sizeof(SharedLog), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else {
    l = (SharedLog *)mmap(nullptr, sizeof(SharedLog), PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  if (l == MAP_FAILED) exit(3);
  return l;
}

static uint64_t now_ms() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (uint64_t)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}

static void on_hang(int) {
  static const char m[] = "HANG: case exceeded its CPU budget\n";
  ssize_t r = write(2, m, sizeof m - 1);
  (void)r;
  _exit(12);
}
static void arm(int sec) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}

enum { R_PASS = 0, R_FAIL = 10, R_KNOWN = 11, R_HANG = 12 };
struct Outcome {
  int r = R_PASS;
  std::string msg, desc;
  bool nontrivial = false;
  std::vector<std::string> labels;
};

static Outcome run_case(const PropDef &p, Src &src, bool verbose) {
  Outcome o;
  Ctx c(src);
  c.verbose = verbose;
  det_rand_seed(0x5eed);
  try {
    p.fn(c);
  } catch (const Fail &f) {
    o.r = R_FAIL;
    o.msg = f.msg;
  } catch (const Known &k) {
    o.r = R_KNOWN;
    o.msg = k.id;
  }
  o.desc = c.desc;
  o.nontrivial = c.is_nontrivial;
  o.labels = c.labels;
  return o;
}

static std::string jesc(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += (char)ch;
    } else if (ch < 0x20 || ch >= 0x7f) {
      o += strf("\\u%04x", ch);
    } else
      o += (char)ch;
  }
  return o + "\"";
}

static std::vector<uint64_t> read_choices(const char *path) {
  std::vector<uint64_t> v;
  FILE *f = fopen(path, "r");
  if (!f) exit(3);
  unsigned long long x;
  while (fscanf(f, "%llu", &x) == 1) v.push_back(x);
  fclose(f);
  return v;
}
static void write_choices(const char *path, const std::vector<uint64_t> &v) {
  FILE *f = fopen(path, "w");
  if (!f) exit(3);
  for (auto x : v) fprintf(f, "%llu ", (unsigned long long)x);
  fprintf(f, "\n");
  fclose(f);
}

static const PropDef *find_prop(const char *id) {
  for (auto &p : prop_registry())
    if (!strcmp(p.id, id)) return &p;
  fprintf(stderr, "unknown property %s\n", id);
  exit(3);
}

static int case_cpu = 30;

static int cmd_work(const PropDef &p, int argc, char **argv) {
  // seed worker deadline_s mincases maxcases shm out fp
  if (argc < 8) return 3;
  uint64_t seed = strtoull(argv[0], 0, 10), worker = strtoull(argv[1], 0, 10);
  double deadline = atof(argv[2]);
  uint64_t minc = strtoull(argv[3], 0, 10), maxc = strtoull(argv[4], 0, 10);
  SharedLog *log = map_log(argv[5]);
  const char *out = argv[6], *fp = argv[7];
  uint64_t ph = 0;
  for (const char *q = p.id; *q; q++) ph = ph * 131 + *q;
  uint64_t start = now_ms();
  uint64_t n = 0, nontriv = 0;
  std::unordered_set<uint64_t> fps;
  std::map<std::string, uint64_t> labels, known;
  std::vector<std::string> samples, small_samples;
  Outcome bad;
  std::vector<uint64_t> bad_choices;
  log->state = 0;
  for (; n < maxc; n++) {
    double el = (now_ms() - start) / 1000.0;
    if (el > deadline && (n >= minc || el > 6 * deadline)) break;
    Src src;
    src.log = log;
    src.s = mix64(seed * 0x100000001B3ull ^ mix64(ph) ^ mix64(worker * 7919 + 17) ^ (n * 0x9E3779B97F4A7C15ull));
    log->n = 0;
    log->case_no = n;
    log->started_ms = now_ms();
    log->state = 1;
    arm(case_cpu);
    Outcome o = run_case(p, src, false);
    arm(0);
    log->state = 0;
    for (auto &l : o.labels) labels[l]++;
    if (o.r == R_FAIL) {
      bad = o;
      for (uint32_t i = 0; i < log->n; i++) bad_choices.push_back(log->choice[i]);
      n++;
      break;
    }
    if (o.r == R_KNOWN) {
      known[o.msg]++;
      continue;
    }
    if (o.nontrivial) {
      nontriv++;
      uint64_t h = 1469598103934665603ull;
      for (uint32_t i = 0; i < log->n; i++) h = mix64(h ^ log->choice[i]);
      if (fps.size() < 4000000) fps.insert(h);
      if (samples.size() < 3 && o.desc.size() > 20) samples.push_back(o.desc.substr(0, 900));
    }
  }
  log->state = 2;
  FILE *f = fopen(out, "w");
  if (!f) return 3;
  fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"labels\":{", (unsigned long long)n, (unsigned long long)nontriv);
  bool first = true;
  for (auto &kv : labels) {
    fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second);
    first = false;
  }
  fprintf(f, "},\"known\":{");
  first = true;
  for (auto &kv : known) {
    fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second);
    first = false;
  }
  fprintf(f, "},\"samples\":[");
  for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jesc(samples[i]).c_str());
  fprintf(f, "],\"rule\":%s", jesc(p.rule).c_str());
  if (bad.r == R_FAIL) {
    fprintf(f, ",\"fail\":{\"msg\":%s,\"desc\":%s,\"choices\":[", jesc(bad.msg).c_str(), jesc(bad.desc).c_str());
    for (size_t i = 0; i < bad_choices.size(); i++)
      fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)bad_choices[i]);
    fprintf(f, "]}");
  }
  fprintf(f, "}\n");
  fclose(f);
  f = fopen(fp, "wb");
  if (f) {
    for (auto h : fps) fwrite(&h, 8, 1, f);
    fclose(f);
  }
  return bad.r;
}

static int cmd_replay(const PropDef &p, int argc, char **argv) {
  if (argc < 1) return 3;
  auto ch = read_choices(argv[0]);
  Src src;
  src.replay = true;
  src.in = &ch;
  arm(case_cpu);
  Outcome o = run_case(p, src, argc > 1 && !strcmp(argv[1], "-v"));
  arm(0);
  printf("outcome=%d\nmessage=%s\ncase=%s\n", o.r, o.msg.c_str(), o.desc.c_str());
  fflush(stdout);
  return o.r;
}

// Runs one candidate in a child. Returns true when it still fails; |used| gets the canonical log.
static bool still_fails(const PropDef &p, const std::vector<uint64_t> &cand, SharedLog *log,
    std::vector<uint64_t> *used, int kind) {
  log->n = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    dup2(dn, 2);
    Src src;
    src.replay = true;
    src.in = &cand;
    src.log = log;
    arm(case_cpu);
    alarm(case_cpu * 2 + 10);
    Outcome o = run_case(p, src, false);
    _exit(o.r);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  bool failed = !(code == R_PASS || code == R_KNOWN);
  if (kind == R_FAIL) failed = code == R_FAIL;           // keep the class of failure
  else if (kind == R_HANG) failed = code == R_HANG || code == 128 + SIGALRM;
  else failed = failed && code != R_FAIL && code != R_HANG;
  if (failed) {
    used->clear();
    for (uint32_t i = 0; i < log->n; i++) used->push_back(log->choice[i]);
    while (!used->empty() && used->back() == 0) used->pop_back();
  }
  return failed;
}

static int cmd_shrink(const PropDef &p, int argc, char **argv) {
  // choices budget_s out kind
  if (argc < 4) return 3;
  std::vector<uint64_t> cur = read_choices(argv[0]), used;
  double budget = atof(argv[1]);
  int kind = atoi(argv[3]);
  if (kind == R_HANG) case_cpu = 8;
  SharedLog *log = map_log(nullptr);
  uint64_t start = now_ms();
  auto over = [&] { return (now_ms() - start) / 1000.0 > budget; };
  if (!still_fails(p, cur, log, &used, kind)) {
    printf("not reproducible\n");
    return 4;
  }
  if (used.size() <= cur.size()) cur = used;
  auto better = [&](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  auto attempt = [&](std::vector<uint64_t> cand) {
    if (over()) return false;
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    if (!better(cand, cur)) return false;
    std::vector<uint64_t> u;
    if (!still_fails(p, cand, log, &u, kind)) return false;
    cur = better(u, cand) ? u : cand;
    return true;
  };
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    for (size_t blk = std::min<size_t>(64, cur.size()); blk >= 1; blk /= 2) {
      for (size_t i = cur.size(); i-- > 0 && !over();) {
        if (i + blk > cur.size()) continue;
        std::vector<uint64_t> cand = cur;
        cand.erase(cand.begin() + i, cand.begin() + i + blk);
        if (attempt(cand)) {
          progress = true;
          continue;
        }
        if (blk > 1) {
          cand = cur;
          bool any = false;
          for (size_t k = i; k < i + blk && k < cand.size(); k++) {
            any |= cand[k] != 0;
            cand[k] = 0;
          }
          if (any && attempt(cand)) progress = true;
        }
      }
    }
    for (size_t i = 0; i < cur.size() && !over(); i++) {
      if (cur[i] == 0) continue;
      std::vector<uint64_t> cand = cur;
      cand[i] = 0;
      if (attempt(cand)) {
        progress = true;
        continue;
      }
      // binary search the smallest failing value, plus decrement of the preceding length choice
      uint64_t lo = 0, hi = i < cur.size() ? cur[i] : 0;
      while (lo + 1 < hi && !over()) {
        uint64_t mid = lo + (hi - lo) / 2;
        if (i >= cur.size()) break;
        cand = cur;
        cand[i] = mid;
        if (attempt(cand)) {
          progress = true;
          hi = i < cur.size() ? cur[i] : 0;
        } else
          lo = mid;
        if (hi - lo > (1ull << 32)) break;
      }
      if (i < cur.size() && cur[i] > 0) {
        for (size_t j = i + 1; j < std::min(cur.size(), i + 12); j++) {
          cand = cur;
          cand[i]--;
          cand.erase(cand.begin() + j);
          if (attempt(cand)) {
            progress = true;
            break;
          }
        }
      }
    }
  }
  write_choices(argv[2], cur);
  printf("shrunk to %zu choices\n", cur.size());
  return 0;
}

int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc >= 2 && !strcmp(argv[1], "list")) {
    for (auto &p : prop_registry()) printf("%s\t%s\n", p.id, p.rule);
    return 0;
  }
  if (argc < 3) return 3;
  const char *k = getenv("VERIF_KEYS");
  g_keys_dir = k ? k : "/verif/keys";
  const char *s = getenv("VERIF_SCRATCH");
  g_scratch_dir = s ? s : "/tmp";
  if (getenv("VERIF_CASE_CPU")) case_cpu = atoi(getenv("VERIF_CASE_CPU"));
  install_openssl_allocator();
  RAND_set_rand_method(&g_meth);
  det_rand_seed(1);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGPROF, on_hang);
  const PropDef &p = *find_prop(argv[2]);
  if (p.setup) p.setup();
  if (!strcmp(argv[1], "work")) return cmd_work(p, argc - 3, argv + 3);
  if (!strcmp(argv[1], "replay")) return cmd_replay(p, argc - 3, argv + 3);
  if (!strcmp(argv[1], "shrink")) return cmd_shrink(p, argc - 3, argv + 3);
  return 3;
}
