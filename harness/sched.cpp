// See sched.h. This file is compiled without the thread sanitizer: handing over from thread to thread must not look like
// synchronisation. What the interposed primitives do guarantee is told to the sanitizer explicitly.
#include "sched.h"

#include <errno.h>
#include <linux/futex.h>
#include <openssl/evp.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <unistd.h>

static const uint8_t *g_plan;
static size_t g_plan_n, g_plan_at;
void sched_sign_plan(const uint8_t *plan, size_t n) {
  g_plan = plan;
  g_plan_n = n;
  __atomic_store_n(&g_plan_at, 0, __ATOMIC_RELAXED);
}
size_t sched_sign_calls() { return __atomic_load_n(&g_plan_at, __ATOMIC_RELAXED); }
int g_thread_quota = -1;
uint64_t g_fake_sig = 0;
Bytes fake_signature(size_t i, size_t max) {
  uint64_t h = mix64(g_fake_sig + i * 977);
  size_t n = max - (h % 3 == 0 ? 0 : (h >> 8) % (max < 16 ? max : 16));
  Bytes b(n);
  for (size_t k = 0; k < n; k++) b[k] = (uint8_t)(mix64(h + k) % 4 ? mix64(h + k + 1000) % 4 : mix64(h + k + 2000) % 256);
  // The end matters: padding follows.
  if (h & (1 << 20)) b[n - 1] = 0;
  if (n > 1 && (h & (1 << 21))) b[n - 2] = 0;
  return b;
}

extern "C" {
int __real_EVP_PKEY_sign(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t);
int __wrap_EVP_PKEY_sign(EVP_PKEY_CTX *ctx, unsigned char *sig, size_t *len, const unsigned char *tbs, size_t n) {
  if (!sig) return __real_EVP_PKEY_sign(ctx, sig, len, tbs, n);
  sched_yield_point();
  sched_hold_point();
  size_t k = __atomic_fetch_add(&g_plan_at, 1, __ATOMIC_RELAXED);
  if (g_fake_sig) {
    Bytes b = fake_signature(k, *len);
    memcpy(sig, b.data(), b.size());
    *len = b.size();
    return 1;
  }
  int r = k < g_plan_n && g_plan[k] ? 0 : __real_EVP_PKEY_sign(ctx, sig, len, tbs, n);
  sched_yield_point();
  return r;
}
}

#if !defined(HARNESS_THREADS)
void sched_begin(Src *, int, bool) {}
void sched_hold(bool) {}
void sched_hold_point() {}
void sched_end() {}
bool sched_idle() { return true; }
void sched_yield_point() {}
int sched_spawn(void (*fn)(void *), void *arg) {
  fn(arg);
  return 0;
}
void sched_join(int) {}
int sched_self() { return 0; }
uint64_t sched_switches() { return 0; }
bool sched_is_real() { return false; }

#elif defined(SCHED_REAL)
// The plugin uses primitives that are not modelled here: real threads.
#include <atomic>
static pthread_t g_th[256];
static int g_nth = 1;
static __thread int g_me;
static std::atomic<uint64_t> g_rnd{1};
struct Start {
  void (*fn)(void *);
  void *arg;
  int id;
};
static void *start(void *p) {
  Start s = *(Start *)p;
  delete (Start *)p;
  g_me = s.id;
  s.fn(s.arg);
  return nullptr;
}
void sched_begin(Src *, int, bool) {}
void sched_hold(bool) {}
void sched_hold_point() {}
void sched_end() { g_nth = 1; }
bool sched_idle() {
  usleep(1000);
  return false;
}
void sched_yield_point() {
  uint64_t r = mix64(g_rnd.fetch_add(1, std::memory_order_relaxed));
  if (r % 8 == 0) usleep(r >> 32 & 127);
}
int sched_spawn(void (*fn)(void *), void *arg) {
  int id = g_nth++;
  pthread_create(&g_th[id], nullptr, start, new Start{fn, arg, id});
  return id;
}
void sched_join(int id) { pthread_join(g_th[id], nullptr); }
int sched_self() { return g_me; }
uint64_t sched_switches() { return 100; }
bool sched_is_real() { return true; }

#else
extern "C" {
void __tsan_acquire(void *) __attribute__((weak));
void __tsan_release(void *) __attribute__((weak));
}
static inline void acq(void *p) {
  if (__tsan_acquire) __tsan_acquire(p);
}
static inline void rel(void *p) {
  if (__tsan_release) __tsan_release(p);
}

enum St { RUN, LOCK, COND, JOIN, IDLE, HOLD, DONE };
struct Th {
  volatile int turn;
  St st;
  void *m, *cond;
  bool timed, timed_out, used;
  int join;
  pthread_t pt;
  void *(*fn)(void *);
  void *arg, *ret;
};
static const int kMax = 256, kMutex = 8192;
static Th g_t[kMax];
static int g_n = 1, g_cur = 0;
static __thread int g_me = 0;
static Src *g_src;
static int g_stay = 40;
static bool g_spurious = true, g_hold = false;
static uint64_t g_switches;
static int g_idled = -1;
struct Mx {
  void *p;
  int owner;  // -1: free
};
static Mx g_mx[kMutex];
static int g_nmx;

static void die(const char *what) {
  char b[1200];
  int n = snprintf(b, sizeof b, "Assertion failed in schedule: %s (thread %d);", what, g_me);
  static const char *nm[] = {"running", "waits for a mutex", "waits for a condition", "joins", "idle", "held", "done"};
  for (int i = 0; i < g_n && n < 1100; i++)
    if (g_t[i].st != DONE) n += snprintf(b + n, sizeof b - n, " thread %d %s;", i, nm[g_t[i].st]);
  n += snprintf(b + n, sizeof b - n, "\n");
  ssize_t r = write(2, b, n);
  (void)r;
  _exit(86);
}
static uint64_t choose(uint64_t n) {
  Src *s = g_src;
  if (!s || n < 2) return 0;
  uint64_t v;
  if (s->replay) {
    v = s->pos < s->in->size() ? s->in->data()[s->pos] : 0;
    s->pos++;
    if (v >= n) v = n - 1;
  } else {
    s->s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s->s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    v = (uint64_t)(((unsigned __int128)(z ^ (z >> 31)) * n) >> 64);
  }
  if (s->log && s->log->n < LOG_MAX) {
    s->log->choice[s->log->n] = v;
    s->log->n = s->log->n + 1;
  }
  return v;
}
static void fwait(volatile int *p) {
  while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) syscall(SYS_futex, p, FUTEX_WAIT, 0, nullptr, nullptr, 0);
  __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
static void fwake(volatile int *p) {
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, p, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
static Mx *mx(void *p) {
  for (int i = 0; i < g_nmx; i++)
    if (g_mx[i].p == p) return &g_mx[i];
  if (g_nmx == kMutex) {
    int k = 0;
    for (int i = 0; i < g_nmx; i++)
      if (g_mx[i].owner >= 0) g_mx[k++] = g_mx[i];
    g_nmx = k;
    if (g_nmx == kMutex) die("too many mutexes");
  }
  g_mx[g_nmx].p = p;
  g_mx[g_nmx].owner = -1;
  return &g_mx[g_nmx++];
}
static bool can_run(int i) {
  Th &t = g_t[i];
  switch (t.st) {
    case RUN: return true;
    case LOCK: return mx(t.m)->owner < 0;
    case JOIN: return g_t[t.join].st == DONE;
    default: return false;
  }
}
// Lets another thread run, or goes on; returns when it is this thread's turn again.
static void reschedule() {
  for (;;) {
    int cand[kMax], n = 0, waiters[kMax], nw = 0, timed = -1, idle = -1, held = -1;
    for (int i = 0; i < g_n; i++) {
      if (can_run(i)) cand[n++] = i;
      if (g_t[i].st == COND) {
        waiters[nw++] = i;
        if (g_t[i].timed && timed < 0) timed = i;
      }
      if (g_t[i].st == HOLD) held = i;
      // In turn.
      if (g_t[i].st == IDLE && (idle < 0 || (idle <= g_idled && i > g_idled))) idle = i;
    }
    int next = -1;
    if (n == 0) {
      if (held >= 0 && idle < 0 && (timed < 0 || choose(2))) {
        g_t[held].st = RUN;
        continue;
      }
      if (timed >= 0) {
        g_t[timed].timed_out = true;
        g_t[timed].st = LOCK;
        continue;
      }
      if (idle < 0) die("deadlock");
      g_t[idle].st = RUN;
      g_idled = idle;
      next = idle;
    } else {
      bool me = can_run(g_me);
      if (n == 1 && (nw == 0 || (!g_spurious && timed < 0)))
        next = cand[0];
      else {
        uint64_t v = choose(64);
        if (v == 63 && nw && g_spurious) {
          Th &t = g_t[waiters[choose(nw)]];  // spurious wakeup
          t.st = LOCK;
          continue;
        }
        if (v == 62 && timed >= 0) {
          g_t[timed].timed_out = true;
          g_t[timed].st = LOCK;
          continue;
        }
        if (me && (int)v < g_stay)
          next = g_me;
        else
          next = cand[v % n];
      }
    }
    Th &t = g_t[next];
    if (t.st == LOCK) {
      mx(t.m)->owner = next;
      t.st = RUN;
    } else if (t.st == JOIN)
      t.st = RUN;
    if (next == g_me) return;
    g_switches++;
    g_cur = next;
    bool done = g_t[g_me].st == DONE;
    fwake(&t.turn);
    if (done) return;
    fwait(&g_t[g_me].turn);
    return;
  }
}
void sched_yield_point() {
  if (g_n > 1) reschedule();
}
bool sched_idle() {
  bool alone = true;
  for (int i = 0; i < g_n; i++)
    if (i != g_me && g_t[i].st != DONE) alone = false;
  if (alone) return true;
  g_t[g_me].st = IDLE;
  reschedule();
  return true;
}
int sched_self() { return g_me; }
uint64_t sched_switches() { return g_switches; }
bool sched_is_real() { return false; }
// While on, signing does not proceed unless nobody else can.
void sched_hold(bool on) {
  g_hold = on;
  for (int i = 0; !on && i < g_n; i++)
    if (g_t[i].st == HOLD) g_t[i].st = RUN;
}
void sched_hold_point() {
  if (!g_hold) return;
  g_t[g_me].st = HOLD;
  reschedule();
}
void sched_begin(Src *s, int stay, bool spurious) {
  g_spurious = spurious;
  g_hold = false;
  g_src = s;
  g_stay = stay;
  g_idled = -1;
  g_switches = 0;
  g_thread_quota = -1;
}
void sched_end() {
  g_src = nullptr;
  g_thread_quota = -1;
}

static void *tramp(void *p) {
  Th *t = (Th *)p;
  g_me = (int)(t - g_t);
  fwait(&t->turn);
  t->ret = t->fn(t->arg);
  t->st = DONE;
  reschedule();
  return nullptr;
}
static Th *spawn(void *(*fn)(void *), void *arg) {
  int id = -1;
  for (int i = 1; i < g_n; i++)
    if (!g_t[i].used) {
      id = i;
      break;
    }
  if (id < 0) {
    if (g_n == kMax) die("too many threads");
    id = g_n;
  }
  Th &t = g_t[id];
  t.turn = 0;
  t.fn = fn;
  t.arg = arg;
  t.st = DONE;  // not yet
  t.used = true;
  t.timed = t.timed_out = false;
  if (pthread_create(&t.pt, nullptr, tramp, &t)) die("no more threads");
  t.st = RUN;
  if (id == g_n) g_n++;
  sched_yield_point();
  return &t;
}
static void *join(Th *t) {
  if (!t->used) die("join of a thread already joined");
  g_t[g_me].st = JOIN;
  g_t[g_me].join = (int)(t - g_t);
  reschedule();
  pthread_join(t->pt, nullptr);
  t->used = false;
  return t->ret;
}
struct Start {
  void (*fn)(void *);
  void *arg;
};
static void *start(void *p) {
  Start s = *(Start *)p;
  s.fn(s.arg);
  delete (Start *)p;
  return nullptr;
}
int sched_spawn(void (*fn)(void *), void *arg) { return (int)(spawn(start, new Start{fn, arg}) - g_t); }
void sched_join(int id) { join(&g_t[id]); }

extern "C" {
void g_mutex_init(void *m) {
  Mx *x = mx(m);
  x->owner = -1;
}
void g_mutex_clear(void *m) {
  Mx *x = mx(m);
  if (x->owner >= 0) die("a locked mutex is cleared");
  *x = g_mx[--g_nmx];
}
void g_mutex_lock(void *m) {
  Th &t = g_t[g_me];
  if (mx(m)->owner == g_me) die("a mutex is locked twice");
  t.st = LOCK;
  t.m = m;
  reschedule();
  acq(m);
}
int g_mutex_trylock(void *m) {
  sched_yield_point();
  Mx *x = mx(m);
  if (x->owner >= 0) return 0;
  x->owner = g_me;
  acq(m);
  return 1;
}
void g_mutex_unlock(void *m) {
  if (mx(m)->owner != g_me) die("a mutex is unlocked that is not held");
  rel(m);
  mx(m)->owner = -1;
  sched_yield_point();
}
void g_cond_init(void *) {}
void g_cond_clear(void *c) {
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == COND && g_t[i].cond == c) die("a condition is cleared that a thread waits for");
}
static bool cond_wait(void *c, void *m, bool timed) {
  if (mx(m)->owner != g_me) die("waiting for a condition without holding the mutex");
  Th &t = g_t[g_me];
  rel(m);
  mx(m)->owner = -1;
  t.st = COND;
  t.cond = c;
  t.m = m;
  t.timed = timed;
  t.timed_out = false;
  reschedule();
  t.timed = false;
  acq(m);
  return !t.timed_out;
}
void g_cond_wait(void *c, void *m) { cond_wait(c, m, false); }
int g_cond_wait_until(void *c, void *m, int64_t) { return cond_wait(c, m, true); }
void g_cond_signal(void *c) {
  int w[kMax], n = 0;
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == COND && g_t[i].cond == c) w[n++] = i;
  if (n) g_t[w[choose(n)]].st = LOCK;
}
void g_cond_broadcast(void *c) {
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == COND && g_t[i].cond == c) g_t[i].st = LOCK;
}
void *g_thread_try_new(const char *, void *(*fn)(void *), void *arg, void **err) {
  if (g_thread_quota == 0) return nullptr;
  if (g_thread_quota > 0) g_thread_quota--;
  return spawn(fn, arg);
}
void *g_thread_new(const char *n, void *(*fn)(void *), void *arg) { return spawn(fn, arg); }
void *g_thread_join(void *t) { return join((Th *)t); }
void g_thread_unref(void *) {}
void g_thread_yield(void) { sched_yield_point(); }
void g_usleep(unsigned long) { sched_yield_point(); }
}
#endif
