// OpenSSL's own allocations are served from a plain size-class arena, which makes PEM decoding an
// order of magnitude faster than under the sanitizer's allocator. Allocations that the library under
// test makes through OPENSSL_malloc stay with the sanitizer.
#include <openssl/bio.h>
#include <openssl/crypto.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <map>
#include <unordered_set>
#include <mutex>
#include <string>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

static char *g_base, *g_cur, *g_end;
static const size_t kArena = 1ull << 34;
struct FreeNode {
  FreeNode *next;
};
static FreeNode *g_free[64];
static char g_lock;
// Not a pthread lock: that would order threads in the eyes of the thread sanitizer.
static void lock() {
  while (__atomic_test_and_set(&g_lock, __ATOMIC_ACQUIRE)) {
  }
}
static void unlock() { __atomic_clear(&g_lock, __ATOMIC_RELEASE); }
static size_t g_live;
size_t arena_live() { return g_live; }
// Off where leaked key objects have to be seen.
bool g_pem_memo = true;
uint8_t g_malloc_fill = 0xbe;
X509 *g_vendor_root;

static inline int cls(size_t n) {
  int c = 5;
  while (((size_t)1 << c) < n) c++;
  return c;
}
static bool mine(void *p) { return (char *)p >= g_base && (char *)p < g_end; }
static void *arena_alloc(size_t n) {
  int c = cls(n + 16);
  lock();
  char *p;
  if (g_free[c]) {
    p = (char *)g_free[c];
    g_free[c] = g_free[c]->next;
  } else {
    p = g_cur;
    g_cur += (size_t)1 << c;
    if (g_cur > g_end) abort();
  }
  g_live += (size_t)1 << c;
  unlock();
  *(uint64_t *)p = c;
  *(uint64_t *)(p + 8) = n;
  return p + 16;
}
static void arena_free(void *q) {
  char *p = (char *)q - 16;
  int c = (int)*(uint64_t *)p;
  lock();
  ((FreeNode *)p)->next = g_free[c];
  g_free[c] = (FreeNode *)p;
  g_live -= (size_t)1 << c;
  unlock();
}
static bool from_lib(const char *file) { return file && strstr(file, "/lib/") != nullptr; }

static void *m_malloc(size_t n, const char *file, int) {
  if (!n) return nullptr;
  if (from_lib(file)) return malloc(n);
  return arena_alloc(n);
}
static void m_free(void *p, const char *, int) {
  if (!p) return;
  if (mine(p))
    arena_free(p);
  else
    free(p);
}
static void *m_realloc(void *p, size_t n, const char *file, int line) {
  if (!p) return m_malloc(n, file, line);
  if (!mine(p)) return realloc(p, n);
  if (!n) {
    arena_free(p);
    return nullptr;
  }
  size_t old = *(uint64_t *)((char *)p - 8);
  int c = (int)*(uint64_t *)((char *)p - 16);
  if (n + 16 <= ((size_t)1 << c)) {
    *(uint64_t *)((char *)p - 8) = n;
    return p;
  }
  void *q = arena_alloc(n);
  memcpy(q, p, old < n ? old : n);
  arena_free(p);
  return q;
}
// The library under test is compiled with free/realloc renamed to these: it may legitimately free
// memory that OpenSSL allocated.
// Live allocations of the library, if asked for.
static bool g_track;
static std::unordered_set<void *> *g_lib;
static void track(void *p) {
  if (!g_track || !p) return;
  lock();
  g_lib->insert(p);
  unlock();
}
static void untrack(void *p) {
  if (!g_track || !p) return;
  lock();
  g_lib->erase(p);
  unlock();
}
void lib_track(bool on) {
  if (!g_lib) g_lib = new std::unordered_set<void *>;
  g_lib->clear();
  g_track = on;
}
size_t lib_live() { return g_lib ? g_lib->size() : 0; }
// Allocations of the library number |g_alloc_fail_at| and up to |g_alloc_fail_num| more fail; counted from 1.
uint64_t g_alloc_count, g_alloc_fail_at, g_alloc_fail_num, g_alloc_failed;
static bool refuse() {
  if (!g_alloc_fail_at) {
    g_alloc_count++;
    return false;
  }
  uint64_t k = ++g_alloc_count;
  if (k < g_alloc_fail_at || k > g_alloc_fail_at + g_alloc_fail_num) return false;
  g_alloc_failed++;
  return true;
}
extern "C" void *verif_malloc(size_t n) {
  if (refuse()) return nullptr;
  void *p = malloc(n);
  if (p) memset(p, g_malloc_fill, n);
  track(p);
  return p;
}
extern "C" void *verif_calloc(size_t a, size_t b) {
  if (refuse()) return nullptr;
  void *p = calloc(a, b);
  track(p);
  return p;
}
extern "C" void verif_free(void *p) {
  untrack(p);
  m_free(p, nullptr, 0);
}
extern "C" void *verif_realloc(void *p, size_t n) {
  if (refuse()) return nullptr;
  untrack(p);
  void *q;
  if (p && mine(p)) {
    size_t old = *(uint64_t *)((char *)p - 8);
    q = malloc(n);
    memcpy(q, p, old < n ? old : n);
    arena_free(p);
  } else
    q = realloc(p, n);
  track(q);
  return q;
}
void install_openssl_allocator() {
#ifdef HARNESS_VARIANT_tsan
  return;  // memory changing hands has to be seen by the sanitizer
#endif
  g_base = (char *)mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_base == MAP_FAILED) abort();
  g_cur = g_base;
  g_end = g_base + kArena;
  CRYPTO_set_mem_functions(m_malloc, m_realloc, m_free);
}

// Successful PEM decodes are memoised by content: OpenSSL 3 takes around a millisecond per decode,
// which would dominate every case.
typedef EVP_PKEY *(*PemFn)(BIO *, EVP_PKEY **, pem_password_cb *, void *);
static EVP_PKEY *cached(PemFn real, std::map<std::string, EVP_PKEY *> &m, BIO *bp, EVP_PKEY **x, pem_password_cb *cb, void *u) {
  static std::mutex mu;
  char *p = nullptr;
  long n = bp && BIO_method_type(bp) == BIO_TYPE_MEM ? BIO_get_mem_data(bp, &p) : 0;
  if (!g_pem_memo || x || n <= 0 || n > 20000) return real(bp, x, cb, u);
  std::string k(p, n);
  std::lock_guard<std::mutex> g(mu);
  auto it = m.find(k);
  if (it != m.end()) {
    EVP_PKEY_up_ref(it->second);
    return it->second;
  }
  EVP_PKEY *r = real(bp, x, cb, u);
  if (r && m.size() < 64) {
    EVP_PKEY_up_ref(r);
    m[k] = r;
  }
  return r;
}
extern "C" {
EVP_PKEY *__real_PEM_read_bio_PUBKEY(BIO *, EVP_PKEY **, pem_password_cb *, void *);
EVP_PKEY *__real_PEM_read_bio_PrivateKey(BIO *, EVP_PKEY **, pem_password_cb *, void *);
EVP_PKEY *__wrap_PEM_read_bio_PUBKEY(BIO *b, EVP_PKEY **x, pem_password_cb *cb, void *u) {
  static std::map<std::string, EVP_PKEY *> *m = new std::map<std::string, EVP_PKEY *>;
  return cached(__real_PEM_read_bio_PUBKEY, *m, b, x, cb, u);
}
// The vendor's root certificate is replaced by one whose key is known, if there is one.
X509 *__real_PEM_read_bio_X509(BIO *, X509 **, pem_password_cb *, void *);
X509 *__wrap_PEM_read_bio_X509(BIO *b, X509 **x, pem_password_cb *cb, void *u) {
  X509 *r = __real_PEM_read_bio_X509(b, x, cb, u);
  if (!r || !g_vendor_root || x) return r;
  unsigned char md[64];
  unsigned n = 0;
  // SHA-256 of the root certificate of Axis Edge Vault CA ECC.
  static const unsigned char kRoot[32] = {0xc2, 0xa6, 0x77, 0x2c, 0x54, 0xce, 0xa7, 0x96, 0x5d, 0x88, 0x2c, 0x80, 0x24, 0x3c, 0x6a, 0x1d, 0xd2, 0x8d, 0x8a, 0x6e, 0xbd, 0x0b, 0xee, 0x6f, 0xa8, 0x35, 0x7b, 0xec, 0x81, 0x4d, 0x77, 0xa6};
  if (X509_digest(r, EVP_sha256(), md, &n) != 1 || n != 32 || memcmp(md, kRoot, 32)) return r;
  X509_free(r);
  X509_up_ref(g_vendor_root);
  return g_vendor_root;
}
EVP_PKEY *__wrap_PEM_read_bio_PrivateKey(BIO *b, EVP_PKEY **x, pem_password_cb *cb, void *u) {
  static std::map<std::string, EVP_PKEY *> *m = new std::map<std::string, EVP_PKEY *>;
  return cached(__real_PEM_read_bio_PrivateKey, *m, b, x, cb, u);
}
}
