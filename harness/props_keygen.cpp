// Generation of private keys. Files are only written as an unprivileged user inside a scratch directory.
#include <errno.h>
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>

#include "auth_util.h"
#include "hostile.h"

namespace fs = std::filesystem;

extern bool g_pem_memo;
extern uint64_t g_alloc_count, g_alloc_fail_at, g_alloc_fail_num, g_alloc_failed;
static const uid_t kNobody = 65534;
static bool g_can_switch = false;

// The scratch directory of a case; the process is inside it for the time of the case.
struct Scratch {
  std::string dir;
  std::string old;
  Scratch() {
    char b[4096];
    old = getcwd(b, sizeof b) ? b : "/";
    // Let the unprivileged user through the directories made for this run.
    std::string d = g_scratch_dir;
    while (d.find("/verif-") != std::string::npos) {
      chmod(d.c_str(), 0711);
      d = d.substr(0, d.rfind('/'));
    }
    std::string t = g_scratch_dir + "/keygen-XXXXXX";
    if (!mkdtemp(&t[0])) throw Fail{"no scratch directory"};
    dir = t;
    if (geteuid() == 0 && chown(dir.c_str(), kNobody, kNobody)) throw Fail{"no scratch directory"};
    chmod(dir.c_str(), 0755);
    if (chdir(dir.c_str())) throw Fail{"no scratch directory"};
  }
  ~Scratch() {
    if (chdir(old.c_str()) && chdir("/")) abort();
    std::error_code e;
    for (auto &x : fs::recursive_directory_iterator(dir, e))
      if (fs::is_directory(x.symlink_status())) chmod(x.path().c_str(), 0755);
    fs::remove_all(dir, e);
  }
};
struct AsNobody {
  bool on = false;
  AsNobody() {
    if (geteuid() == 0 && setegid(kNobody) == 0) {
      on = seteuid(kNobody) == 0;
      if (!on && setegid(0)) abort();
    }
    g_can_switch = on;
  }
  ~AsNobody() {
    if (on && (seteuid(0) || setegid(0))) abort();
  }
};
struct FileLimit {
  struct rlimit old;
  bool on;
  explicit FileLimit(long n) : on(n >= 0) {
    if (!on) return;
    signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old);
    struct rlimit r = old;
    r.rlim_cur = (rlim_t)n;
    setrlimit(RLIMIT_FSIZE, &r);
  }
  ~FileLimit() {
    if (on) setrlimit(RLIMIT_FSIZE, &old);
  }
};
typedef std::map<std::string, std::string> Tree;
static Tree snapshot(const std::string &dir) {
  Tree t;
  for (auto &x : fs::recursive_directory_iterator(dir)) {
    std::string p = x.path().string().substr(dir.size() + 1);
    if (x.is_symlink()) t[p] = "link " + fs::read_symlink(x.path()).string();
    else if (x.is_directory()) t[p] = "dir";
    else t[p] = "file " + read_file(x.path().string());
  }
  return t;
}
static std::string diff(const Tree &a, const Tree &b, const std::string &except) {
  std::string o;
  for (auto &x : a)
    if (x.first != except && !b.count(x.first)) o += " -" + x.first;
  for (auto &x : b) {
    if (x.first == except) continue;
    auto it = a.find(x.first);
    if (it == a.end()) o += " +" + x.first;
    else if (it->second != x.second) o += " *" + x.first;
  }
  return o;
}
static void check_key(Ctx &c, const std::string &pem, bool rsa) {
  BIO *b = BIO_new_mem_buf(pem.data(), (int)pem.size());
  EVP_PKEY *k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
  // Nothing may follow.
  char rest[4];
  int more = BIO_read(b, rest, sizeof rest);
  BIO_free(b);
  c.require(k, "the result is not a private key");
  std::string bad;
  if (more > 0) bad = "data follows the key";
  int id = EVP_PKEY_base_id(k);
  if (rsa && (id != EVP_PKEY_RSA || EVP_PKEY_bits(k) != 2048)) bad = strf("not a 2048 bits RSA key but type %d of %d bits", id, EVP_PKEY_bits(k));
  if (!rsa) {
    char g[80] = "";
    size_t n = 0;
    if (id == EVP_PKEY_EC) EVP_PKEY_get_group_name(k, g, sizeof g, &n);
    if (id != EVP_PKEY_EC || strcmp(g, "prime256v1")) bad = strf("not a P-256 key but type %d %s", id, g);
  }
  EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(k, nullptr);
  if (bad.empty() && (!x || EVP_PKEY_pairwise_check(x) != 1)) bad = "the public part does not belong to the private one";
  EVP_PKEY_CTX_free(x);
  EVP_PKEY_free(k);
  c.require(bad.empty(), "%s", bad.c_str());
}
static void check_use(Ctx &c, const Bytes &pem) {
  SignedVideoCodec codec = c.src.coin() ? SV_CODEC_H265 : SV_CODEC_H264;
  GenOpts o;
  o.max_body = 20;
  o.big = false;
  Stream in = stream_from_types(c.src, codec, "IPIPIPP", o), out;
  signed_video_t *sv = signed_video_create(codec);
  char *p = (char *)malloc(pem.size());
  memcpy(p, pem.data(), pem.size());
  int rc = signed_video_set_private_key_new(sv, p, pem.size());
  free(p);
  std::string bad;
  if (rc) bad = strf("the key is refused with %d", rc);
  for (size_t i = 0; i < in.size() && bad.empty(); i++) {
    rc = signed_video_add_nalu_for_signing(sv, in[i].d.data(), in[i].d.size());
    if (rc) bad = strf("signing with the key returned %d", rc);
    out.push_back(in[i]);
    for (;;) {
      size_t sz = 0;
      if (signed_video_get_sei(sv, nullptr, &sz, nullptr, nullptr, 0, nullptr) || !sz) break;
      Nalu n;
      n.t = 'S';
      n.d.resize(sz);
      signed_video_get_sei(sv, n.d.data(), &sz, nullptr, nullptr, 0, nullptr);
      out.push_back(n);
    }
  }
  signed_video_free(sv);
  c.require(bad.empty(), "%s", bad.c_str());
  c.require(num_seis(out) == 2, "%d SEIs signed with the key", num_seis(out));
  Validation v = validate(out, codec);
  c.require(v.final && v.final->acc_auth == SV_AUTH_RESULT_OK, "the stream signed with the key is %s", v.final ? auth_name(v.final->acc_auth) : "without a report");
}

PROPERTY(P29, "A key is generated by one of the three functions, in memory or to a destination that exists under any name, is missing, not writable, already holds a key or other things, or becomes full while writing; non-trivial when a key was written to disk or a destination failed.") {
  g_pem_memo = false;
  Src &s = c.src;
  Scratch sc;
  bool rsa = s.chance(1, 14);
  int fn = (int)s.draw(2);
  std::string file = rsa ? "private_rsa_key.pem" : "private_ecdsa_key.pem";
  int kind = s.weighted({3, 3, 2, 2, 2, 1, 1, 1, 1, 1, 5, 2, 3});
  static const std::vector<std::string> names = {"a", "key dir", "%s%n", "\xc3\xa5\xc3\xa4", "..x", "-rf", "k.pem", "\\", "'\"", "private_ecdsa_key.pem", "a\nb"};
  std::string dir = s.pick(names);
  if (s.chance(1, 4)) dir = std::string(1 + s.draw(254), 'd');
  if (s.chance(1, 3)) dir += "/" + s.pick(names);
  std::string arg = dir, what, rel;
  bool ok = true, has_dir = true, abs = s.coin();
  long limit = -1;
  AsNobody *as = new AsNobody;
  std::unique_ptr<AsNobody> asp(as);
  bool priv = as->on;
  auto mk = [&](const std::string &d) {
    fs::create_directories(d);
  };
  auto put = [&](const std::string &p, const std::string &content) {
    FILE *f = fopen(p.c_str(), "wb");
    if (!f || fwrite(content.data(), 1, content.size(), f) != content.size()) throw Fail{"cannot prepare " + p};
    fclose(f);
  };
  std::string slash = std::string(s.chance(1, 3) ? 1 + s.draw(3) : 0, '/');
  rel = dir + "/" + file;
  mk("other");
  put("other/" + file, "bystander");
  put(rsa ? "private_ecdsa_key.pem.bak" : "private_rsa_key.pem.bak", "bystander");
  switch (kind) {
    case 0: mk(dir); what = "directory"; break;
    case 1: mk(dir); slash = std::string(1 + s.draw(3), '/'); what = "directory with separators"; break;
    case 2: {
      // The current directory.
      static const std::vector<std::string> here = {".", "./", "", "./.", "other/.."};
      arg = s.pick(here);
      slash = "";
      abs = false;
      rel = file;
      what = "current directory '" + arg + "'";
      break;
    }
    case 3:
      mk(dir);
      put(dir + "/" + file, std::string(s.size_biased(300, 6000), 'x'));
      what = "overwrites";
      break;
    case 4: what = "missing directory"; ok = false; break;
    case 5: {
      if (dir.find('/') != std::string::npos) dir = dir.substr(0, dir.find('/'));
      put(dir, "a file");
      arg = dir;
      rel = "";
      what = "not a directory";
      ok = false;
      break;
    }
    case 6:
      mk(dir);
      what = "directory without write permission";
      chmod(dir.c_str(), 0555);
      ok = !priv && geteuid() == 0;
      break;
    case 7:
      mk(dir);
      put(dir + "/" + file, "locked");
      chmod((dir + "/" + file).c_str(), 0444);
      what = "file without write permission";
      ok = !priv && geteuid() == 0;
      break;
    case 8:
      mk(dir + "/" + file);
      what = "directory in place of the file";
      ok = false;
      break;
    case 9:
      mk(dir);
      if (symlink("/dev/full", (dir + "/" + file).c_str())) throw Fail{"symlink"};
      what = "full device";
      ok = false;
      break;
    case 10:
      mk(dir);
      limit = (long)s.draw(rsa ? 2200 : 320);
      what = strf("limit of %ld bytes", limit);
      if (s.chance(1, 3)) put(dir + "/" + file, std::string(s.draw(200), 'x'));
      break;
    case 11:
      mk(dir);
      what = "bad algorithm";
      fn = 2;
      ok = false;
      break;
    default: has_dir = false; what = "in memory"; break;
  }
  arg += slash;
  if (abs) arg = sc.dir + "/" + arg;
  bool want_key = !has_dir || !s.chance(1, 3), want_size = want_key || s.coin();
  bool bad_args = false;
  if (!has_dir && s.chance(1, 8)) {
    bad_args = true;
    want_key = s.coin();
    want_size = !want_key && s.coin();
    ok = false;
  }
  c.note("%s %s: %s%s%s", rsa ? "RSA" : "ECDSA", fn == 1 ? "(algo)" : "", what.c_str(), abs ? " absolute" : "", has_dir ? (want_key ? " and in memory" : "") : "");
  // Memory may run out in the library, when nothing else is wrong.
  uint64_t oom = ok && limit < 0 && kind != 6 && kind != 7 && s.chance(1, 8) ? 1 + s.draw(2) : 0;
  if (oom) c.note("allocation %d fails", (int)oom);
  Tree before = snapshot(sc.dir);
  char *key = (char *)0x1;
  size_t size = 4711;
  int rc;
  {
    // Exact size on the heap.
    char *d = strdup(arg.c_str());
    FileLimit fl(limit);
    char **pk = want_key ? &key : nullptr;
    size_t *ps = want_size ? &size : nullptr;
    const char *pd = has_dir ? d : nullptr;
    sign_algo_t algo = fn == 2 ? (sign_algo_t)(s.coin() ? 2 + s.draw(9) : -1) : rsa ? SIGN_ALGO_RSA : SIGN_ALGO_ECDSA;
    g_alloc_count = g_alloc_failed = g_alloc_fail_num = 0;
    g_alloc_fail_at = oom;
    if (fn == 0) rc = rsa ? signed_video_generate_rsa_private_key(pd, pk, ps) : signed_video_generate_ecdsa_private_key(pd, pk, ps);
    else rc = signed_video_generate_private_key(algo, pd, pk, ps);
    g_alloc_fail_at = 0;
    free(d);
  }
  Bytes mem;
  bool got = want_key && want_size && key != (char *)0x1;
  if (got && key && rc == SV_OK) mem.assign(key, key + size);
  if (got) free(key);
  asp.reset();
  Tree after = snapshot(sc.dir);
  if (g_alloc_failed) {
    // The library says so, and a key that is on disk all the same is complete.
    c.require(rc != SV_OK, "%s: generation succeeds without memory", what.c_str());
    if (got) c.require(!key, "a key is returned though the generation failed");
    std::string touched = diff(before, after, has_dir ? rel : "");
    c.require(touched.empty(), "%s: files changed:%s", what.c_str(), touched.c_str());
    if (has_dir && after.count(rel) && (!before.count(rel) || before[rel] != after[rel])) check_key(c, after[rel].substr(5), rsa);
    c.nontrivial();
    c.label("no memory");
    return;
  }
  if (limit >= 0) {
    // The size of the key decides.
    if (rc == SV_OK) ok = after.count(rel) && (long)after[rel].size() - 5 <= limit;
    else ok = false, c.require(limit < (rsa ? 1730 : 242), "refused with %d although %ld bytes can be written", rc, limit);
  }
  if (ok) c.require(rc == SV_OK, "%s: generation returned %d", what.c_str(), rc);
  else c.require(rc == (bad_args ? SV_INVALID_PARAMETER : fn == 2 ? SV_NOT_SUPPORTED : SV_EXTERNAL_ERROR), "%s: generation returned %d", what.c_str(), rc);
  // An overwritten file may be gone after a failure.
  std::string touched = diff(before, after, has_dir && (ok || limit >= 0 || kind == 9) ? rel : "");
  c.require(touched.empty(), "%s: files changed:%s", what.c_str(), touched.c_str());
  if (!ok) {
    if (has_dir && kind != 7 && kind != 8 && !rel.empty()) c.require(!after.count(rel) || (kind != 10 && kind != 9 && before.count(rel)), "%s: an incomplete key is left", what.c_str());
    if (got) c.require(!key, "a key is returned though the generation failed");
    c.nontrivial();
    c.label(what.substr(0, what.find(" of ")) + " fails");
    return;
  }
  std::string pem(mem.begin(), mem.end());
  if (has_dir) {
    c.require(after.count(rel) && after[rel].substr(0, 5) == "file ", "%s: no file %s", what.c_str(), rel.c_str());
    std::string disk = after[rel].substr(5);
    check_key(c, disk, rsa);
    if (got) c.require(disk == pem, "the key in memory is not the one on disk");
    if (!got) pem = disk;
    c.nontrivial();
  }
  if (!has_dir || got) check_key(c, pem, rsa);
  if (!rsa || s.coin()) {
    // Another one is different.
    char *k2 = nullptr;
    size_t n2 = 0;
    rc = rsa ? signed_video_generate_rsa_private_key(nullptr, &k2, &n2) : signed_video_generate_ecdsa_private_key(nullptr, &k2, &n2);
    std::string p2 = k2 ? std::string(k2, n2) : "";
    free(k2);
    c.require(rc == SV_OK && !p2.empty() && p2 != pem, "a second key %s", p2 == pem ? "is the same" : "is not generated");
    check_use(c, Bytes(pem.begin(), pem.end()));
  }
  c.label(what.substr(0, what.find(" of ")));
}
