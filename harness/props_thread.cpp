// Signing from other threads: the threaded signing plugin under chosen schedules.
#include <openssl/err.h>

#include <memory>

extern "C" {
#include "signed_video_openssl.h"
#include "signed_video_signing_plugin.h"
}
#include "auth_util.h"
#include "refmodel.h"
#include "sched.h"

extern "C" int sv_signing_plugin_init_new(void *) __attribute__((weak));
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
size_t arena_live();
extern bool g_pem_memo;
void lib_track(bool on);
size_t lib_live();
#ifdef HARNESS_VARIANT_tsan
static const bool kTrack = false;
#else
static const bool kTrack = true;
#endif

namespace {
struct Op {
  int kind;  // 0 add the next NAL Unit, 1 pull with get_sei, 2 pull with get_nalu_to_prepend, 3 let the others work
};
struct Sess {
  int id = 0;
  SignCfg cfg;
  Stream in;
  std::vector<Op> ops;
  bool lazy = false, cut = false, hold = false;  // cut: freed before everything is delivered
  size_t cut_at = 0;
  // Expected.
  std::vector<RefSei> ref;
  std::vector<int> ref_at;  // NAL Unit closing the GOP
  // Run by a user thread.
  std::unique_ptr<Signer> s;
  size_t at = 0, next = 0;
  struct Got {
    size_t before;  // number of NAL Units added before
    bool prepend;
    Bytes sei;
  };
  std::vector<Got> got;
  int errors = 0;
  bool drained = false;
  std::string err;
  bool done() const { return at >= (cut ? cut_at : ops.size()) || !err.empty(); }
};
struct User {
  std::vector<Sess *> ss;
  std::vector<uint8_t> order;
  bool free_in_thread = true, free_cut = true;
};

}  // namespace

static void pull_all(Sess &t, bool prepend) {
  for (int k = 0; k < 200; k++) {
    Bytes b;
    const Bytes *peek = t.next < t.in.size() ? &t.in[t.next].d : nullptr;
    auto rc = prepend ? t.s->pull_prepend(&b) : t.s->pull(peek, &b, nullptr, nullptr);
    if (rc != SV_OK) {
      t.errors++;
      if (t.errors > 200) {
        t.err = strf("pulling fails again and again: %d", rc);
        return;
      }
      continue;
    }
    if (b.empty()) return;
    t.got.push_back({t.next, prepend, b});
  }
  t.err = "SEIs without end";
}
static void step(Sess &t) {
  try {
    if (!t.s) {
      t.s.reset(new Signer(t.cfg, nullptr));
      return;
    }
    Op o = t.ops[t.at++];
    if (o.kind == 0) {
      const Nalu &n = t.in[t.next];
      int64_t ts = n.ts;
      auto rc = t.s->add(n.d, n.has_ts ? &ts : nullptr);
      if (rc != SV_OK) t.err = strf("adding NAL Unit %zu failed: %d", t.next, rc);
      t.next++;
    } else if (o.kind == 3)
      sched_idle();
    else
      pull_all(t, o.kind == 2);
  } catch (const Fail &f) {
    t.err = f.msg;
  }
}
// Pulls until everything is delivered, or until nothing more comes although nobody has anything left to do.
static void drain(User &u) {
  int quiet = 0;
  for (int k = 0; k < 20000 && quiet < 12; k++) {
    bool sure = sched_idle(), progress = false, left = false;
    for (auto *t : u.ss) {
      if (t->cut || !t->err.empty() || !t->s || t->drained) continue;
      size_t had = t->got.size() + t->errors;
      pull_all(*t, t->lazy);
      progress |= t->got.size() + t->errors > had;
      if (t->got.size() + t->errors >= t->ref.size()) t->drained = true;
      else left = true;
      if (t->drained && u.free_in_thread) t->s.reset();
    }
    if (!left) break;
    quiet = progress || !sure ? 0 : quiet + 1;
  }
}
static void user_main(void *p) {
  User &u = *(User *)p;
  size_t k = 0;
  for (;;) {
    std::vector<Sess *> left;
    for (auto *s : u.ss)
      if (!s->done()) left.push_back(s);
    if (left.empty()) break;
    Sess &s = *left[(k < u.order.size() ? u.order[k] : k) % left.size()];
    k++;
    if (s.hold) sched_hold(true);
    step(s);
    if (s.done() && (s.cut || !s.err.empty()) && u.free_cut) {
      if (s.hold) sched_idle();  // now the signing has begun
      s.s.reset();
      if (s.hold) {
        sched_hold(false);
        sched_idle();
      }
    }
  }
  drain(u);
  if (u.free_in_thread)
    for (auto *s : u.ss) s->s.reset();
  ERR_clear_error();
}

PROPERTY(P24, "One to five sessions signing through the threaded plugin - a thread each or one central thread - are run by one to four user threads under a chosen schedule, with late and irregular pulls, sessions freed at any point, failing signing operations and failing thread creation; every SEI is compared with the reference; non-trivial when at least two SEIs were delivered and threads were switched at least 20 times.") {
#if defined(SCHED_REAL) && defined(HARNESS_VARIANT_tsan)
  // The sanitizer does not see the synchronisation inside glib; races are only looked for with modelled primitives.
  c.label("not applicable");
  return;
#endif
  g_pem_memo = true;
  int phases = c.src.chance(1, 5) ? 2 : 1;
  int stay = (int)c.src.pick(std::vector<uint64_t>{64, 58, 48, 32, 8});
  bool spurious = c.src.chance(1, 3);
  bool faults = c.src.chance(1, 4);
  bool nothread = !faults && c.src.chance(1, 12);
  struct Phase {
    int mode;  // 0 local, 1 init, 2 init_new
    std::string key;
    std::vector<std::unique_ptr<Sess>> ss;
    std::vector<User> us;
    bool exit_first;
    int quota = -1;
  };
  std::vector<Phase> ph(phases);
  const char *mode_name[] = {"local", "central", "central (new)"};
  for (auto &p : ph) {
    p.mode = (int)c.src.draw(sv_signing_plugin_init_new ? 3 : 2);
    CfgOpts co;
    co.attest = false;
    co.info = c.src.chance(1, 8);
    SignCfg first = gen_cfg(c.src, co);
    p.key = first.key;
    int n = 1 + (int)c.src.draw(c.src.chance(1, 3) ? 5 : 3);
    // Pressure: a session that does not pull fills the plugin's buffer. Churn: many sessions are freed with signatures left.
    const int special = c.src.weighted({10, 2, 2, 1});
    // Held: many sessions are freed while their hash is being signed.
    const bool pressure = special == 1, held = special == 3, churn = special == 2 || held;
    if (pressure) n = 2 + (int)c.src.draw(2);
    if (churn) n = 8 + (int)c.src.draw(17);
    if (held) n = 64 + (int)c.src.draw(4);
    int nu = churn ? 1 : 1 + (int)c.src.draw(std::min(n, 4));
    p.us.resize(nu);
    p.exit_first = c.src.chance(1, 6);
    // Not more than the plugin's and the library's buffers hold.
    int budget = pressure ? 110 : c.src.chance(1, 8) ? 110 : 40;
    if (n == 1 && c.src.chance(1, 8)) budget = 200;
    for (int i = 0; i < n; i++) {
      p.ss.emplace_back(new Sess);
      Sess &t = *p.ss.back();
      t.id = i;
      t.cfg = i && !held ? gen_cfg(c.src, co) : first;
      if (p.mode) {
        t.cfg.key = p.key;
        if (key_by_name(p.key).rsa) t.cfg.hash = "";
      }
      if (faults) t.cfg.recurrence = 1;
      GenOpts o;
      o.min_gops = 1;
      o.max_gops = std::max(2, std::min(61, 1 + (budget >= 110 ? budget : 2 * budget / n) / n));
      if (budget < 110 && !c.src.chance(1, 4)) o.max_gops = std::min(o.max_gops, 6);
      if (pressure || churn) o.big = false;
      if (budget == 200) o.min_gops = o.max_gops = 61;
      if (churn) {
        o.max_gops = 11;
        o.min_gops = 7;
      }
      if (held) {
        t.hold = i + 1 < n;
        o.min_gops = o.max_gops = 2;
      }
      if (pressure) {
        o.max_gops = i ? 50 / (n - 1) : 60;
        o.min_gops = i ? 1 : 50;
      }
      o.max_gop_len = 1 + (int)c.src.draw(4);
      o.max_body = 12;
      o.big = false;
      t.in = held && i ? p.ss[0]->in : gen_stream(c.src, t.cfg.codec, o);
      if (!held || !i) set_ts(c, t.in);
      t.lazy = c.src.chance(1, 5);  // the older function
      int pulls = (int)c.src.weighted({3, 3, 1});
      if (i == 0 && pressure || i + 1 < n && churn) pulls = 2;
      RefSigner ref(t.cfg);
      for (size_t k = 0; k < t.in.size(); k++) {
        RefSei r;
        if (ref.add(t.in[k], &r)) {
          t.ref.push_back(r);
          t.ref_at.push_back((int)k);
        }
        t.ops.push_back({0});
        // The plugin holds 60 hashes that are not yet signed.
        if ((budget == 110 || churn) && k % 8 == 7) t.ops.push_back({3});
        if (pulls == 0 ? c.src.coin() : pulls == 1 ? c.src.chance(1, 8) : false) {
          if (c.src.chance(1, 3)) t.ops.push_back({3});
          t.ops.push_back({t.lazy ? 2 : 1});
        }
      }
      t.cut = c.src.chance(1, 6);
      t.cut_at = t.cut ? c.src.draw(t.ops.size() + 1) : 0;
      if (pressure && i == 0 && c.src.coin() || churn && i + 1 < n) {
        t.cut = true;
        t.cut_at = t.ops.size();
      }
      p.us[c.src.draw(nu)].ss.push_back(&t);
    }
    size_t closings = 0;
    for (auto &t : p.ss) closings += t->ref.size();
    for (auto &u : p.us) {
      u.free_in_thread = churn || c.src.chance(3, 4);
      // The signatures of sessions that do not fetch them must not fill the plugin's buffer for good.
      u.free_cut = churn || closings > 50 || c.src.coin();
      size_t total = 0;
      for (auto *s : u.ss) total += s->ops.size() + 1;
      if (churn) u.order.assign(total, 0);
      else if (u.ss.size() > 1)
        for (size_t k = 0; k < total; k++) u.order.push_back((uint8_t)c.src.draw(u.ss.size()));
    }
    if (nothread && &p == &ph[0]) p.quota = (int)c.src.draw(p.mode ? 1 : n);
    c.note("%s key %s, %d sessions, %d user threads%s", mode_name[p.mode], p.key.c_str(), n, nu, p.quota >= 0 ? strf(", %d threads only", p.quota).c_str() : "");
    for (auto &t : p.ss) c.note("session %d: %s %s%s%s", t->id, t->cfg.str().c_str(), types(t->in).c_str(), t->cut ? strf(" freed after %zu steps", t->cut_at).c_str() : "", t->lazy ? " prepend" : "");
  }
  std::vector<uint8_t> plan;
  if (faults)
    for (int i = 0; i < 40; i++) plan.push_back(c.src.chance(1, 6));
  uint64_t rs = c.src.raw64();
  size_t delivered = 0;
  uint64_t switches = 0;
  for (size_t pi = 0; pi < ph.size(); pi++) {
    Phase &p = ph[pi];
    det_rand_seed(rs + pi);
    lib_track(kTrack);
    sched_begin(&c.src, stay, spurious);
    sched_sign_plan(plan.data(), plan.size());
    g_thread_quota = p.quota;
    const Key &k = key_by_name(p.key);
    bool up = true;
    if (p.mode) {
      int rc;
      if (p.mode == 1) {
        signature_info_t si;
        memset(&si, 0, sizeof si);
        si.private_key = (void *)k.priv.data();
        si.private_key_size = k.priv.size();
        rc = sv_signing_plugin_init(&si);
      } else {
        pem_pkey_t pk;
        memset(&pk, 0, sizeof pk);
        pk.key = (void *)k.priv.data();
        pk.key_size = k.priv.size();
        rc = sv_signing_plugin_init_new(&pk);
      }
      up = rc == 0;
      if (!up && p.quota < 0) c.fail("the plugin cannot be initialised: %d", rc);
      if (up && p.quota == 0 && !sched_is_real()) c.fail("the plugin claims to be initialised without a thread");
    }
    const bool ran = up;
    std::vector<int> th;
    if (up)
      for (auto &u : p.us) th.push_back(sched_spawn(user_main, &u));
    for (int t : th) sched_join(t);
    if (p.mode && up && p.exit_first) {
      sv_signing_plugin_exit(nullptr);
      up = false;
    }
    for (auto &t : p.ss) t->s.reset();
    if (p.mode && up) sv_signing_plugin_exit(nullptr);
    switches += sched_switches();
    sched_end();
    const size_t calls = sched_sign_calls();
    sched_sign_plan(nullptr, 0);
    size_t live = lib_live();
    lib_track(false);
    c.require(!live, "%zu blocks of memory are still allocated after all sessions were freed and the plugin was closed", live);
    if (!ran) {
      c.label("initialisation failed");
      continue;
    }
    // What was delivered?
    int failed = 0, errors = 0, missing = 0;
    for (size_t i = 0; i < calls && i < plan.size(); i++) failed += plan[i];
    for (auto &tp : p.ss) {
      Sess &t = *tp;
      if (!t.err.empty()) {
        if (p.quota >= 0 && t.err.find("setting private key") == 0) continue;
        c.fail("session %d: %s", t.id, t.err.c_str());
      }
      std::vector<int> seen(t.ref.size());
      long last = -1;
      for (auto &g : t.got) {
        WireSei w = parse_sei(g.sei, t.cfg.codec, t.cfg.sei_epb);
        c.require(w.ok, "session %d: %s", t.id, w.err.c_str());
        const Tlv *gen = w.find(TAG_GENERAL);
        c.require(gen != nullptr, "session %d: an SEI without general data", t.id);
        long k = (long)be(gen->v, 1, 4) - 1;
        c.require(k >= 0 && k < (long)t.ref.size(), "session %d: an SEI of GOP %ld, but there are only %zu", t.id, k, t.ref.size());
        c.require(!seen[k]++, "session %d: the SEI of GOP %ld was delivered twice", t.id, k);
        c.require(g.prepend || k > last, "session %d: the SEI of GOP %ld was delivered after that of GOP %ld", t.id, k, last);
        last = k;
        c.require((int)g.before > t.ref_at[k], "session %d: the SEI of GOP %ld was delivered too early", t.id, k);
        std::string e = ref_compare(t.cfg, t.ref[k], g.sei);
        c.require(e.empty(), "session %d, SEI of GOP %ld: %s", t.id, k, e.c_str());
        delivered++;
      }
      errors += t.errors;
      if (!t.cut) {
        int miss = (int)t.ref.size() - (int)t.got.size();
        missing += miss;
        c.require(miss == t.errors, "session %d: %zu of %zu SEIs were delivered and %d errors reported", t.id, t.got.size(), t.ref.size(), t.errors);
        c.require(failed || !miss, "session %d: only %zu of %zu SEIs were delivered", t.id, t.got.size(), t.ref.size());
        // As a recipient would see it, with every SEI right after the picture that ended its GOP.
        if (!miss && t.ref.size() && t.cfg.pubkey_in_sei && c.src.chance(1, 4)) {
          std::map<int, Bytes> by;
          for (auto &g : t.got) by[(int)be(parse_sei(g.sei, t.cfg.codec, t.cfg.sei_epb).find(TAG_GENERAL)->v, 1, 4) - 1] = g.sei;
          Stream out;
          size_t q = 0;
          for (size_t i = 0; i < t.in.size(); i++) {
            out.push_back(t.in[i]);
            if (q < t.ref_at.size() && (int)i >= t.ref_at[q] && (i + 1 == t.in.size() || t.in[i + 1].t == 'I' || t.in[i + 1].t == 'P')) {
              Nalu n;
              n.t = 'S';
              n.d = by[(int)q++];
              out.push_back(n);
            }
          }
          Validation v = validate(out, t.cfg.codec);
          for (auto &st : v.steps) c.require(st.r.auth == SV_AUTH_RESULT_OK || st.r.auth == SV_AUTH_RESULT_NOT_SIGNED, "session %d: the stream is reported %s", t.id, auth_name(st.r.auth));
          c.label("validated");
        }
      }
    }
    bool any_cut = false;
    for (auto &t : p.ss) any_cut |= t->cut;
    c.require(errors <= failed, "%d errors reported but only %d signing operations failed", errors, failed);
    if (!any_cut && p.quota < 0) c.require(missing == failed, "%d signing operations failed but %d SEIs are missing", failed, missing);
    c.label(strf("%s%s%s", mode_name[p.mode], failed ? ", failures" : "", p.quota >= 0 ? ", no thread" : ""));
  }
  if (delivered >= 2 && switches >= 20) c.nontrivial();
  c.label(strf("switches<%d", switches < 20 ? 20 : switches < 100 ? 100 : switches < 1000 ? 1000 : 100000));
}
