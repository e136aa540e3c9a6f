// Independence of sessions and leaks.
#include <openssl/err.h>

#include "hostile.h"
#include "session.h"

extern uint8_t g_malloc_fill;
size_t arena_live();
extern bool g_pem_memo;
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

static Program gen_program(Ctx &c, const ProgOpts &o) { return c.src.chance(2, 5) ? gen_signer(c, o) : gen_validator(c, o); }

PROPERTY(P28, "Two to four sessions - signing with any configuration, or validating intact, damaged, hostile and legacy streams - are run alone, then all at once with their calls interleaved at random and their data placed elsewhere, then again alone; non-trivial when the calls of at least two sessions of at least five calls each really alternate.") {
  int n = 2 + (int)c.src.draw(3);
  std::vector<Program> ps;
  ProgOpts o;
  for (int i = 0; i < n; i++) {
    ps.push_back(gen_program(c, o));
    c.desc.clear();
  }
  for (auto &p : ps) c.note("%s", p.desc.c_str());
  uint64_t place = 1;
  std::vector<std::vector<std::string>> alone(n);
  auto run_alone = [&](int i) {
    std::vector<std::string> l;
    Session s(ps[i], place = mix64(place));
    g_malloc_fill = (uint8_t)(place >> 40);
    for (size_t k = 0; k < ps[i].ops.size(); k++) l.push_back(s.step(k));
    s.end();
    if (!s.trouble.empty()) c.fail("session %d (%s): %s", i, ps[i].desc.c_str(), s.trouble.c_str());
    return l;
  };
  auto cut = [](const std::string &s) { return s.size() > 900 ? s.substr(0, 900) + "..." : s; };
  for (int i = 0; i < n; i++) alone[i] = run_alone(i);
  // Interleaved.
  {
    std::vector<std::unique_ptr<Session>> ss;
    std::vector<size_t> at(n);
    for (int i = 0; i < n; i++) ss.emplace_back(new Session(ps[i], place = mix64(place)));
    int switches = 0, last = -1;
    std::vector<int> left;
    for (int i = 0; i < n; i++) left.push_back(i);
    while (!left.empty()) {
      size_t q = c.src.draw(left.size());
      int i = left[q];
      int burst = 1 + (int)c.src.draw(4);
      if (i != last && last >= 0) switches++;
      last = i;
      for (int b = 0; b < burst && at[i] < ps[i].ops.size(); b++) {
        place = mix64(place);
        g_malloc_fill = (uint8_t)(place >> 40);
        std::string r = ss[i]->step(at[i]);
        c.require(r == alone[i][at[i]], "step %zu of session %d (%s) interleaved with others gives\n%s\nbut alone\n%s", at[i], i, ps[i].desc.c_str(), cut(r).c_str(), cut(alone[i][at[i]]).c_str());
        at[i]++;
      }
      if (at[i] >= ps[i].ops.size()) {
        left.erase(left.begin() + q);
        ss[i]->end();
        if (!ss[i]->trouble.empty()) c.fail("session %d (%s): %s", i, ps[i].desc.c_str(), ss[i]->trouble.c_str());
      }
    }
    int real = 0;
    for (auto &p : ps) real += p.ops.size() >= 5;
    if (real >= 2 && switches >= 4) c.nontrivial();
  }
  int i = (int)c.src.draw(n);
  auto again = run_alone(i);
  for (size_t k = 0; k < again.size(); k++) c.require(again[k] == alone[i][k], "step %zu of session %d (%s) run again gives\n%s\nbut first\n%s", k, i, ps[i].desc.c_str(), cut(again[k]).c_str(), cut(alone[i][k]).c_str());
  for (auto &p : ps) c.label(p.signer ? "signer" : p.strange ? "validator, not plain" : "validator");
}

PROPERTY(P30, "A signing or validating session with any history of calls, also failing ones, hostile streams and reports that outlive it, freed at any point, is run five times; live memory must not grow each time; non-trivial when the history has at least five calls.") {
  g_pem_memo = false;
  ProgOpts o;
  VendorRoot root;
  o.vendor = true;
  Program p = gen_program(c, o);
  c.desc.clear();
  c.note("%s", p.desc.c_str());
  size_t heap[6], arena[6];
  const int kRuns = 5;
  for (int r = 0; r < kRuns; r++) {
    {
      Session s(p, 0);
      for (size_t k = 0; k < p.ops.size(); k++) s.step(k);
      s.end();
      if (!s.trouble.empty()) c.fail("%s", s.trouble.c_str());
    }
    ERR_clear_error();
    ERR_remove_state(0);
    OPENSSL_thread_stop();
    heap[r] = __sanitizer_get_current_allocated_bytes();
    arena[r] = arena_live();
  }
  auto grows = [&](size_t *v) {
    size_t d = v[2] - v[1];
    for (int r = 2; r < kRuns; r++)
      if (v[r] <= v[r - 1]) return (size_t)0;
    return d;
  };
  if (size_t d = grows(heap)) c.fail("%zu bytes leaked by every run of: %s", d, p.desc.c_str());
  if (size_t d = grows(arena)) c.fail("%zu bytes of OpenSSL objects leaked by every run of: %s", d, p.desc.c_str());
  if (p.ops.size() >= 5) c.nontrivial();
  c.label(p.signer ? (p.strange ? "signer, not plain" : "signer") : p.strange ? "validator, not plain" : "validator");
}

extern uint64_t g_alloc_count, g_alloc_fail_at, g_alloc_fail_num, g_alloc_failed;
void lib_track(bool on);
size_t lib_live();
PROPERTY(P34, "A signing or validating session is run with an allocation of the library, or up to four in a row, failing at a random point, eight times with different points, and then once more with memory; non-trivial when an allocation fails in a session of at least five calls.") {
  ProgOpts o;
  VendorRoot root;
  o.vendor = true;
  Program p = gen_program(c, o);
  c.desc.clear();
  c.note("%s", p.desc.c_str());
  struct Off {
    Off() { g_alloc_fail_at = g_alloc_count = g_alloc_failed = 0; }
    ~Off() {
      g_alloc_fail_at = 0;
      lib_track(false);
    }
  } off;
  // The strings for debugging may be missing.
  auto strip = [](std::string s) {
    for (const char *w : {" n[", " v["}) {
      size_t a = s.find(w), b = a == std::string::npos ? a : s.find(']', a);
      if (b != std::string::npos) s.erase(a, b + 1 - a);
    }
    return s;
  };
  std::vector<std::string> clean;
  {
    Session s(p, 0);
    for (size_t k = 0; k < p.ops.size(); k++) clean.push_back(strip(s.step(k)));
    s.end();
  }
  uint64_t n = g_alloc_count;
  if (!n) return;
  auto cut = [](const std::string &s) { return s.size() > 500 ? s.substr(0, 500) + "..." : s; };
  for (int i = 0; i < 8; i++) {
    lib_track(true);
    g_alloc_count = 0;
    g_alloc_failed = 0;
    g_alloc_fail_at = 1 + c.src.draw(n);
    g_alloc_fail_num = c.src.weighted({6, 2}) ? c.src.draw(4) : 0;
    c.note("allocation %llu + %llu of %llu", (unsigned long long)g_alloc_fail_at, (unsigned long long)g_alloc_fail_num, (unsigned long long)n);
    std::vector<std::string> got;
    size_t at = SIZE_MAX;
    bool once = true;
    {
      Session s(p, 0);
      for (size_t k = 0; k < p.ops.size(); k++) {
        uint64_t failed = g_alloc_failed;
        std::string r = strip(s.step(k));
        if (!failed && g_alloc_failed == failed) c.require(r == clean[k], "step %zu gives\n%s\nbut in a run that has memory all along\n%s", k, cut(r).c_str(), cut(clean[k]).c_str());
        got.push_back(r);
        if (g_alloc_failed != failed) once = at == SIZE_MAX, at = k;
        if (g_alloc_failed != failed) c.label(r.substr(0, r.find(' ')) + (r == clean[k] ? ", same result" : r.find(" rc=0") == std::string::npos || r.find(" none") != std::string::npos ? ", fails" : ", other result"));
      }
      s.end();
      if (!s.trouble.empty()) c.fail("%s", s.trouble.c_str());
    }
    g_alloc_fail_at = 0;
    size_t live = lib_live();
    c.require(!live, "%zu blocks leaked", live);
    if (g_alloc_failed && p.ops.size() >= 5) c.nontrivial();
    if (at == SIZE_MAX || !once || got[at].find(" rc=-") == std::string::npos || !is_setter(p.ops[at].k)) continue;
    // A setter that fails sets nothing.
    c.label("failing setter");
    Session s(p, 0);
    for (size_t k = 0; k < p.ops.size(); k++) {
      if (k == at) continue;
      std::string r = strip(s.step(k));
      c.require(r == got[k], "after %s failed for lack of memory, step %zu gives\n%s\nbut without that call\n%s", got[at].c_str(), k, cut(got[k]).c_str(), cut(r).c_str());
    }
    s.end();
  }
  // Nothing lasting.
  Session s(p, 0);
  for (size_t k = 0; k < p.ops.size(); k++) {
    std::string r = strip(s.step(k));
    c.require(r == clean[k], "with memory again, step %zu of a new session gives\n%s\nbut gave\n%s", k, cut(r).c_str(), cut(clean[k]).c_str());
  }
  s.end();
}
