// Hostile input.
#include <fcntl.h>
#include <unistd.h>

#include "hostile.h"

// The library prints decoded SEIs in one of the builds.
struct Quiet {
  int saved = -1;
  Quiet() {
#ifdef HARNESS_VARIANT_psei
    fflush(stdout);
    saved = dup(1);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
#endif
  }
  ~Quiet() {
    if (saved < 0) return;
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
  }
};

PROPERTY(P21, "A signed, legacy or unsigned stream is mixed with malformed NAL Units, damaged ones and forged SEIs, many of them correctly signed with the attacker's own key, and given to a validator, with or without a user key, with resets, reports and queries in between, or to a signer; non-trivial when a forged or damaged NAL Unit was taken in and the stream has at least one SEI.") {
  Src &s = c.src;
  Quiet q;
  Hostile h = hostile_stream(c);
  if (s.chance(1, 8)) {
    // The signing side.
    CfgOpts co;
    co.maxsei = true;
    SignCfg cfg = gen_cfg(s, co);
    cfg.codec = h.codec;
    Signer sg(cfg, &c);
    int n = 0;
    for (auto &x : h.s) {
      if (x.d.empty()) continue;
      Bytes d = x.d;
      int64_t ts = (int64_t)s.draw(100);
      uint8_t *p = (uint8_t *)malloc(d.size());
      memcpy(p, d.data(), d.size());
      if (s.chance(1, 4) && d.size() > 1) {
        size_t k = 1 + s.draw(d.size() - 1);
        sg.add_part(d.data(), k, &ts, false);
        sg.add_part(d.data() + k, d.size() - k, &ts, true);
      } else {
        signed_video_add_nalu_for_signing_with_timestamp(sg.sv, p, d.size(), &ts);
        c.require(!memcmp(p, d.data(), d.size()), "the signer changed the NAL Unit");
      }
      free(p);
      Bytes b;
      while (sg.pull(s.chance(1, 8) ? &x.d : nullptr, &b, nullptr, nullptr) == SV_OK && !b.empty()) n++;
    }
    c.label("signer");
    if (n && h.mutated) c.nontrivial();
    return;
  }
  int user = s.weighted({3, 2, 1});
  std::string other = h.key == "ec256_2" ? "ec256_1" : "ec256_2";
  const std::string *pk = user == 1 ? &key_by_name(other).pub : user == 2 ? &key_by_name(h.key).pub : nullptr;
  Validator v(h.codec, pk);
  int seis = 0, reports = 0;
  bool was_reset = false;
  auto judge = [&](const Report &r, const char *where) {
    reports++;
    // Touches every byte of the report.
    if (r.str().empty()) c.label("empty");
    // Once the key has changed, the overall result stays not authentic until the session is reset.
    if (user == 1 && !was_reset)
      c.require(r.acc_auth < SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "nothing was signed with the user's key, but %s says %s", where, r.str().c_str());
  };
  for (size_t i = 0; i < h.s.size(); i++) {
    const Bytes &d = h.s[i].d;
    if (d.empty()) continue;
    seis += h.s[i].t == 's' || h.s[i].sei();
    uint8_t *p = (uint8_t *)malloc(d.size());
    memcpy(p, d.data(), d.size());
    if (s.chance(1, 10)) signed_video_is_golden_sei(v.sv, p, d.size());
    if (h.s[i].t == 's' || h.s[i].sei() || s.chance(1, 12)) signed_video_parse_sei(p, d.size(), h.codec);
    signed_video_authenticity_t *a = nullptr;
    bool want = !s.chance(1, 12);
    int rc = signed_video_add_nalu_and_authenticate(v.sv, p, d.size(), want ? &a : nullptr);
    (void)rc;
    bool same = !memcmp(p, d.data(), d.size());
    free(p);
    std::optional<Report> r;
    if (a) r = copy_report(a);
    signed_video_authenticity_report_free(a);
    c.require(same, "the validator changed NAL Unit %zu", i);
    if (r) judge(*r, "a report");
    if (s.chance(1, 16)) {
      a = signed_video_get_authenticity_report(v.sv);
      r.reset();
      if (a) r = copy_report(a);
      signed_video_authenticity_report_free(a);
      if (r) judge(*r, "the overall report");
    }
    if (s.chance(1, 25)) {
      signed_video_reset(v.sv);
      was_reset = true;
      c.label("reset");
    }
  }
  c.label(user == 0 ? "no user key" : user == 1 ? "unrelated user key" : "user key of the attacker");
  if (h.legacy) c.label("legacy");
  if (seis && h.mutated) c.nontrivial();
}
