// Authenticity semantics: what a validator reports about genuine and about manipulated streams.
#include "auth_util.h"
#include "refmodel.h"

#include <algorithm>
#include <set>

PROPERTY(P01, "A random stream (codec, GOP layout, slices, parameter sets, AUDs, foreign SEIs, start codes, sizes) is signed with a random configuration and validated untouched; non-trivial when at least two signed SEIs are validated.") {
  SignCfg cfg = base_cfg(c);
  GenOpts o;
  o.unique = c.src.coin();
  o.trailing_zeros = c.src.chance(1, 6);
  int shape = c.src.weighted({400, 10, 10, 1});
  if (shape == 3) {  // more GOPs than fit in small counters
    o.min_gops = 257;
    o.max_gops = 300;
    o.max_gop_len = 2;
    o.max_body = 8;
    o.big = false;
  } else if (shape == 1) {
    o.max_gops = 75;  // more GOPs than there is room for pending SEIs
    o.min_gops = 60;
    o.max_gop_len = 3;
  } else if (shape == 2) {
    o.min_gops = 2;
    o.max_gops = 3;
    o.max_gop_len = 700;  // hash list overflows
    o.max_body = 8;
    o.big = false;
  }
  Stream in = gen_stream(c.src, cfg.codec, o);
  if (shape == 2 && c.src.coin()) {  // just at the limit of the hash list
    int hs = EVP_MD_get_size(ref_md(cfg.hash)), lim = 64 * 300 / hs + (int)c.src.draw(3) - 1;
    std::string t = "I" + std::string(lim - 1, 'P') + "IPI";
    in = stream_from_types(c.src, cfg.codec, t.c_str(), o);
  }
  if (c.src.chance(1, 6)) dup_nalus(c.src, in);
  set_ts(c, in);
  PullMode m = (PullMode)c.src.draw(PULL_NUM);
  bool back = c.src.coin();
  bool ext = c.src.chance(1, 4);
  if (ext) cfg.pubkey_in_sei = c.src.coin();
  if (c.src.chance(1, 6)) cfg.golden = true;
  c.note("%s pull=%d back=%d ext=%d in=%s", cfg.str().c_str(), m, back, ext, types(in).c_str());
  Stream s = sign_stream(c, cfg, in, m, back);
  if (c.src.chance(1, 8)) age_stream(s, cfg, gen_age(c.src));
  int gops = 0;
  for (auto &n : in) gops += n.t == 'I';
  // The last SEI is only pulled in the peek/before modes if another NALU follows.
  int seis = num_seis(s);
  int tail = 0;
  if (m == PULL_PEEK || m == PULL_BEFORE) {
    int lastI = 0;
    for (size_t i = 0; i < in.size(); i++)
      if (in[i].t == 'I') lastI = (int)i;
    bool follow = false;
    for (size_t i = lastI + 1; i < in.size(); i++) follow |= m == PULL_BEFORE || in[i].t == 'P';
    if (!follow) tail = 1;
  }
  c.require(seis == gops - 1 - (gops > 1 ? tail : 0), "expected %d SEIs but %d were produced for %s", gops - 1 - tail, seis, types(in).c_str());
  const Key &k = key_by_name(cfg.key);
  Validation v = validate(s, cfg.codec, ext ? &k.pub : nullptr);
  std::string sum = step_summary(s, v);
  for (size_t i = 0; i < s.size(); i++) c.require(v.rc[i] == SV_OK, "adding NALU %zu for validation failed: %d\n%s", i, v.rc[i], sum.c_str());
  int fs = first_sei(s);
  for (size_t i = 0; i < s.size(); i++) {
    const Report *r = report_at(v, (int)i);
    if (s[i].t == 'S') {
      c.require(r != nullptr, "no report at SEI %zu\n%s", i, sum.c_str());
      c.require(r->auth == SV_AUTH_RESULT_OK, "authentic GOP reported as %s\n%s", auth_name(r->auth), sum.c_str());
      c.require(r->acc_auth == SV_AUTH_RESULT_OK, "authentic stream accumulated as %s\n%s", auth_name(r->acc_auth), sum.c_str());
      auto p = pics_of(s, s[i].gop);
      c.require(r->expected == (int)p.size() && r->received == (int)p.size(), "picture count %zu reported as expected %d received %d\n%s", p.size(), r->expected, r->received, sum.c_str());
    } else if (r) {
      if ((int)i < fs || fs < 0)
        c.require(r->auth == SV_AUTH_RESULT_NOT_SIGNED || (cfg.golden && r->auth == SV_AUTH_RESULT_SIGNATURE_PRESENT) , "report %s before any signature\n%s", auth_name(r->auth), sum.c_str());
      else
        c.require(r->auth == SV_AUTH_RESULT_OK, "unexpected report %s\n%s", auth_name(r->auth), sum.c_str());
    }
    if (r) {
      c.require(!r->keychg && !r->acc_keychg, "public key reported as changed\n%s", sum.c_str());
      for (char ch : r->vstr) c.require(ch == '.' || ch == 'P' || ch == '_', "mark %c on an authentic stream\n%s", ch, sum.c_str());
    }
  }
  Marks mk = align_marks(s, v);
  c.require(mk.err.empty(), "%s", mk.err.c_str());
  for (size_t i = 0; i < s.size(); i++)
    if ((s[i].pic() && find_sei(s, s[i].gop) >= 0) || s[i].t == 'S' || (s[i].t == 'G' && fs >= 0))
      c.require(mk.last[i] == '.', "NALU %zu of type %c ended as '%c'\n%s", i, s[i].t, mk.last[i] ? mk.last[i] : '?', sum.c_str());
  c.require(v.final.has_value(), "no final report");
  if (fs >= 0) c.require(v.final->acc_auth == SV_AUTH_RESULT_OK, "final result %s\n%s", auth_name(v.final->acc_auth), sum.c_str());
  if (seis >= 2) c.nontrivial();
  c.label(shape == 0 ? "shape:normal" : shape == 1 ? "shape:many-gops" : shape == 3 ? "shape:hundreds-of-gops" : "shape:long-gop");
}

PROPERTY(P02, "A signed stream with several GOPs gets one to three manipulations of picture NALUs (bit flips anywhere incl. header, truncation, extension, substitution, duplication, insertion, reordering, moving between GOPs); non-trivial when the manipulated GOP has its signed SEI and a later SEI.") {
  if (c.src.chance(1, 12)) {
    // A segment without the public key, which comes in a broken SEI after the manipulation.
    CfgOpts co;
    SignCfg cfg = gen_cfg(c.src, co);
    cfg.recurrence = 100;
    cfg.pubkey_in_sei = true;
    GenOpts o;
    o.min_gops = 7;
    o.max_gops = 8;
    o.max_gop_len = 4;
    o.max_body = 20;
    o.extras = c.src.chance(1, 4);
    Stream in = gen_stream(c.src, cfg.codec, o), full = sign_stream(c, cfg, in, c.src.coin() ? PULL_PEEK : PULL_AFTER), s = full;
    if (num_seis(full) < 6) return;
    size_t first = 0;
    while (s[first].t != 'I' || s[first].gop != 2) first++;
    s.erase(s.begin(), s.begin() + first);
    int g = c.src.range(3, 4);
    auto ps = pics_of(s, g);
    Nalu &x = s[ps[c.src.draw(ps.size())]];
    if (x.d.size() < x.sc() + 6) return;
    x.d.insert(x.d.begin() + x.sc() + 4, 0x55);
    Nalu d = full[find_sei(full, 0)];
    size_t at = d.sc() + 24 + c.src.draw(d.d.size() - d.sc() - 24);
    d.d[at] ^= (uint8_t)(1u << c.src.draw(8));
    d.tampered = true;
    d.gop = -1;
    size_t from = find_sei(s, g) + 1, to = find_sei(s, g + 1);
    s.insert(s.begin() + from + c.src.draw(to - from + 1), d);
    c.note("%s late key, byte %zu altered, gop=%d %s", cfg.str().c_str(), at, g, types(s).c_str());
    Validation v = validate(s, cfg.codec);
    c.require(v.final->acc_auth != SV_AUTH_RESULT_OK, "manipulated stream accepted\n%s", step_summary(s, v).c_str());
    c.nontrivial();
    c.label(strf("late key in a broken SEI %s", auth_name(v.final->acc_auth)));
    return;
  }
  int ops = c.src.chance(1, 4) ? c.src.range(2, 3) : 1;
  Base b = make_base(c, 3 + ops, 7);
  Stream s = b.s;
  // An inserted I-frame moves what follows to a later GOP, so leave as many SEIs after the GOP.
  int g = (int)c.src.draw(b.n - 1 - ops);
  std::string what = tamper_gop(c, b.cfg.codec, b.s, s, g, ops);
  if (what.empty()) return;
  // Combined manipulations may cancel out (e.g. two swaps); compare picture sequences.
  std::set<Bytes> genuine;
  {
    std::vector<Bytes> a, d;
    for (auto &x : b.s)
      if (x.pic()) a.push_back(picture_bytes(x.d)), genuine.insert(a.back());
    for (auto &x : s)
      if (x.pic() && is_pic_type(b.cfg.codec, x.d)) d.push_back(picture_bytes(x.d));
    if (a == d) return;
  }
  // Perhaps only a segment is left, and SEIs that cannot be used come later.
  if (g >= 2 && c.src.chance(1, 5)) {
    int g0 = c.src.range(1, g - 1);
    size_t first = 0;
    while (s[first].t != 'I' || s[first].gop != g0) first++;
    s.erase(s.begin(), s.begin() + first);
    what += strf("+segment from GOP %d", g0);
  }
  if (g >= 1 && c.src.chance(1, 5)) {
    int num = 1 + (int)c.src.draw(3);
    for (int k = 0; k < num; k++) {
      int from = find_sei(s, g);
      Nalu d = b.s[find_sei(b.s, c.src.coin() ? 0 : (int)c.src.draw(b.n))];
      if (c.src.coin() && d.d.size() > 60) d.d.resize(d.d.size() - 1 - c.src.draw(50));
      else d.d[d.sc() + 24 + c.src.draw(d.d.size() - d.sc() - 24)] ^= (uint8_t)(1u << c.src.draw(8));
      d.tampered = true;
      d.gop = -1;
      s.insert(s.begin() + from + 1 + c.src.draw(s.size() - from), d);
    }
    what += strf("+%d unusable SEIs", num);
  }
  c.note("%s op=%s gop=%d %s", b.cfg.str().c_str(), what.c_str(), g, types(s).c_str());
  Validation v = validate(s, b.cfg.codec);
  std::string sum = step_summary(s, v);
  Marks mk = align_marks(s, v);
  c.require(mk.err.empty(), "%s", mk.err.c_str());
  for (size_t i = 0; i < s.size(); i++) {
    // A changed or foreign picture NALU is never validated as authentic.
    if (s[i].pic() && is_pic_type(b.cfg.codec, s[i].d) && !genuine.count(picture_bytes(s[i].d)))
      c.require(mk.per_nalu[i].find('.') == std::string::npos, "manipulated NALU %zu marked authentic [%s]\n%s", i, mk.per_nalu[i].c_str(), sum.c_str());
  }
  for (auto &st : v.steps) c.require(st.r.auth != SV_AUTH_RESULT_VERSION_MISMATCH, "version mismatch\n%s", sum.c_str());
  if (g >= 1) {
    c.require(v.final->acc_auth != SV_AUTH_RESULT_OK, "manipulated stream accepted (%s)\n%s", what.c_str(), sum.c_str());
    c.nontrivial();
  } else {
    // The first GOP may look like the start of an exported segment; then it is not claimed authentic.
    bool bad = false;
    for (auto &st : v.steps) bad |= st.r.auth == SV_AUTH_RESULT_NOT_OK || st.r.auth == SV_AUTH_RESULT_SIGNATURE_PRESENT || st.r.auth == SV_AUTH_RESULT_OK_WITH_MISSING_INFO;
    c.require(bad, "manipulated first GOP accepted (%s)\n%s", what.c_str(), sum.c_str());
    c.nontrivial();
  }
  c.label(strf("%s %s", what.find('+') == std::string::npos ? what.c_str() : "several", auth_name(v.final->acc_auth)));
}
