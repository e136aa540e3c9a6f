// Keys, unsigned streams, segments, delays and the consistency of reports.
#include "auth_util.h"

static const char *rep_auth(const Report *r) { return r ? auth_name(r->auth) : "no report"; }

// ---- P07 -------------------------------------------------------------------------------------------
PROPERTY(P07, "A stream is signed, in some cases with a golden SEI in front, with one key, or with two of which the second takes over at a random GOP, with or without the key in the SEIs, and validated with the right, the wrong or no key set by the user; non-trivial unless the only key is right and nothing changes.") {
  CfgOpts co;
  co.info = false;
  co.maxsei = false;
  co.recurrence = c.src.chance(1, 4);
  SignCfg cfg = gen_cfg(c.src, co);
  cfg.pubkey_in_sei = !c.src.chance(1, 3);
  cfg.golden = cfg.pubkey_in_sei && c.src.chance(1, 4);
  GenOpts o;
  o.min_gops = 4;
  o.max_gops = 7;
  o.max_gop_len = 4;
  o.max_body = 30;
  Stream in = gen_stream(c.src, cfg.codec, o);
  in.push_back(make_nalu(c.src, cfg.codec, 'P', o, 7001));
  in.back().gop = in[in.size() - 2].gop;
  for (auto &x : in)
    if (x.pic() && x.gop > in.back().gop) in.back().gop = x.gop;
  Stream a = sign_stream(c, cfg, in, PULL_AFTER);
  int n = num_seis(a);
  // Another key of any kind.
  static const std::vector<std::string> keys = {"ec256_1", "ec256_2", "ec256_0", "rsa1024_0", "ec384_0", "rsa2048_0", "ec256sec1_0"};
  std::string other;
  do other = keys[c.src.draw(keys.size())];
  while (0);
  if (other == cfg.key) other = cfg.key == "ec256_1" ? "ec256_2" : "ec256_1";
  int change = -1;
  bool b_in_sei = cfg.pubkey_in_sei;
  Stream s = a;
  if (c.src.coin()) {
    SignCfg cb = cfg;
    cb.key = other;
    cb.recurrence = c.src.coin() ? 1 : cfg.recurrence;
    cb.pubkey_in_sei = b_in_sei = !c.src.chance(1, 4);
    if (key_by_name(other).rsa) cb.hash = cfg.hash = "";
    if (key_by_name(other).rsa) a = s = sign_stream(c, cfg, in, PULL_AFTER);
    Stream bs = sign_stream(c, cb, in, PULL_AFTER);
    c.require(bs.size() == a.size(), "two signers of the same stream gave %zu and %zu NALUs", a.size(), bs.size());
    change = 1 + (int)c.src.draw(n - 2);
    for (size_t i = 0; i < s.size(); i++)
      if (s[i].t == 'S' && s[i].gop >= change) s[i] = bs[i];
    // Is the new key announced? Only then can the change be told.
  }
  int user = (int)c.src.draw(3);  // 0 none, 1 right, 2 wrong
  const std::string *uk = user == 0 ? nullptr : user == 1 ? &key_by_name(cfg.key).pub : &key_by_name(other).pub;
  // Which SEIs carry a key?
  std::vector<int> carries(n, 0);
  for (int g = 0; g < n; g++) {
    WireSei w = parse_sei(s[find_sei(s, g)].d, cfg.codec, cfg.sei_epb);
    c.require(w.ok, "cannot parse SEI: %s", w.err.c_str());
    carries[g] = w.find(TAG_PUBKEY) ? 1 : 0;
    bool crypto = w.find(TAG_CRYPTO);
    // An external key together with a non-default hash needs the hash algorithm to be known from the first SEI.
    if (!crypto && g == 0 && !cfg.golden) return;
  }
  c.note("%s user=%s other=%s change=%d %s", cfg.str().c_str(), user == 0 ? "none" : user == 1 ? "right" : "wrong", other.c_str(), change, types(s).c_str());
  Validation v = validate(s, cfg.codec, uk);
  std::string sum = step_summary(s, v);
  // Reference: the key in use is the user's, or the first received one, until another one is received ("the key in the
  // SEI rules the other key").
  auto signer_of = [&](int g) { return change >= 0 && g >= change ? 1 : 0; };
  bool any_bad = false, any_chg = false;
  int have = user == 1 ? 0 : user == 2 ? 1 : -1;
  if (cfg.golden) {
    const Report *r = report_at(v, 0);
    c.require(s[0].t == 'G' && r, "no report at the golden SEI\n%s", sum.c_str());
    any_chg = any_bad = have == 1;
    c.require(r->keychg == any_chg && r->auth == (any_chg ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_SIGNATURE_PRESENT), "the golden SEI holds %s, but the report is %s\n%s", any_chg ? "another key than the one in use" : "the right key", r->str().c_str(), sum.c_str());
    have = 0;
  }
  for (int g = 0; g < n; g++) {
    int si = find_sei(s, g);
    const Report *r = report_at(v, si);
    bool chg = carries[g] && have >= 0 && have != signer_of(g);
    if (carries[g]) have = signer_of(g);
    if (have < 0) {
      c.require(!r || r->auth < SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "no key known, but reported %s at SEI %d\n%s", rep_auth(r), g, sum.c_str());
      c.require(v.final->acc_auth < SV_AUTH_RESULT_OK_WITH_MISSING_INFO || carries[n - 1] || any_chg || change >= 0, "no key known, but reported %s in the end\n%s", auth_name(v.final->acc_auth), sum.c_str());
      any_bad = true;
      continue;
    }
    c.require(r != nullptr, "no report at the SEI of GOP %d\n%s", g, sum.c_str());
    if (chg) {
      c.require(r->auth == SV_AUTH_RESULT_NOT_OK, "the SEI of GOP %d holds another key than the one in use, but the report is %s\n%s", g, rep_auth(r), sum.c_str());
      c.require(r->keychg, "the changed key in the SEI of GOP %d is not reported\n%s", g, sum.c_str());
      any_chg = any_bad = true;
      continue;
    }
    c.require(!r->keychg, "key change reported without one at GOP %d\n%s", g, sum.c_str());
    if (signer_of(g) == have) {
      if (!any_bad) c.require(r->auth == SV_AUTH_RESULT_OK, "right key, but GOP %d is reported as %s\n%s", g, rep_auth(r), sum.c_str());
    } else {
      c.require(r->auth < SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "GOP %d is signed by another key than the one in use, but reported as %s\n%s", g, rep_auth(r), sum.c_str());
      any_bad = true;
    }
  }
  if (any_bad)
    c.require(v.final->acc_auth < SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "stream ends as %s in spite of a wrong or changed key\n%s", auth_name(v.final->acc_auth), sum.c_str());
  else
    c.require(v.final->acc_auth == SV_AUTH_RESULT_OK, "right key only, but the stream ends as %s\n%s", auth_name(v.final->acc_auth), sum.c_str());
  c.require(v.final->acc_keychg == any_chg, "key change %d, but accumulated report says %d\n%s", any_chg, v.final->acc_keychg, sum.c_str());
  if (user == 0 && change < 0 && !carries[0]) c.label("no key at all");
  if (change >= 0 || user == 2 || !cfg.pubkey_in_sei) c.nontrivial();
  c.label(strf("user=%d change=%d insei=%d/%d", user, change >= 0, cfg.pubkey_in_sei, b_in_sei));
}

// ---- P08 -------------------------------------------------------------------------------------------
PROPERTY(P08, "A stream without any signing SEI is validated, with foreign and near-miss SEIs; non-trivial when there are at least two I-frames and one other SEI or undefined NAL Unit.") {
  SignedVideoCodec codec = c.src.coin() ? SV_CODEC_H265 : SV_CODEC_H264;
  GenOpts o;
  o.min_gops = 1;
  o.max_gops = 8;
  o.trailing_zeros = c.src.coin();
  o.unique = c.src.coin();
  Stream in = gen_stream(c.src, codec, o), s;
  int odd = 0;
  for (auto &n : in) {
    if (c.src.chance(1, 6)) {
      int k = (int)c.src.draw(4);
      if (k == 0) s.push_back(make_nalu(c.src, codec, 'U', o, 3));
      if (k == 1) s.push_back(make_nalu(c.src, codec, 'z', o, 3));
      if (k >= 2) {
        // SEI with the right UUID but another payload type, a truncated one, or one bit wrong.
        Nalu z;
        z.t = 'z';
        z.gop = -1;
        Bytes raw;
        if (codec == SV_CODEC_H264) raw = {0x06};
        else raw = {0x4e, 0x01};
        int m = (int)c.src.draw(3);
        Bytes pay(kSvUuid, kSvUuid + 16);
        pay.push_back((uint8_t)c.src.draw(256));
        Bytes rest = rnd_bytes(c.src, c.src.draw(40));
        pay.insert(pay.end(), rest.begin(), rest.end());
        int type = 5;
        if (m == 0) type = c.src.coin() ? 4 : 6;
        if (m == 1) pay.resize(c.src.draw(17));
        if (m == 2) pay[c.src.draw(16)] ^= (uint8_t)(1 << c.src.draw(8));
        raw.push_back((uint8_t)type);
        raw.push_back((uint8_t)pay.size());
        Bytes e = epb_apply(pay);
        raw.insert(raw.end(), e.begin(), e.end());
        raw.push_back(0x80);
        z.d = {0, 0, 0, 1};
        z.d.insert(z.d.end(), raw.begin(), raw.end());
        s.push_back(z);
      }
      odd++;
    }
    s.push_back(n);
  }
  const std::string *pk = c.src.coin() ? &key_by_name("ec256_0").pub : nullptr;
  c.note("%s %s%s", codec == SV_CODEC_H264 ? "h264" : "h265", types(s).c_str(), pk ? " with user key" : "");
  Validation v = validate(s, codec, pk);
  std::string sum = step_summary(s, v);
  size_t step = 0;
  int seen_i = 0, pics = 0;
  for (size_t i = 0; i < s.size(); i++) {
    c.require(v.rc[i] == SV_OK, "adding NALU %zu of an unsigned stream returned %d\n%s", i, v.rc[i], sum.c_str());
    if (s[i].pic()) pics++;
    if (s[i].t == 'I') seen_i++;
    bool rep = step < v.steps.size() && v.steps[step].idx == (int)i;
    if (s[i].t == 'I' && seen_i >= 2) c.require(rep, "no report at I-frame %zu of an unsigned stream\n%s", i, sum.c_str());
    if (!rep) continue;
    const Report &r = v.steps[step++].r;
    c.require(r.auth == SV_AUTH_RESULT_NOT_SIGNED, "unsigned stream reported as %s\n%s", auth_name(r.auth), sum.c_str());
    c.require(r.acc_auth == SV_AUTH_RESULT_NOT_SIGNED, "unsigned stream accumulated as %s\n%s", auth_name(r.acc_auth), sum.c_str());
    c.require(r.vstr.find_first_of(".NME") == std::string::npos, "NALUs of an unsigned stream validated\n%s", sum.c_str());
    c.require(r.pending == pics, "%d pictures, but %d pending\n%s", pics, r.pending, sum.c_str());
    c.require(r.acc_validated == 0 && r.acc_received == i + 1 && r.acc_pending == i + 1, "wrong accumulated counts at %zu\n%s", i, sum.c_str());
    c.require(!r.keychg && !r.acc_keychg && !r.has_ts, "key change or timestamp in an unsigned stream\n%s", sum.c_str());
  }
  c.require(v.final && v.final->acc_auth == SV_AUTH_RESULT_NOT_SIGNED, "unsigned stream ends as signed\n%s", sum.c_str());
  if (seen_i >= 2 && odd) c.nontrivial();
  c.label(strf("gops=%d odd=%d", seen_i, std::min(odd, 4)));
}

// ---- P09 -------------------------------------------------------------------------------------------
PROPERTY(P09, "A segment starting at a random GOP start and ending anywhere is cut from a signed stream; non-trivial when it does not start at the beginning and holds at least two SEIs.") {
  CfgOpts co;
  co.info = c.src.chance(1, 8);
  SignCfg cfg = gen_cfg(c.src, co);
  GenOpts o;
  o.min_gops = 4;
  o.max_gops = 9;
  o.max_gop_len = 5;
  o.max_body = 40;
  Stream in = gen_stream(c.src, cfg.codec, o);
  set_ts(c, in);
  Stream a = sign_stream(c, cfg, in, c.src.coin() ? PULL_PEEK : PULL_AFTER);
  std::vector<int> starts;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].t == 'I') starts.push_back((int)i);
  int k = (int)c.src.draw(starts.size() - 1);
  int from = starts[k];
  if (c.src.coin())
    while (from > 0 && (a[from - 1].t == 'v' || a[from - 1].t == '_')) from--;
  int to = (int)a.size() - (c.src.coin() ? (int)c.src.draw(a.size() - from) : 0);
  Stream s(a.begin() + from, a.begin() + to);
  int user = (int)c.src.draw(2);
  const std::string *uk = user ? &key_by_name(cfg.key).pub : nullptr;
  // GOPs whose SEI is in the segment.
  std::vector<int> gs;
  for (auto &n : s)
    if (n.t == 'S') gs.push_back(n.gop);
  // First SEI with recurrent data.
  int first_key = -1;
  bool first_crypto = false;
  for (size_t j = 0; j < gs.size(); j++) {
    WireSei w = parse_sei(s[find_sei(s, gs[j])].d, cfg.codec, cfg.sei_epb);
    c.require(w.ok, "cannot parse SEI: %s", w.err.c_str());
    if (w.find(TAG_PUBKEY) && first_key < 0) first_key = (int)j;
    if (j == 0) first_crypto = w.find(TAG_CRYPTO);
  }
  // With a key set by the user and no hash algorithm in the first SEI the default one is assumed (documented).
  bool default_hash = cfg.hash.empty() || cfg.hash == "sha256" || cfg.hash == "SHA256" || cfg.hash == "2.16.840.1.101.3.4.2.1";
  if (user && !first_crypto && !default_hash) return;
  if (user) first_key = 0;
  c.note("%s user=%d from GOP %d: %s", cfg.str().c_str(), user, k, types(s).c_str());
  Validation v = validate(s, cfg.codec, uk);
  std::string sum = step_summary(s, v);
  Marks mk = align_marks(s, v);
  c.require(mk.err.empty(), "%s", mk.err.c_str());
  for (size_t i = 0; i < s.size(); i++) {
    c.require(v.rc[i] == SV_OK || (first_key < 0 || (int)i < find_sei(s, gs[first_key])), "adding NALU %zu returned %d\n%s", i, v.rc[i], sum.c_str());
    c.require(mk.per_nalu[i].find_first_of("NE") == std::string::npos, "NALU %zu of an untouched segment marked %s\n%s", i, mk.per_nalu[i].c_str(), sum.c_str());
  }
  for (int m : mk.missing_per_step) c.require(m == 0, "NALUs of an untouched segment marked as missing\n%s", sum.c_str());
  int n_ok = 0;
  for (size_t j = 0; j < gs.size(); j++) {
    int g = gs[j], si = find_sei(s, g);
    const Report *r = report_at(v, si);
    bool in_seg = g >= k;
    if (first_key < 0 || (int)j < first_key) {
      c.require(!r || r->auth == SV_AUTH_RESULT_SIGNATURE_PRESENT, "no key yet, but %s at SEI of GOP %d\n%s", rep_auth(r), g, sum.c_str());
      continue;
    }
    c.require(r != nullptr, "no report at SEI of GOP %d\n%s", g, sum.c_str());
    // GOPs validated at this SEI: the ones since the last one.
    int exp = 0, cnt = 0;
    for (size_t q = ((int)j == first_key ? 0 : j); q <= j; q++)
      if (gs[q] >= k) {
        exp += (int)pics_of(s, gs[q]).size();
        cnt++;
      }
    if (!cnt) {
      c.require(r->auth == SV_AUTH_RESULT_SIGNATURE_PRESENT, "the SEI belonging to the GOP before the segment gives %s\n%s", auth_name(r->auth), sum.c_str());
      continue;
    }
    (void)in_seg;
    c.require(r->auth == SV_AUTH_RESULT_OK, "GOP %d of the segment reported as %s\n%s", g, auth_name(r->auth), sum.c_str());
    if ((int)j > first_key || first_key == 0)
      c.require(r->expected == exp && r->received == exp, "GOP %d of the segment: %d pictures but %d expected and %d received\n%s", g, exp, r->expected, r->received, sum.c_str());
    for (size_t q = ((int)j == first_key ? 0 : j); q <= j; q++)
      if (gs[q] >= k)
        for (int p : pics_of(s, gs[q])) c.require(mk.per_nalu[p].find('.') != std::string::npos, "picture %d of GOP %d not marked as authentic\n%s", p, gs[q], sum.c_str());
    n_ok += cnt;
  }
  if (n_ok) c.require(v.final->acc_auth == SV_AUTH_RESULT_OK, "untouched segment ends as %s\n%s", auth_name(v.final->acc_auth), sum.c_str());
  if (k > 0 && n_ok >= 1) c.nontrivial();
  c.label(strf("cut=%d late key=%d", k > 0, first_key > 0));
}

// ---- P10 -------------------------------------------------------------------------------------------
PROPERTY(P10, "The signing SEIs of a signed stream are delayed by a random order-preserving schedule; non-trivial when at least one SEI is moved across a picture.") {
  Base b = make_base(c, 3, 8, true, 5);
  // Positions without the SEIs.
  Stream base;
  std::vector<std::pair<Nalu, int>> seis;  // SEI, index in |base| before which it is placed
  for (auto &n : b.s) {
    if (n.t == 'S') seis.push_back({n, (int)base.size()});
    else base.push_back(n);
  }
  int maxd = c.src.range(1, 20), last = 0, moved = 0;
  for (auto &x : seis) {
    int d = c.src.chance(2, 3) ? (int)c.src.draw(maxd + 1) : 0;
    int p = std::min((int)base.size(), std::max(last, x.second + d));
    if (p != x.second) moved++;
    x.second = p;
    last = p;
  }
  Stream s;
  size_t q = 0;
  for (int i = 0; i <= (int)base.size(); i++) {
    while (q < seis.size() && seis[q].second == i) s.push_back(seis[q++].first);
    if (i < (int)base.size()) s.push_back(base[i]);
  }
  c.note("%s moved=%d %s", b.cfg.str().c_str(), moved, types(s).c_str());
  Validation v = validate(s, b.cfg.codec);
  std::string sum = step_summary(s, v);
  Marks mk = align_marks(s, v);
  c.require(mk.err.empty(), "%s", mk.err.c_str());
  for (int m : mk.missing_per_step) c.require(m == 0, "NALUs marked as missing because of late SEIs\n%s", sum.c_str());
  for (size_t i = 0; i < s.size(); i++)
    c.require(mk.per_nalu[i].find_first_of("NE") == std::string::npos, "NALU %zu marked %s because of late SEIs\n%s", i, mk.per_nalu[i].c_str(), sum.c_str());
  for (int g = 0; g < b.n; g++) {
    int si = find_sei(s, g);
    const Report *r = report_at(v, si);
    c.require(r != nullptr, "no report when the SEI of GOP %d arrives\n%s", g, sum.c_str());
    c.require(r->auth == SV_AUTH_RESULT_OK, "GOP %d reported as %s when its SEI arrives late\n%s", g, auth_name(r->auth), sum.c_str());
    int n = (int)pics_of(s, g).size();
    c.require(r->expected == n && r->received == n, "GOP %d has %d pictures, reported %d expected and %d received\n%s", g, n, r->expected, r->received, sum.c_str());
    for (int p : pics_of(s, g)) c.require(mk.last[p] == '.', "picture %d of GOP %d not marked authentic\n%s", p, g, sum.c_str());
  }
  for (auto &st : v.steps)
    if (s[st.idx].t != 'S')
      c.require(st.r.auth <= SV_AUTH_RESULT_SIGNATURE_PRESENT, "report %s without an SEI\n%s", auth_name(st.r.auth), sum.c_str());
  c.require(v.final->acc_auth == SV_AUTH_RESULT_OK, "stream with late SEIs ends as %s\n%s", auth_name(v.final->acc_auth), sum.c_str());
  if (moved) c.nontrivial();
  c.label(strf("moved=%d", std::min(moved, 6)));
}

// ---- P11 -------------------------------------------------------------------------------------------
static char type_char(SignedVideoCodec codec, const Nalu &n) {
  (void)codec;
  switch (n.t) {
    case 'I': case 'i': case 'P': case 'p': case '_': case 'v': case 'o': case 'U': case 'z': case 'S': case 'G': return n.t;
  }
  return 0;
}
// Damages a stream at random; returns a description.
std::string damage_stream(Ctx &c, SignedVideoCodec codec, Stream &s, int ops) {
  std::string what;
  GenOpts o;
  for (int k = 0; k < ops && s.size() > 2; k++) {
    int op = (int)c.src.draw(9);
    size_t i = c.src.draw(s.size());
    switch (op) {
      case 0:
        what += strf(" drop%zu", i);
        s.erase(s.begin() + i);
        break;
      case 1: {
        Nalu x = s[i];
        s.insert(s.begin() + c.src.draw(s.size() + 1), x);
        what += strf(" copy%zu", i);
        break;
      }
      case 2: {
        size_t j = c.src.draw(s.size());
        std::swap(s[i], s[j]);
        what += strf(" swap%zu,%zu", i, j);
        break;
      }
      case 3: {
        Nalu &n = s[i];
        if (n.d.size() > 6) n.d[6 + c.src.draw(n.d.size() - 6)] ^= (uint8_t)(1 + c.src.draw(255));
        n.tampered = true;
        what += strf(" mod%zu", i);
        break;
      }
      case 4:
        s.insert(s.begin() + i, make_nalu(c.src, codec, "IPiPvz_oU"[c.src.draw(9)], o, 5000 + k));
        what += strf(" ins%zu", i);
        break;
      case 5: {
        size_t n = 1 + c.src.draw(std::min<size_t>(6, s.size() - i));
        s.erase(s.begin() + i, s.begin() + i + n);
        what += strf(" drop%zu-%zu", i, i + n - 1);
        break;
      }
      case 6: {  // move
        Nalu x = s[i];
        s.erase(s.begin() + i);
        size_t j = c.src.draw(s.size() + 1);
        s.insert(s.begin() + j, x);
        what += strf(" move%zu-%zu", i, j);
        break;
      }
      case 7: {  // drop an SEI
        for (size_t j = 0; j < s.size(); j++) {
          size_t q = (i + j) % s.size();
          if (s[q].t == 'S') {
            s.erase(s.begin() + q);
            what += strf(" dropS%zu", q);
            break;
          }
        }
        break;
      }
      case 8: {  // damage an SEI
        for (size_t j = 0; j < s.size(); j++) {
          size_t q = (i + j) % s.size();
          if (s[q].t == 'S') {
            s[q].d[24 + c.src.draw(s[q].d.size() - 24)] ^= (uint8_t)(1 << c.src.draw(8));
            s[q].tampered = true;
            what += strf(" modS%zu", q);
            break;
          }
        }
        break;
      }
    }
  }
  return what;
}

PROPERTY(P11, "A signed stream, or two after another, is damaged by up to eight random operations on any NAL Unit; non-trivial when at least three reports are given.") {
  const bool very = c.src.chance(1, 1000);
  Base b = very ? make_base(c, 256, 260, true, 2) : make_base(c, 3, 8, true, 5);
  Stream s = b.s;
  if (very) {
    s.clear();
    for (auto &n : b.s) {
      s.push_back(n);
      if (n.t == 'I') s.insert(s.end(), 256, plain_nalu(b.cfg.codec, 'v', 0));
    }
    c.label("very many NAL Units");
  } else if (c.src.chance(1, 8)) {
    Base b2 = make_base(c, 3, 5, true, 4);
    if (b2.cfg.codec == b.cfg.codec) s.insert(s.end(), b2.s.begin(), b2.s.end());
  }
  std::string what = damage_stream(c, b.cfg.codec, s, very ? 0 : (int)c.src.draw(9));
  if (s.empty()) return;
  if (c.src.chance(1, 250)) {  // more NAL Units than fit in small counters
    size_t at = c.src.draw(s.size() + 1);
    s.insert(s.begin() + at, 300, plain_nalu(b.cfg.codec, 'v', 0));
    what += "+300 others";
    c.label("many NAL Units");
  }
  const std::string *uk = c.src.chance(1, 4) ? &key_by_name(b.cfg.key).pub : nullptr;
  c.note("%s%s %s", b.cfg.str().c_str(), what.c_str(), types(s).substr(0, 300).c_str());
  Validation v = validate(s, b.cfg.codec, uk);
  std::string sum = step_summary(s, v).substr(0, 20000);
  std::vector<char> prev(s.size(), 0);
  int prev_m = 0;  // 'M' left in the list after the previous report
  int acc = SV_AUTH_RESULT_NOT_SIGNED;
  bool acc_chg = false, acc_ts = false;
  int64_t first_ts = 0;
  unsigned acc_val = 0;
  int uncounted = 0;
  bool err_seen = false;
  size_t rc_pos = 0;
  int prev_idx = -1;
  for (auto &st : v.steps) {
    const Report &r = st.r;
    auto at = [&] { return strf("at NALU %d: %s\n%s", st.idx, r.str().c_str(), sum.c_str()); };
    c.require(r.vstr.size() == r.nstr.size(), "the strings differ in length %s", at().c_str());
    c.require(!r.vstr.empty(), "empty strings %s", at().c_str());
    // Align from the end.
    int idx = st.idx, miss = 0, pend = 0;
    int newbad = 0, newok = 0;
    for (int k = (int)r.vstr.size() - 1; k >= 0; k--) {
      char ch = r.vstr[k], ty = r.nstr[k];
      c.require(strchr(".NMPU_E", ch) != nullptr, "unknown mark %c %s", ch, at().c_str());
      c.require((ch == 'M') == (ty == ' '), "missing and blank do not go together %s", at().c_str());
      if (ch == 'M') {
        miss++;
        continue;
      }
      c.require(idx >= 0, "more characters than NALUs %s", at().c_str());
      const Nalu &n = s[idx];
      if (!n.tampered) {
        char w = type_char(b.cfg.codec, n);
        c.require(!w || w == ty, "NALU %d of type %c shown as %c %s", idx, w, ty, at().c_str());
        if (!n.pic() && !n.sei()) c.require(ch == '_' || ch == 'U' || ch == 'E', "NALU %d of type %c, which is not validated, marked %c %s", idx, n.t, ch, at().c_str());
      }
      if (ch == 'P') pend++;
      char p = prev[idx];
      c.require(p == 0 || p == 'P' || p == ch || ty == 'G', "NALU %d changed from %c to %c %s", idx, p, ch, at().c_str());
      if (p == 0 || p == 'P') {
        // The error was given as return code for a SEI that could not be decoded.
        if (ch == 'N' || (ch == 'E' && v.rc[idx] == SV_OK)) newbad++;
        if (ch == '.' && n.pic()) newok++;
      }
      prev[idx] = ch;
      idx--;
    }
    // What was validated in a call that failed is not reported, but accumulated.
    bool hidden = false;
    for (int k = prev_idx + 1; k <= st.idx; k++) hidden |= v.rc[k] != SV_OK;
    prev_idx = st.idx;
    // Everything before has been validated before.
    int newmiss = hidden ? std::max(0, miss - prev_m) : miss - prev_m;
    c.require(newmiss >= 0, "missing NALUs vanished %s", at().c_str());
    if (r.auth == SV_AUTH_RESULT_OK) {
      c.require(newbad == 0, "authentic in spite of %d manipulated NALUs %s", newbad, at().c_str());
      c.require(newmiss == 0, "authentic in spite of %d missing NALUs %s", newmiss, at().c_str());
      c.require(newok > 0, "authentic but no picture was validated %s", at().c_str());
      c.require(!r.keychg, "authentic in spite of a changed key %s", at().c_str());
      // Unknown (-1) if the report also covers a GOP that could not be validated.
      c.require(r.expected < 0 || (r.expected == r.received && r.received == newok), "authentic with %d expected, %d received and %d validated pictures %s", r.expected, r.received, newok, at().c_str());
    }
    if (r.auth == SV_AUTH_RESULT_OK_WITH_MISSING_INFO) {
      c.require(newbad == 0, "authentic with missing info in spite of %d manipulated NALUs %s", newbad, at().c_str());
      c.require(newmiss > 0, "authentic with missing info, but none missing %s", at().c_str());
    }
    if (r.auth == SV_AUTH_RESULT_NOT_SIGNED) c.require(newbad + newmiss + newok == 0, "not signed, but validated %s", at().c_str());
    c.require(r.pending == pend, "%d pending marks, but %d pending NALUs %s", pend, r.pending, at().c_str());
    // Accumulated.
    if (hidden && r.acc_auth >= SV_AUTH_RESULT_NOT_OK && (acc <= SV_AUTH_RESULT_SIGNATURE_PRESENT || r.acc_auth < acc)) acc = r.acc_auth;
    if (hidden) acc_chg |= r.acc_keychg;
    if (hidden && !acc_ts && r.acc_has_ts) acc_ts = true, first_ts = r.acc_first;
    acc = acc <= SV_AUTH_RESULT_SIGNATURE_PRESENT ? r.auth : acc == SV_AUTH_RESULT_NOT_OK ? acc : std::min(acc, r.auth);
    acc_chg |= r.keychg;
    c.require(r.acc_auth == acc, "accumulated result is %s, should be %s %s", auth_name(r.acc_auth), auth_name(acc), at().c_str());
    c.require(r.acc_keychg == acc_chg, "accumulated key change %d, should be %d %s", r.acc_keychg, acc_chg, at().c_str());
    c.require(r.acc_received == (unsigned)st.idx + 1, "%d NALUs added, %u received %s", st.idx + 1, r.acc_received, at().c_str());
    c.require(r.acc_validated >= acc_val, "number of validated NALUs decreased %s", at().c_str());
    acc_val = r.acc_validated;
    if (r.has_ts) {
      if (!acc_ts) first_ts = r.ts;
      acc_ts = true;
      c.require(r.acc_has_ts && r.acc_first == first_ts && r.acc_last == r.ts, "accumulated timestamps wrong %s", at().c_str());
    }
    size_t fp = r.vstr.find('P');
    int left = 0;
    prev_m = 0;
    if (fp != std::string::npos) {
      prev_m = (int)std::count(r.vstr.begin() + fp, r.vstr.end(), 'M');
      left = (int)(r.vstr.size() - fp) - prev_m;
    }
    // NALUs that need no validation and come before the first picture are not counted while the stream is unsigned.
    if (r.acc_auth == SV_AUTH_RESULT_NOT_SIGNED) uncounted += (int)r.vstr.size() - left;
    if (r.acc_auth != SV_AUTH_RESULT_NOT_SIGNED)
      c.require(r.acc_validated + left <= r.acc_received && r.acc_validated + left + uncounted >= r.acc_received, "%u validated and %d left of %u received %s", r.acc_validated, left, r.acc_received, at().c_str());
    for (; rc_pos <= (size_t)st.idx; rc_pos++) err_seen |= v.rc[rc_pos] != SV_OK;
    c.require(err_seen || r.acc_validated + r.acc_pending <= r.acc_received, "%u validated and %u pending of %u received %s", r.acc_validated, r.acc_pending, r.acc_received, at().c_str());
  }
  c.require(v.final && v.final->acc_received == s.size(), "wrong number of received NALUs in the end\n%s", sum.c_str());
  // A validation that failed half-way may have left marks of missing NALUs among the pending ones.
  bool errors = std::any_of(v.rc.begin(), v.rc.end(), [](int x) { return x != SV_OK; });
  c.require(errors || v.final->acc_validated + v.final->acc_pending <= s.size(), "validated and pending do not add up in the end\n%s", sum.c_str());
  bool hidden = false;
  for (size_t k = prev_idx + 1; k < s.size(); k++) hidden |= v.rc[k] != SV_OK;
  if (hidden && (acc <= SV_AUTH_RESULT_SIGNATURE_PRESENT || v.final->acc_auth < acc)) acc = v.final->acc_auth;
  c.require(v.final->acc_auth == acc, "final accumulated result differs from the last one\n%s", sum.c_str());
  if (!very && c.src.chance(1, 4)) {
    // Reports that are not asked for do not change the others.
    Validator w(b.cfg.codec, uk);
    size_t at = 0;
    const int den = c.src.range(1, 4);
    int left_out = 0;
    for (size_t k = 0; k < s.size(); k++) {
      const bool ask = (int)c.src.draw(den + 1) == 0;
      std::optional<Report> r;
      int rc = w.add(s[k].d, ask ? &r : nullptr);
      const Report *q = nullptr;
      if (at < v.steps.size() && v.steps[at].idx == (int)k) q = &v.steps[at++].r;
      c.require(rc == v.rc[k], "NALU %zu gives %d if some reports are not asked for, otherwise %d\n%s", k, rc, v.rc[k], sum.c_str());
      if (!ask) {
        left_out += q != nullptr;
        continue;
      }
      c.require(!!r == !!q && (!q || *r == *q), "the report at NALU %zu is %s if some reports are not asked for\n%s", k, r ? r->str().c_str() : "absent", sum.c_str());
    }
    signed_video_authenticity_t *a = signed_video_get_authenticity_report(w.sv);
    c.require(a != nullptr, "no final report");
    Report fin = copy_report(a);
    signed_video_authenticity_report_free(a);
    c.require(fin == *v.final, "the final report is %s if some reports are not asked for\n%s", fin.str().c_str(), sum.c_str());
    if (left_out) c.label("reports not asked for");
  }
  if (v.steps.size() >= 3) c.nontrivial();
  c.label(auth_name(acc));
}
