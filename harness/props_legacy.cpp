// Streams in the legacy format.
#include "auth_util.h"
#include "forge.h"
#include "hostile.h"

LegacyCfg gen_legacy_cfg(Src &s) {
  LegacyCfg l;
  l.codec = s.coin() ? SV_CODEC_H265 : SV_CODEC_H264;
  l.frame_level = !s.coin();
  static const std::vector<std::string> ks = {"ec256_0", "ec256_1", "rsa2048_0"};
  l.key = s.pick(ks);
  if (l.key[0] == 'e' && s.chance(1, 3)) l.hash = s.coin() ? "sha512" : s.coin() ? "sha384" : "sha256";
  l.epb = !s.chance(1, 3);
  l.pubkey_version = s.coin() ? 2 : 1;
  l.general_version = s.chance(1, 4) ? 1 : 2;
  l.recurrence = s.chance(1, 4) ? (unsigned)s.range(1, 5) : 1;
  if (s.coin())
    for (auto &x : l.info) x = std::string(s.draw(12), (char)('a' + s.draw(26)));
  return l;
}







static int closing_i(const Stream &s, int sei) {
  for (size_t i = sei + 1; i < s.size(); i++)
    if (s[i].t == 'I') return (int)i;
  return -1;
}

PROPERTY(P27, "A stream signed in the legacy format by an independent signer (both codecs and levels, several keys, hash algorithms and versions of the tags) is validated untouched, from a GOP in the middle, or after manipulating, removing or inserting pictures, SEIs or signature bits; non-trivial when at least two SEIs are validated and, if manipulated, the place is between them.") {
  Src &r = c.src;
  LegacyCfg l = gen_legacy_cfg(r);
  GenOpts o;
  o.min_gops = 4;
  o.max_gops = 8;
  o.max_gop_len = 6;
  o.max_body = 40;
  o.extras = r.coin();
  o.slices = r.coin();
  Stream in = gen_stream(r, l.codec, o);
  set_ts(c, in);
  int mode = r.weighted({4, 2, 6, 5});
  bool user_key = r.chance(1, 4);
  if (user_key && !l.hash.empty() && l.recurrence > 1) l.recurrence = 1;
  if (user_key && r.coin()) l.pubkey = false;
  LegacySigner ls(l);
  if (r.chance(1, 6)) ls.counter = gen_age(r) / l.recurrence * l.recurrence;
  const uint32_t first_counter = ls.counter;
  Stream full = ls.sign(in), s = full;
  const std::string *pk = user_key ? &key_by_name(l.key).pub : nullptr;
  int n = num_seis(full);
  c.note("legacy %s %s key=%s hash=%s epb=%d pub=%d gv=%d pv=%d rec=%u userkey=%d", l.codec == SV_CODEC_H264 ? "H264" : "H265", l.frame_level ? "frame" : "gop", l.key.c_str(), l.hash.c_str(), l.epb, l.pubkey, l.general_version, l.pubkey_version, l.recurrence, user_key);
  bool bad_start = mode >= 2 && r.chance(1, 5);
  if (bad_start) {
    // The SEI of the start of the stream cannot be verified; what follows can.
    int k = find_sei(s, -1);
    WireSei w = parse_sei(s[k].d, l.codec, l.epb);
    c.require(w.ok, "harness: %s", w.err.c_str());
    s[k].d[w.raw[w.sig_pos + w.sig_len / 2]] ^= 0x10;
    c.note("first SEI invalid");
  }
  auto pics_between = [&](const Stream &t, int sei) {  // the pictures signed by it, closing I-frame included
    int k = closing_i(t, sei), m = 1;
    for (int i = k - 1; i >= 0; i--) {
      m += t[i].pic();
      if (t[i].t == 'I') break;
    }
    return m;
  };
  if (mode <= 1) {
    int first = 0, g0 = 0;
    if (mode == 1) {
      // A segment that starts with the SEI in front of an I-frame.
      g0 = r.range(1, n - 2);
      while (s[first].t != 'I' || s[first].gop != g0) first++;
      while (!s[first].sei()) first--;
      s.erase(s.begin(), s.begin() + first);
    }
    c.note("%s %s", mode ? "segment" : "whole", types(s).c_str());
    Validation v = validate(s, l.codec, pk);
    std::string sum = step_summary(s, v);
    int oks = 0, want = 0, missing_rec = 0;
    bool have_data = user_key || l.recurrence == 1;
    if (mode == 1 && !have_data) return;  // validation starts when the recurrent data arrives
    for (size_t i = 0; i < s.size(); i++) c.require(v.rc[i] == SV_OK, "NALU %zu: return code %d\n%s", i, v.rc[i], sum.c_str());
    bool started = mode == 0;
    for (size_t i = 0; i < s.size(); i++) {
      if (!s[i].sei()) continue;
      int k = closing_i(s, (int)i);
      c.require(k >= 0, "harness: no closing I-frame");
      const Report *q = report_at(v, k);
      bool lead = mode == 1 && s[i].gop < g0;  // signs what comes before the segment
      c.require(q != nullptr, "no report at NALU %d\n%s", k, sum.c_str());
      if (lead) {
        c.require(q->auth == SV_AUTH_RESULT_SIGNATURE_PRESENT, "%s at the start of a segment\n%s", auth_name(q->auth), sum.c_str());
        continue;
      }
      want++;
      int m = pics_between(s, (int)i);
      c.require(q->auth == SV_AUTH_RESULT_OK && q->acc_auth == SV_AUTH_RESULT_OK, "NALU %d: %s, accumulated %s\n%s", k, auth_name(q->auth), auth_name(q->acc_auth), sum.c_str());
      if (l.frame_level) c.require(q->expected == m && q->received == m, "NALU %d: expected %d received %d, should be %d\n%s", k, q->expected, q->received, m, sum.c_str());
      if (l.general_version >= 2) c.require(q->has_ts == s[k].has_ts && (!q->has_ts || q->ts == s[k].ts), "NALU %d: wrong timestamp\n%s", k, sum.c_str());
      else c.require(!q->has_ts, "NALU %d: timestamp from nowhere\n%s", k, sum.c_str());
      for (int z = 0; (mode == 0 || l.recurrence == 1) && z < 5; z++) c.require(q->info[z].value_or("") == l.info[z], "product information %d: %s\n%s", z, q->info[z].value_or("(none)").c_str(), sum.c_str());
      c.require(!q->keychg, "key changed\n%s", sum.c_str());
      (void)missing_rec; (void)oks; (void)started;
    }
    for (auto &st : v.steps) {
      c.require(st.r.auth == SV_AUTH_RESULT_OK || st.r.auth == SV_AUTH_RESULT_SIGNATURE_PRESENT || st.r.auth == SV_AUTH_RESULT_NOT_SIGNED, "report %s\n%s", auth_name(st.r.auth), sum.c_str());
      for (char ch : st.r.vstr) c.require(strchr(mode == 1 && st.r.auth == SV_AUTH_RESULT_SIGNATURE_PRESENT ? ".P_UN" : ".P_", ch), "mark %c\n%s", ch, sum.c_str());
    }
    if (want >= 2) c.nontrivial();
    c.label(mode ? "segment" : "whole");
    return;
  }
  // Makes |s| a segment that starts with the SEI in front of an I-frame, at least one whole GOP before |g|.
  bool keyless = false;  // the key of the signer may be missing in the segment
  auto maybe_segment = [&](int g) {
    if (g < 2 || bad_start || !r.chance(1, 4)) return;
    int g0 = r.range(1, g - 1), first = 0;
    while (s[first].t != 'I' || s[first].gop != g0) first++;
    while (!s[first].sei()) first--;
    s.erase(s.begin(), s.begin() + first);
    bad_start = true;
    keyless = !(user_key || l.recurrence == 1);
    c.note("segment from GOP %d", g0);
  };
  if (mode == 2) {
    // Pictures of a GOP after the first and before the last signed one.
    int ops = r.chance(1, 4) ? 2 : 1;
    if (n - 3 - ops < 1) return;
    int g = r.range(1, n - 3 - ops);
    maybe_segment(g);
    const Stream before = s;
    std::string what;
    bool drop = false;
    size_t dropped = 0;
    int first_drop = 0;
    if (l.frame_level && !bad_start && r.chance(1, 3)) {
      // Changed content of non-leading pictures only: the marks are known exactly.
      auto ps = pics_of(s, g);
      std::set<int> bad;
      for (size_t q = 1; q < ps.size(); q++)
        if (r.coin()) {
          Bytes &d = s[ps[q]].d;
          size_t lo = s[ps[q]].sc() + 4;
          if (d.size() <= lo) continue;
          d[lo + r.draw(d.size() - lo)] ^= (uint8_t)(1u << r.draw(8));
          if (d.back() == 0) d.back() = 0x55;
          bad.insert(ps[q]);
        }
      if (bad.empty()) return;
      c.note("pinpoint gop=%d %s", g, types(s).c_str());
      Validation v = validate(s, l.codec, pk);
      std::string sum = step_summary(s, v);
      Marks mk = align_marks(s, v);
      c.require(mk.err.empty(), "%s", mk.err.c_str());
      for (size_t i = 0; i < s.size(); i++) {
        if (!s[i].pic() || find_sei(s, s[i].gop) < 0) continue;
        char want = bad.count((int)i) ? 'N' : '.';
        c.require(mk.last[i] == want, "NALU %zu is '%c' but should be '%c'\n%s", i, mk.last[i] ? mk.last[i] : '?', want, sum.c_str());
      }
      for (int q = 0; find_sei(s, q) >= 0; q++) {
        const Report *p = report_at(v, closing_i(s, find_sei(s, q)));
        c.require(p && p->auth == (q == g ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK), "GOP %d is %s\n%s", q, p ? auth_name(p->auth) : "not reported", sum.c_str());
      }
      c.require(v.final->acc_auth == SV_AUTH_RESULT_NOT_OK, "accumulated %s\n%s", auth_name(v.final->acc_auth), sum.c_str());
      c.nontrivial();
      c.label("pinpoint");
      return;
    }
    drop = r.chance(1, 4);
    if (drop) {
      auto ps = pics_of(s, g);
      std::set<int> rm;
      int cnt = r.range(1, (int)std::min<size_t>(3, ps.size()));
      for (int q = 0; q < cnt; q++) rm.insert(ps[r.draw(ps.size())]);
      dropped = rm.size();
      first_drop = *rm.begin() == ps[0] ? 0 : 1;
      for (auto it = rm.rbegin(); it != rm.rend(); ++it) what += strf("drop@%d ", *it), s.erase(s.begin() + *it);
    } else {
      what = tamper_gop(c, l.codec, full, s, g, ops);
    }
    if (what.empty()) return;
    std::set<Bytes> genuine;
    std::vector<Bytes> a, d;
    for (auto &x : before)
      if (x.pic()) a.push_back(picture_bytes(x.d));
    for (auto &x : full)
      if (x.pic()) genuine.insert(picture_bytes(x.d));
    for (auto &x : s)
      if (x.pic() && is_pic_type(l.codec, x.d)) d.push_back(picture_bytes(x.d));
    if (a == d) return;
    c.note("pictures %s gop=%d %s", what.c_str(), g, types(s).c_str());
    Validation v = validate(s, l.codec, pk);
    std::string sum = step_summary(s, v);
    Marks mk = align_marks(s, v);
    c.require(mk.err.empty(), "%s", mk.err.c_str());
    for (size_t i = 0; i < s.size(); i++)
      if (s[i].pic() && is_pic_type(l.codec, s[i].d) && !genuine.count(picture_bytes(s[i].d)))
        c.require(mk.per_nalu[i].find('.') == std::string::npos, "manipulated NALU %zu marked authentic [%s]\n%s", i, mk.per_nalu[i].c_str(), sum.c_str());
    c.require(v.final->acc_auth != SV_AUTH_RESULT_OK, "manipulated stream accepted\n%s", sum.c_str());
    if (drop && l.frame_level && first_drop > 0 && !bad_start) {
      // Lost pictures other than the I-frame: counted exactly, and no other GOP suffers.
      for (int q = 0; find_sei(full, q) >= 0; q++) {
        int at = find_sei(s, q), m = pics_between(full, find_sei(full, q));
        const Report *p = report_at(v, closing_i(s, at));
        int lost = q == g ? (int)dropped : 0;
        c.require(p && p->auth == (lost ? SV_AUTH_RESULT_OK_WITH_MISSING_INFO : SV_AUTH_RESULT_OK), "GOP %d is %s\n%s", q, p ? auth_name(p->auth) : "not reported", sum.c_str());
        c.require(p->expected == m && p->received == m - lost, "GOP %d: expected %d received %d, should be %d and %d\n%s", q, p->expected, p->received, m, m - lost, sum.c_str());
      }
      c.label("loss counted");
    }
    if (drop && !bad_start)
      for (int q = 0; find_sei(full, q) >= 0; q++) {
        if (q >= g - 1 && q <= g + 1) continue;
        const Report *p = report_at(v, closing_i(s, find_sei(s, q)));
        c.require(p && p->auth == SV_AUTH_RESULT_OK, "pictures of GOP %d lost, and GOP %d is %s\n%s", g, q, p ? auth_name(p->auth) : "not reported", sum.c_str());
      }
    if (drop && !l.frame_level) c.require(v.final->acc_auth == SV_AUTH_RESULT_NOT_OK, "loss on GOP level is %s\n%s", auth_name(v.final->acc_auth), sum.c_str());
    c.nontrivial();
    c.label(strf("%s %s %s", drop ? "drop" : "tamper", l.frame_level ? "frame" : "gop", auth_name(v.final->acc_auth)));
    return;
  }
  // SEIs: any bit of the signed part or of the signature, removal, exchange.
  int g = r.range(1, n - 3 < 1 ? 1 : n - 3);
  maybe_segment(g);
  int k = find_sei(s, g), op = r.weighted({6, 3, 1, 1, 1, 2});
  if (k < 0 || find_sei(s, g + 1) < 0) return;
  WireSei w = parse_sei(s[k].d, l.codec, l.epb);
  c.require(w.ok, "harness: %s", w.err.c_str());
  std::string what;
  if (op == 0) {
    size_t at = w.sc + w.hdr + r.draw(w.sig_tag_raw - w.sc - w.hdr);
    s[k].d[at] ^= (uint8_t)(1u << r.draw(8));
    what = strf("flip a bit of byte %zu of SEI %d", at, g);
  } else if (op == 1) {
    size_t at = w.raw[w.sig_pos + r.draw(w.sig_len)];
    s[k].d[at] ^= (uint8_t)(1u << r.draw(8));
    what = strf("flip a bit of byte %zu (signature) of SEI %d", at, g);
  } else if (op == 2) {
    s.erase(s.begin() + k);
    what = strf("remove SEI %d", g);
  } else if (op == 3) {
    int k2 = find_sei(s, g + 1);
    std::swap(s[k].d, s[k2].d);
    what = strf("exchange SEIs %d and %d", g, g + 1);
  } else if (op == 5) {
    // Someone with a key of their own signs the rest, perhaps with other pictures.
    LegacyCfg l2 = l;
    static const std::vector<std::string> ks = {"ec256_2", "rsa2048_1", "ec384_0"};
    l2.key = r.pick(ks);
    if (l2.key[0] == 'r') l2.hash.clear();
    l2.pubkey = r.chance(7, 8);
    Stream in2 = in;
    bool other = r.coin();
    for (auto &x : in2)
      if (other && x.t == 'P' && x.gop >= g && r.coin()) x.d.back() ^= 0x40, x.d.back() |= 1;
    LegacySigner ls2(l2);
    ls2.counter = first_counter;
    Stream f2 = ls2.sign(in2);
    // Up to the pictures of the GOP.
    int a = 0, b = 0;
    while (s[a].gop < g || s[a].t != 'I') a++;
    while (f2[b].gop < g || f2[b].t != 'I') b++;
    s.resize(a);
    s.insert(s.end(), f2.begin() + b, f2.end());
    what = strf("signed with %s%s from GOP %d on", l2.key.c_str(), other ? ", altered" : "", g);
  } else {
    s[k].d = s[find_sei(s, g - 1)].d;
    what = strf("replace SEI %d by %d", g, g - 1);
  }
  c.note("%s %s", what.c_str(), types(s).c_str());
  Validation v = validate(s, l.codec, pk);
  std::string sum = step_summary(s, v);
  bool refused = std::any_of(v.rc.begin(), v.rc.end(), [](int x) { return x != SV_OK; });
  if (op == 5 && !keyless) c.require(refused || v.final->acc_auth == SV_AUTH_RESULT_NOT_OK, "%s: %s\n%s", what.c_str(), auth_name(v.final->acc_auth), sum.c_str());
  c.require(refused || v.final->acc_auth != SV_AUTH_RESULT_OK, "%s: accepted\n%s", what.c_str(), sum.c_str());
  if ((op == 1 || op == 2) && !bad_start && !refused)
    for (int q = 0; find_sei(full, q) >= 0; q++) {
      int at = find_sei(s, q);
      if (at < 0 || q == g) continue;
      const Report *p = report_at(v, closing_i(s, at));
      // Only the GOP itself and the next, which is linked to it, suffer.
      if (q != g + 1) c.require(p && p->auth == SV_AUTH_RESULT_OK, "%s: GOP %d is %s\n%s", what.c_str(), q, p ? auth_name(p->auth) : "not reported", sum.c_str());
    }
  c.nontrivial();
  c.label(strf("sei-op%d%s %s", op, refused ? " refused" : "", auth_name(v.final->acc_auth)));
}
