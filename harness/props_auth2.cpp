// More authenticity semantics: SEI tampering, losses, localisation, GOP-level edits, keys, segments, delays.
#include "auth_util.h"

// Marks of the pictures of GOP |g|, in order and with 'M' for missing ones, in the report at NALU |idx|.
static std::string gop_marks(const Stream &s, const Report &r, int idx, int g, bool with_missing = true) {
  std::string o;
  int i = idx;
  for (int k = (int)r.vstr.size() - 1; k >= 0; k--) {
    char ch = r.vstr[k];
    if (ch == 'M') {
      if (with_missing) o += ch;
      continue;
    }
    if (i < 0) break;
    if (s[i].pic() && s[i].gop == g) o += ch;
    i--;
  }
  std::reverse(o.begin(), o.end());
  return o;
}

PROPERTY(P03, "A signed stream has one byte of one signing SEI after the first one changed, in the bytes covered by the signature (NALU header to signature tag) or in the signature value; non-trivial when the GOP and a later SEI remain.") {
  Base b = make_base(c, 4, 7, true, 5);
  Stream s = b.s;
  int g = 1 + (int)c.src.draw(b.n - 2);
  int si = find_sei(s, g);
  WireSei w = parse_sei(s[si].d, b.cfg.codec, b.cfg.sei_epb);
  c.require(w.ok, "cannot parse SEI: %s", w.err.c_str());
  bool sig = c.src.chance(1, 4);
  size_t pos;
  std::string where;
  if (sig) {
    size_t k = c.src.draw(w.sig_len);
    pos = w.raw[w.sig_pos + k];
    where = strf("signature byte %zu", k);
  } else if (c.src.chance(1, 2)) {
    // Pick a TLV first so that small ones are hit as often as big ones.
    std::vector<const Tlv *> ts;
    for (auto &t : w.tlvs)
      if (t.tag != TAG_SIGNATURE) ts.push_back(&t);
    const Tlv *t = ts[c.src.draw(ts.size())];
    size_t k = c.src.draw(t->vpos + t->v.size() - t->pos);
    // The fixed fields of the general TLV (counters, version, flags) are small; hit them as often as the hashes.
    if (t->tag == TAG_GENERAL && c.src.coin()) k = c.src.draw(t->vpos - t->pos + 11);
    pos = w.raw[t->pos + k];
    where = strf("tag %d byte %zu", t->tag, k);
  } else {
    pos = w.sc + c.src.draw(w.sig_tag_raw - w.sc);
    where = strf("byte %zu", pos);
  }
  uint8_t old = s[si].d[pos];
  s[si].d[pos] ^= c.src.coin() ? (uint8_t)(1 << c.src.draw(8)) : (uint8_t)(1 + c.src.draw(255));
  s[si].tampered = true;
  // Optionally forge the part not covered by the signature as well.
  if (c.src.chance(1, 6)) {
    const Tlv *t = w.find(TAG_SIGNATURE);
    size_t k = c.src.draw(t->vpos + t->v.size() - t->pos);
    s[si].d[w.raw[t->pos + k]] ^= (uint8_t)(1 + c.src.draw(255));
    where += strf(" + signature tlv byte %zu", k);
    if (s[si].d[pos] == old) return;
  }
  c.note("%s gop=%d %s %02x->%02x %s", b.cfg.str().c_str(), g, where.c_str(), old, s[si].d[pos], types(s).c_str());
  Validation v = validate(s, b.cfg.codec);
  std::string sum = step_summary(s, v);
  Marks mk = align_marks(s, v);
  c.require(mk.err.empty(), "%s", mk.err.c_str());
  const Report *r = report_at(v, si);
  c.require(!r || r->auth != SV_AUTH_RESULT_OK, "GOP reported authentic with a manipulated SEI (%s)\n%s", where.c_str(), sum.c_str());
  c.require(!r || r->auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "GOP reported authentic with missing info with a manipulated SEI (%s)\n%s", where.c_str(), sum.c_str());
  for (int k : pics_of(s, g))
    c.require(mk.per_nalu[k].find('.') == std::string::npos, "picture %d of the GOP marked authentic although its SEI is manipulated (%s)\n%s", k, where.c_str(), sum.c_str());
  c.require(mk.per_nalu[si].find('.') == std::string::npos, "manipulated SEI marked authentic (%s)\n%s", where.c_str(), sum.c_str());
  // An SEI turned into a golden one, with an unusable signature, is refused first at the NAL Unit after it, again and again.
  bool refused_later = false;
  for (size_t k = si + 1; k < s.size(); k++) refused_later |= v.rc[k] != SV_OK;
  c.require(refused_later || v.final->acc_auth == SV_AUTH_RESULT_NOT_OK, "stream ends as %s with a manipulated SEI (%s)\n%s", auth_name(v.final->acc_auth), where.c_str(), sum.c_str());
  c.nontrivial();
  c.label(sig ? "signature" : where.substr(0, where.find(' ', 4)));
}

PROPERTY(P04, "A random non-empty set of non-leading pictures is removed from one or two GOPs, not the first, of a signed stream, and sometimes other pictures of the same GOP are altered; non-trivial when at least one picture is removed.") {
  Base b = make_base(c, 4, 7, true, 8);
  Stream s;
  std::set<int> gs;
  gs.insert(1 + (int)c.src.draw(b.n - 1));
  if (c.src.chance(1, 4)) gs.insert(1 + (int)c.src.draw(b.n - 1));
  std::map<int, std::string> want;
  std::map<int, int> total;
  int dropped = 0;
  std::map<int, int> first;
  int den = c.src.range(1, 6);
  bool altering = c.src.chance(1, 3);
  bool burst = c.src.chance(1, 3);  // consecutive ones
  std::map<int, std::pair<int, int>> lost;
  for (int g : gs) {
    int k = (int)pics_of(b.s, g).size(), a = 1 + (int)c.src.draw(std::max(k - 1, 1));
    lost[g] = {a, a + (int)c.src.draw(std::max(k - a + 1, 1))};
  }
  size_t hl = b.cfg.codec == SV_CODEC_H264 ? 1 : 2;
  for (auto &n : b.s) {
    if (n.pic() && gs.count(n.gop)) {
      total[n.gop]++;
      int at = total[n.gop] - 1;
      bool drop = burst ? at >= lost[n.gop].first && at < lost[n.gop].second : (int)c.src.draw(den + 1) >= den;
      if (first.count(n.gop) && drop) {
        want[n.gop] += 'M';
        dropped++;
        continue;
      }
      bool alter = altering && first.count(n.gop) && c.src.chance(1, 3);
      first[n.gop] = 1;
      want[n.gop] += alter ? 'N' : '.';
      if (alter) {
        s.push_back(n);
        Bytes &d = s.back().d;
        d[n.sc() + hl + 1 + c.src.draw(3)] ^= (uint8_t)(1 << c.src.range(4, 6));
        continue;
      }
    }
    s.push_back(n);
  }
  if (!dropped) return;
  c.note("%s dropped=%d %s", b.cfg.str().c_str(), dropped, types(s).c_str());
  Validation v = validate(s, b.cfg.codec);
  std::string sum = step_summary(s, v);
  bool any = false, any_alt = false;
  for (int g = 0; g < b.n; g++) {
    int si = find_sei(s, g);
    const Report *r = report_at(v, si);
    c.require(r != nullptr, "no report at SEI of GOP %d\n%s", g, sum.c_str());
    std::string w = want.count(g) ? want[g] : std::string(pics_of(s, g).size(), '.');
    bool miss = w.find('M') != std::string::npos;
    any |= miss;
    bool alt = w.find('N') != std::string::npos;
    if (alt) {
      any_alt = true;
      c.require(r->auth == SV_AUTH_RESULT_NOT_OK, "GOP %d with altered and missing pictures reported as %s\n%s", g, auth_name(r->auth), sum.c_str());
      int rec = (int)pics_of(s, g).size();
      c.require(r->expected == (int)w.size() && r->received == rec, "%zu signed, %d received, reported %d and %d\n%s", w.size(), rec, r->expected, r->received, sum.c_str());
      if (b.cfg.level == SV_AUTHENTICITY_LEVEL_GOP) continue;
      // Between two intact pictures the numbers of altered and missing ones are right, in any order. After the last intact one
      // missing pictures cannot be told if the last one received is altered.
      std::string got = gop_marks(s, *r, si, g);
      auto runs = [](const std::string &x) {
        std::vector<std::pair<int, int>> o(1);
        for (char ch : x) {
          if (ch == '.') o.push_back({0, 0});
          if (ch == 'N') o.back().first++;
          if (ch == 'M') o.back().second++;
        }
        return o;
      };
      auto rw = runs(w), rg = runs(got);
      if (rw.back().first) rw.back().second = rg.back().second = 0;
      c.require(rw == rg, "marks of GOP %d are %s, expected %s\n%s", g, got.c_str(), w.c_str(), sum.c_str());
      continue;
    }
    if (!miss) {
      c.require(r->auth == SV_AUTH_RESULT_OK, "intact GOP %d reported as %s\n%s", g, auth_name(r->auth), sum.c_str());
      continue;
    }
    if (b.cfg.level == SV_AUTHENTICITY_LEVEL_GOP) {
      c.require(r->auth == SV_AUTH_RESULT_NOT_OK, "GOP-level: GOP %d with missing pictures reported as %s\n%s", g, auth_name(r->auth), sum.c_str());
      c.require(gop_marks(s, *r, si, g, false).find('.') == std::string::npos, "GOP-level: pictures of a failing GOP marked authentic\n%s", sum.c_str());
      c.require(r->expected == (int)w.size() && r->received == (int)pics_of(s, g).size(), "GOP-level: %zu signed, %zu received, reported %d and %d\n%s", w.size(), pics_of(s, g).size(), r->expected, r->received, sum.c_str());
    } else {
      c.require(r->auth == SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "GOP %d with missing pictures reported as %s\n%s", g, auth_name(r->auth), sum.c_str());
      int rec = (int)std::count(w.begin(), w.end(), '.');
      c.require(r->expected == (int)w.size() && r->received == rec, "%zu signed, %d received, reported %d and %d\n%s", w.size(), rec, r->expected, r->received, sum.c_str());
      std::string got = gop_marks(s, *r, si, g);
      c.require(got == w, "marks of GOP %d are %s, expected %s\n%s", g, got.c_str(), w.c_str(), sum.c_str());
      // The type string has a blank where a NALU is missing.
      c.require(r->nstr.size() == r->vstr.size(), "strings differ in length\n%s", sum.c_str());
      for (size_t k = 0; k < r->vstr.size(); k++)
        c.require((r->vstr[k] == 'M') == (r->nstr[k] == ' '), "missing NALU not blank in the type string\n%s", sum.c_str());
    }
  }
  c.require(v.final->acc_auth == (any_alt || b.cfg.level == SV_AUTHENTICITY_LEVEL_GOP ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK_WITH_MISSING_INFO), "final result %s\n%s", auth_name(v.final->acc_auth), sum.c_str());
  c.nontrivial();
  c.label(strf("%s dropped=%d", b.cfg.level == SV_AUTHENTICITY_LEVEL_GOP ? "gop" : "frame", std::min(dropped, 6)));
}

PROPERTY(P05, "The content (not the header) of a random set of non-leading pictures of one or two GOPs, not the first, of a frame-level stream is altered; non-trivial when at least one picture is altered.") {
  Base b;
  do {
    b = make_base(c, 4, 7, true, 8);
  } while (false);
  if (b.cfg.level != SV_AUTHENTICITY_LEVEL_FRAME) return;
  Stream s = b.s;
  std::set<int> gs;
  gs.insert(1 + (int)c.src.draw(b.n - 1));
  if (c.src.chance(1, 4)) gs.insert(1 + (int)c.src.draw(b.n - 1));
  std::map<int, std::string> want;
  size_t hl = b.cfg.codec == SV_CODEC_H264 ? 1 : 2;
  int den = c.src.range(1, 6), mod = 0;
  for (auto &n : s) {
    if (!n.pic() || !gs.count(n.gop)) continue;
    bool lead = want[n.gop].empty();
    size_t sc = n.sc();
    if (!lead && n.d.size() > sc + hl + 2 && (int)c.src.draw(den + 1) >= den) {
      int op = (int)c.src.draw(3);
      if (op == 0)
        n.d[sc + hl + 1 + c.src.draw(n.d.size() - sc - hl - 1)] ^= (uint8_t)(1 << c.src.draw(8));
      else if (op == 1)
        n.d.insert(n.d.end(), 1 + c.src.draw(4), (uint8_t)(1 + c.src.draw(255)));
      else
        n.d[n.d.size() - 1] ^= (uint8_t)(1 + c.src.draw(255));
      if (!n.d.back()) n.d.back() = 0x55;  // never change trailing zeros only
      n.tampered = true;
      want[n.gop] += 'N';
      mod++;
    } else
      want[n.gop] += '.';
  }
  if (!mod) return;
  c.note("%s altered=%d %s", b.cfg.str().c_str(), mod, types(s).c_str());
  // Restoring 0x55 may undo a change.
  for (size_t i = 0; i < s.size(); i++)
    if (s[i].tampered && s[i].d == b.s[i].d) return;
  Validation v = validate(s, b.cfg.codec);
  std::string sum = step_summary(s, v);
  for (int g = 0; g < b.n; g++) {
    int si = find_sei(s, g);
    const Report *r = report_at(v, si);
    c.require(r != nullptr, "no report at SEI of GOP %d\n%s", g, sum.c_str());
    bool bad = want.count(g) && want[g].find('N') != std::string::npos;
    c.require(r->auth == (bad ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK), "GOP %d (%s) reported as %s\n%s", g, bad ? "altered" : "intact", auth_name(r->auth), sum.c_str());
    if (bad) {
      std::string got = gop_marks(s, *r, si, g);
      c.require(got == want[g], "marks of GOP %d are %s, expected %s\n%s", g, got.c_str(), want[g].c_str(), sum.c_str());
      c.require(r->expected == (int)want[g].size() && r->received == (int)want[g].size(), "%zu pictures reported as %d expected, %d received\n%s", want[g].size(), r->expected, r->received, sum.c_str());
    }
  }
  c.require(v.final->acc_auth == SV_AUTH_RESULT_NOT_OK, "final result %s\n%s", auth_name(v.final->acc_auth), sum.c_str());
  c.nontrivial();
  c.label(strf("altered=%d", std::min(mod, 6)));
}

// ---- GOP-level edits --------------------------------------------------------------------------------
// The stream as a list of blocks: block k starts at the k'th primary I slice (or before, with its parameter sets) and
// holds everything up to the next one. SEI of GOP k is in block k+1.
static std::vector<Stream> blocks_of(const Stream &s) {
  std::vector<Stream> r(1);
  for (size_t i = 0; i < s.size(); i++) {
    // Parameter sets and delimiters before an I-frame go with it.
    if (s[i].t == 'I') {
      Stream pre;
      bool first = r.size() == 1 && std::none_of(r[0].begin(), r[0].end(), [](const Nalu &n) { return n.pic(); });
      if (first) {
        r.back().push_back(s[i]);
        continue;
      }
      while (!r.back().empty() && (r.back().back().t == 'v' || r.back().back().t == '_')) {
        pre.insert(pre.begin(), r.back().back());
        r.back().pop_back();
      }
      r.emplace_back();
      r.back() = pre;
    }
    r.back().push_back(s[i]);
  }
  return r;
}
static Stream join(const std::vector<Stream> &b) {
  Stream s;
  for (auto &x : b) s.insert(s.end(), x.begin(), x.end());
  return s;
}

PROPERTY(P06, "Whole GOPs of a signed stream, not the first two nor the last two, are removed, repeated, reordered or replaced by GOPs of another stream signed with the same key, or a signing SEI is removed; non-trivial when at least two SEIs follow the edit.") {
  Base b = make_base(c, 7, 10, true, 4);
  auto bl = blocks_of(b.s);
  int nb = (int)bl.size();
  c.require(nb == b.n + 1, "internal: %d blocks %d SEIs", nb, b.n);
  int op = (int)c.src.draw(7);
  // Someone careful moves the SEI with the GOP it signs, which is the one before it in the stream.
  const bool careful = op != 3 && op != 6 && c.src.coin();
  auto detach = [&](std::vector<Stream> &v) {
    std::vector<Nalu> sei(v.size());
    for (size_t k = 0; k < v.size(); k++) {
      Stream x;
      for (auto &n : v[k])
        if (n.t != 'S') x.push_back(n);
        else if (k > 0) sei[k - 1] = n;
      v[k] = x;
    }
    for (size_t k = 0; k < v.size(); k++)
      if (!sei[k].d.empty()) v[k].push_back(sei[k]);  // for now
  };
  auto attach = [&](std::vector<Stream> &v) {
    Nalu sei;
    for (auto &x : v) {
      Nalu mine;
      if (!x.empty() && x.back().t == 'S') {
        mine = x.back();
        x.pop_back();
      }
      if (!sei.d.empty())
        for (size_t i = 0; i < x.size(); i++)
          if (x[i].t == 'I') {
            x.insert(x.begin() + i + 1, sei);
            break;
          }
      sei = mine;
    }
  };
  if (careful) detach(bl);
  int at = 2 + (int)c.src.draw(nb - 5);  // 2 .. nb-4
  std::string what;
  std::vector<Stream> e = bl;
  switch (op) {
    case 0: {
      int k = 1 + (int)c.src.draw(nb - 3 - at);
      e.erase(e.begin() + at, e.begin() + at + k);
      what = strf("remove %d GOPs at %d", k, at);
      break;
    }
    case 1:
      e.insert(e.begin() + at, bl[at]);
      what = strf("repeat GOP %d", at);
      break;
    case 2:
      std::swap(e[at], e[at + 1]);
      what = strf("swap GOPs %d and %d", at, at + 1);
      break;
    case 3: {
      // Remove one SEI.
      Stream &x = e[at];
      for (size_t i = 0; i < x.size(); i++)
        if (x[i].t == 'S') {
          x.erase(x.begin() + i);
          break;
        }
      what = strf("remove the SEI in block %d", at);
      break;
    }
    case 6: {
      // All pictures of one or two GOPs, but no SEI.
      int k = 1 + (int)c.src.draw(2);
      for (int i = at; i < at + k && i < nb - 3; i++) {
        Stream x;
        for (auto &n : e[i])
          if (!n.pic()) x.push_back(n);
        e[i] = x;
      }
      what = strf("remove all pictures of %d GOPs at %d", k, at);
      break;
    }
    case 4:
    case 5: {
      // Another stream signed with the same configuration.
      GenOpts o;
      o.min_gops = nb;
      o.max_gops = nb;
      o.max_gop_len = 4;
      o.extras = false;
      o.slices = false;
      Stream in = gen_stream(c.src, b.cfg.codec, o);
      // Unique ids of both streams coincide; make the content differ.
      for (auto &n : in) {
        n.d.push_back(0xa5);
        n.d.push_back(0x5a);
      }
      if (in.back().t != 'P') in.push_back(make_nalu(c.src, b.cfg.codec, 'P', o, 9000));
      Stream other = sign_stream(c, b.cfg, in, PULL_AFTER);
      auto ob = blocks_of(other);
      if (careful) detach(ob);
      if (op == 4) {
        e[at] = ob[at];
        what = strf("replace GOP %d with that of another stream", at);
      } else {
        // Continue with the other stream from here on.
        int from = c.src.coin() && at < (int)ob.size() - 3 ? at : 1 + (int)c.src.draw((int)ob.size() - 4);
        e.erase(e.begin() + at, e.end());
        e.insert(e.end(), ob.begin() + from, ob.end());
        what = strf("continue at %d with another stream from its GOP %d", at, from);
      }
      break;
    }
  }
  if (careful) {
    attach(e);
    what += ", each with its SEI";
  }
  Stream s = join(e);
  if (s.size() == b.s.size()) {
    bool same = true;
    for (size_t i = 0; i < s.size(); i++) same &= s[i].d == b.s[i].d;
    if (same) return;
  }
  c.note("%s %s %s", b.cfg.str().c_str(), what.c_str(), types(s).c_str());
  Validation v = validate(s, b.cfg.codec);
  std::string sum = step_summary(s, v);
  c.require(v.final->acc_auth != SV_AUTH_RESULT_OK && v.final->acc_auth != SV_AUTH_RESULT_SIGNATURE_PRESENT && v.final->acc_auth != SV_AUTH_RESULT_NOT_SIGNED, "edited stream ends as %s (%s)\n%s", auth_name(v.final->acc_auth), what.c_str(), sum.c_str());
  c.nontrivial();
  c.label(strf("op%d%s %s", op, careful ? "c" : "", auth_name(v.final->acc_auth)));
}
