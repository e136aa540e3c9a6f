// Transport, metadata, SEI queue, reset, golden SEIs, versions, independence.
#include "auth_util.h"
#include <array>
#include "refmodel.h"
#include "sched.h"

std::string damage_stream(Ctx &c, SignedVideoCodec codec, Stream &s, int ops);

static void end_with_p(Ctx &c, SignedVideoCodec codec, Stream &in, const GenOpts &o) {
  if (in.back().t == 'P') return;
  int g = -1;
  for (auto &x : in)
    if (x.pic()) g = x.gop;
  in.push_back(make_nalu(c.src, codec, 'P', o, (int)in.size() + 1));
  in.back().gop = g;
}
static bool default_hash(const SignCfg &cfg) {
  return cfg.hash.empty() || cfg.hash == "sha256" || cfg.hash == "SHA256" || cfg.hash == "2.16.840.1.101.3.4.2.1";
}
static Bytes with_startcode(const Bytes &d, int mode) {
  Bytes o;
  if (mode == 0) o = {0, 0, 0, 1};
  if (mode == 1) o = {0, 0, 1};
  o.insert(o.end(), d.begin() + startcode_len(d), d.end());
  return o;
}
// What a muxer does to a SEI written without emulation prevention.
static Bytes add_epb(const Bytes &d, SignedVideoCodec codec) {
  size_t h = startcode_len(d) + (codec == SV_CODEC_H264 ? 1 : 2);
  Bytes o(d.begin(), d.begin() + h), body(d.begin() + h, d.end());
  Bytes e = epb_apply(body);
  o.insert(o.end(), e.begin(), e.end());
  return o;
}

// ---- P16 -------------------------------------------------------------------------------------------
static bool validated_type(char t) { return strchr("IiPpSG", t) != nullptr; }

PROPERTY(P16, "A signed stream, intact or damaged, is validated before and after random transport changes: other start codes, trailing zeros, emulation prevention added to SEIs written without, and other NAL Units inserted and removed; non-trivial when something is inserted, removed or rewritten and a GOP is validated.") {
  Base b = make_base(c, 3, 6, true, 5);
  Stream a = b.s;
  std::string what;
  if (c.src.chance(1, 3)) what = damage_stream(c, b.cfg.codec, a, 1 + (int)c.src.draw(2));
  bool muxed = !b.cfg.sei_epb && c.src.coin();
  int p_sc = c.src.coin(), p_tz = c.src.coin(), p_ins = (int)c.src.draw(4), p_rm = c.src.coin();
  GenOpts o;
  o.max_body = 30;
  o.big = false;
  o.unique = c.src.coin();
  Stream t;
  std::vector<int> map;  // index in |a| of every NALU of |t|, or -1
  int changes = 0;
  for (size_t i = 0; i < a.size(); i++) {
    while (p_ins && c.src.chance(p_ins, 12)) {
      t.push_back(make_nalu(c.src, b.cfg.codec, "v_zo"[c.src.draw(4)], o, 9000 + (int)t.size()));
      map.push_back(-1);
      changes++;
    }
    const Nalu &n = a[i];
    if (p_rm && !n.pic() && !n.sei() && !n.tampered && n.t != 'U' && c.src.coin()) {
      changes++;
      continue;
    }
    Nalu m = n;
    if (muxed && n.t == 'S' && !n.tampered) {
      m.d = add_epb(n.d, b.cfg.codec);
      changes += m.d != n.d;
    }
    if (p_sc && startcode_len(n.d) > 0) {
      m.d = with_startcode(m.d, (int)c.src.draw(3));
      changes += m.d.size() != n.d.size();
    }
    if (p_tz && c.src.chance(1, 4)) {
      m.d.insert(m.d.end(), 1 + c.src.draw(4), 0);
      changes++;
    }
    t.push_back(m);
    map.push_back((int)i);
  }
  if (t.empty()) return;
  const std::string *uk = c.src.chance(1, 3) ? &key_by_name(b.cfg.key).pub : nullptr;
  c.note("%s%s%s%s %s -> %s", b.cfg.str().c_str(), uk ? " userkey" : "", muxed ? " muxed" : "", what.c_str(), types(a).c_str(), types(t).c_str());
  Validation va = validate(a, b.cfg.codec, uk), vt = validate(t, b.cfg.codec, uk);
  std::string sum = step_summary(a, va) + "\n--- after transport ---\n" + step_summary(t, vt);
  c.require(va.steps.size() == vt.steps.size(), "%zu reports become %zu\n%s", va.steps.size(), vt.steps.size(), sum.c_str());
  for (size_t k = 0; k < va.steps.size(); k++) {
    const Step &x = va.steps[k], &y = vt.steps[k];
    auto at = [&] { return strf("report %zu: %s\n became %s\n%s", k, x.r.str().c_str(), y.r.str().c_str(), sum.c_str()); };
    c.require(map[y.idx] == x.idx, "given at another NALU: %s", at().c_str());
    c.require(x.r.auth == y.r.auth && x.r.acc_auth == y.r.acc_auth, "another result: %s", at().c_str());
    c.require(x.r.expected == y.r.expected && x.r.received == y.r.received, "other counts: %s", at().c_str());
    c.require(x.r.pending == y.r.pending, "other pending count: %s", at().c_str());
    c.require(x.r.keychg == y.r.keychg && x.r.acc_keychg == y.r.acc_keychg && x.r.pkval == y.r.pkval, "other key status: %s", at().c_str());
    c.require(x.r.has_ts == y.r.has_ts && x.r.ts == y.r.ts && x.r.acc_first == y.r.acc_first && x.r.acc_last == y.r.acc_last, "other timestamp: %s", at().c_str());
    for (int i = 0; i < 5; i++) c.require(x.r.info[i] == y.r.info[i], "other product info: %s", at().c_str());
    // Placeholders of missing pictures have no place of their own; only their number counts.
    std::string fx, fy;
    int mx = 0, my = 0;
    for (size_t i = 0; i < x.r.vstr.size(); i++) {
      if (validated_type(x.r.nstr[i])) fx += x.r.vstr[i];
      mx += x.r.vstr[i] == 'M';
    }
    for (size_t i = 0; i < y.r.vstr.size(); i++) {
      if (validated_type(y.r.nstr[i])) fy += y.r.vstr[i];
      my += y.r.vstr[i] == 'M';
    }
    c.require(mx == my, "%d missing marks -> %d: %s", mx, my, at().c_str());
    c.require(fx == fy, "other marks %s -> %s: %s", fx.c_str(), fy.c_str(), at().c_str());
    if (x.r.auth >= SV_AUTH_RESULT_NOT_OK && changes) c.nontrivial();
  }
  c.label(strf("%s%s", what.empty() ? "intact" : "damaged", changes ? "" : " unchanged"));
}

// ---- P17 -------------------------------------------------------------------------------------------
PROPERTY(P17, "Random product information and timestamps are signed and the reports compared with what was given; non-trivial when product information or timestamps are given.") {
  CfgOpts co;
  co.recurrence = c.src.coin();
  SignCfg cfg = gen_cfg(c.src, co);
  if (co.recurrence && c.src.chance(1, 8)) cfg.recurrence = 1 + (unsigned)c.src.draw(1000);
  cfg.golden = c.src.chance(1, 6);
  if (c.src.chance(1, 2)) {
    // Lengths around the limits.
    cfg.has_info = true;
    static const int lens[] = {0, 1, 2, 127, 128, 253, 254, 255, 256, 400};
    for (auto &x : cfg.info) {
      if (c.src.chance(1, 5)) {
        x.reset();
        continue;
      }
      int l = c.src.coin() ? lens[c.src.draw(10)] : (int)c.src.draw(300);
      uint64_t s = c.src.raw64();
      std::string v;
      for (int i = 0; i < l; i++) v += (char)(1 + mix64(s + i) % 255);
      x = v;
    }
    if (c.src.chance(1, 8)) cfg.info[3] = "Axis Communications AB";
  }
  GenOpts o;
  o.min_gops = 2;
  o.max_gops = 6;
  o.max_gop_len = 4;
  o.max_body = 20;
  Stream in = gen_stream(c.src, cfg.codec, o);
  int tsm = (int)c.src.draw(4);
  for (auto &n : in) {
    static const int64_t ts[] = {0, 1, -1, 255, 256, 65535, 0x7fffffffll, 0x80000000ll, 0xffffffffll, 0x100000000ll, INT64_MAX, INT64_MIN, 0x0000010000000000ll};
    n.has_ts = tsm == 1 || (tsm >= 2 && c.src.coin());
    n.ts = tsm == 3 ? ts[c.src.draw(13)] : (int64_t)c.src.raw64();
  }
  end_with_p(c, cfg.codec, in, o);
  Stream s;
  // Product information sent so far, per GOP.
  std::vector<std::array<std::string, 5>> sent;
  int changed = 0;
  auto current = [&] {
    std::array<std::string, 5> a;
    for (int i = 0; i < 5; i++) a[i] = cfg.has_info && cfg.info[i] ? cfg.info[i]->substr(0, 254) : "";
    return a;
  };
  if (!cfg.golden && c.src.chance(1, 3)) {
    // The product information changes while signing, often only a little.
    Signer sg(cfg, &c);
    std::array<std::string, 5> latest;
    int gop = -1;
    for (auto &n : in) {
      if (c.src.chance(1, 6)) {
        cfg.has_info = true;
        changed++;
        const char *p[5];
        for (int i = 0; i < 5; i++) {
          std::string x = cfg.info[i].value_or("");
          switch (c.src.draw(8)) {
            case 0: x += (char)('a' + c.src.draw(26)); break;
            case 1: if (!x.empty()) x.pop_back(); break;
            case 2: x = x.substr(0, c.src.draw(x.size() + 1)); break;
            case 3: x = std::string(c.src.draw(300), (char)('A' + c.src.draw(26))); break;
            case 4: case 5: if (!x.empty()) x[c.src.draw(x.size())] = (char)('a' + c.src.draw(26)); break;
            case 6: if (!x.empty()) x.back() = (char)('a' + c.src.draw(26)); break;
            default: break;
          }
          cfg.info[i] = x;
          if (x.empty() && c.src.coin()) cfg.info[i].reset();
          p[i] = cfg.info[i] ? cfg.info[i]->c_str() : nullptr;
        }
        c.require(signed_video_set_product_info(sg.sv, p[0], p[1], p[2], p[3], p[4]) == SV_OK, "setting product information failed");
      }
      if (n.t == 'I') gop++;
      Nalu x = n;
      x.gop = x.pic() ? gop : -1;
      c.require(sg.add(n.d, n.has_ts ? &n.ts : nullptr) == SV_OK, "adding a NALU failed");
      s.push_back(x);
      Bytes b;
      c.require(sg.pull(nullptr, &b, nullptr, nullptr) == SV_OK, "getting an SEI failed");
      if (b.empty()) continue;
      if (parse_sei(b, cfg.codec, cfg.sei_epb).find(TAG_PRODUCT)) latest = current();
      sent.push_back(latest);
      x.d = b;
      x.t = 'S';
      x.gop = gop - 1;
      s.push_back(x);
    }
  } else {
    s = sign_stream(c, cfg, in, c.src.coin() ? PULL_PEEK : PULL_AFTER);
    sent.assign(in.size(), current());
  }
  c.note("%s ts=%d changes=%d %s", cfg.str().c_str(), tsm, changed, types(s).c_str());
  Validation v = validate(s, cfg.codec);
  std::string sum = step_summary(s, v);
  // Timestamp of the I-frame that ends GOP g.
  std::vector<const Nalu *> closing;
  for (auto &n : s)
    if (n.t == 'I') closing.push_back(&n);
  bool any = false;
  int64_t first = 0, last = 0;
  int reports = 0;
  for (auto &st : v.steps) {
    const Nalu &n = s[st.idx];
    const Report &r = st.r;
    auto at = [&] { return strf("at NALU %d: %s\n%s", st.idx, r.str().c_str(), sum.c_str()); };
    c.require(r.ver_this == signed_video_get_version(), "version of the validator is %s %s", r.ver_this.c_str(), at().c_str());
    if (n.t == 'S') {
      const Nalu *e = closing[n.gop + 1];
      c.require(r.has_ts == e->has_ts, "a timestamp was %sgiven %s", e->has_ts ? "" : "not ", at().c_str());
      if (e->has_ts) {
        c.require(r.ts == e->ts, "timestamp %lld was given %s", (long long)e->ts, at().c_str());
        if (!any) first = e->ts;
        last = e->ts;
        any = true;
      }
      reports++;
    }
    c.require(r.acc_has_ts == any, "accumulated timestamps %s", at().c_str());
    if (any) c.require(r.acc_first == first && r.acc_last == last, "first %lld and last %lld timestamps %s", (long long)first, (long long)last, at().c_str());
    if (n.sei()) {
      // A golden SEI carries no version.
      if (n.t == 'S') c.require(r.ver_sign == signed_video_get_version(), "version of the signer is '%s' %s", r.ver_sign.c_str(), at().c_str());
      for (int i = 0; i < 5; i++) {
        const std::string &w = sent[n.t == 'S' ? n.gop : 0][i];
        c.require(r.info[i].value_or("") == w, "product info %d is '%s' (%zu), should be '%s' (%zu) %s", i, hexs((const uint8_t *)r.info[i].value_or("").data(), r.info[i].value_or("").size()).c_str(), r.info[i].value_or("").size(), hexs((const uint8_t *)w.data(), w.size()).c_str(), w.size(), at().c_str());
      }
    } else
      for (int i = 0; i < 5; i++) c.require(!r.info[i] || r.info[i]->empty(), "product info without an SEI %s", at().c_str());
  }
  c.require(reports == num_seis(s), "%d reports for %d SEIs\n%s", reports, num_seis(s), sum.c_str());
  // The signer's own strings were not touched, and the final report still has everything.
  c.require(v.final->acc_first == first && v.final->acc_last == last, "final report has other timestamps\n%s", sum.c_str());
  if (cfg.has_info || any) c.nontrivial();
  c.label(strf("info=%d ts=%d changed=%d", cfg.has_info, tsm, changed > 0));
}

// ---- P18 -------------------------------------------------------------------------------------------
PROPERTY(P18, "A random sequence of adding NAL Units, asking for sizes and fetching SEIs, with and without showing the next NAL Unit, is compared with a model of the queue after every call; non-trivial when two or more SEIs are pending at the same time or a call is refused.") {
  CfgOpts co;
  SignCfg cfg = gen_cfg(c.src, co);
  GenOpts o;
  o.min_gops = 3;
  o.max_gops = c.src.chance(1, 6) ? 40 : 10;
  o.max_gop_len = 3;
  o.max_body = 12;
  o.big = false;
  Stream in = gen_stream(c.src, cfg.codec, o);
  set_ts(c, in);
  end_with_p(c, cfg.codec, in, o);
  int w_add = 1 + (int)c.src.draw(6), w_size = (int)c.src.draw(3), w_get = 1 + (int)c.src.draw(4), w_pre = c.src.chance(1, 4) ? 1 : 0;
  c.note("%s add:size:get:prepend=%d:%d:%d:%d %s", cfg.str().c_str(), w_add, w_size, w_get, w_pre, types(in).c_str());
  Signer s(cfg, &c);
  RefSigner ref(cfg);
  struct Q {
    RefSei r;
    int gop;
  };
  std::vector<Q> q;  // to be delivered, oldest first
  size_t completed = 0;
  bool may_add = false;  // shown a NALU that no SEI can precede
  Stream out;
  std::string log;
  int made = 0, delivered = 0, refused = 0, deep = 0, prepended = 0;
  auto at = [&] { return strf("%s: %zu pending, %zu completed", log.c_str(), q.size(), completed); };
  auto take = [&](size_t k, const Bytes &sei) {
    std::string e = ref_compare(cfg, q[k].r, sei);
    c.require(e.empty(), "SEI of GOP %d should be delivered, but %s; %s", q[k].gop, e.c_str(), at().c_str());
    Nalu x;
    x.d = sei;
    x.t = 'S';
    x.gop = q[k].gop;
    out.push_back(x);
    q.erase(q.begin() + k);
    completed--;
    delivered++;
  };
  size_t i = 0;
  int idle = 0;
  while (i < in.size() || !q.empty()) {
    bool drain = i >= in.size() || q.size() > 40;
    int op = drain ? 2 : c.src.weighted({w_add, w_size, w_get, w_pre});
    if (op == 0) {
      const Nalu &n = in[i];
      log += n.t;
      auto rc = s.add(n.d, n.has_ts ? &n.ts : nullptr);
      if (completed && !may_add) {
        c.require(rc == SV_NOT_SUPPORTED, "adding with fetched SEIs waiting returned %d; %s", rc, at().c_str());
        refused++;
        log += '!';
        continue;
      }
      c.require(rc == SV_OK, "adding returned %d; %s", rc, at().c_str());
      RefSei r;
      if (ref.add(n, &r)) q.push_back({r, made++});
      if (q.size() > 1) deep++;
      out.push_back(n);
      i++;
      continue;
    }
    if (op == 3) {
      completed = q.size();
      log += '^';
      Bytes sei;
      auto rc = s.pull_prepend(&sei);
      c.require(rc == SV_OK, "getting a NALU to prepend returned %d; %s", rc, at().c_str());
      c.require(sei.empty() == q.empty(), "a NALU to prepend is %s; %s", sei.empty() ? "not given" : "given", at().c_str());
      if (!sei.empty()) {
        if (completed > 1) prepended++;
        take(completed - 1, sei);
      }
      continue;
    }
    // With or without showing the next NALU.
    bool peek = i < in.size() && c.src.coin();
    bool can = !q.empty() && (!peek || in[i].t == 'I' || in[i].t == 'P');
    Bytes pk;
    if (peek) pk = in[i].d;
    uint8_t *p = peek ? (uint8_t *)malloc(pk.size()) : nullptr;
    if (peek) memcpy(p, pk.data(), pk.size());
    size_t size = 12345;
    int off = -7;
    unsigned pending = 999;
    completed = q.size();
    if (!q.empty() && peek && !can) may_add = true;
    std::vector<uint8_t> buf;
    size_t want = 0;
    auto rc = signed_video_get_sei(s.sv, nullptr, &size, c.src.coin() ? &off : nullptr, p, pk.size(), &pending);
    log += peek ? 's' : 'q';
    want = size;
    bool bad_pending = pending != q.size();
    bool fetch = op == 2 && rc == SV_OK && size > 0;
    size_t got = 0;
    unsigned pending2 = 0;
    if (fetch) {
      uint8_t *b = (uint8_t *)malloc(size);
      off = -7;
      rc = signed_video_get_sei(s.sv, b, &got, &off, p, pk.size(), &pending2);
      buf.assign(b, b + size);
      free(b);
      log += 'G';
    }
    free(p);
    c.require(rc == SV_OK, "getting an SEI returned %d; %s", rc, at().c_str());
    c.require(!bad_pending, "%u SEIs reported as pending; %s", pending, at().c_str());
    c.require((want > 0) == can, "an SEI is %s although it can%s be delivered; %s", want ? "announced" : "not announced", can ? "" : "not", at().c_str());
    if (fetch) {
      c.require(got == want, "announced %zu bytes, delivered %zu; %s", want, got, at().c_str());
      WireSei w = parse_sei(buf, cfg.codec, cfg.sei_epb);
      c.require(w.ok && (size_t)off == w.payload_off, "offset %d; %s", off, at().c_str());
      take(0, buf);
      c.require(pending2 == q.size(), "%u SEIs reported as pending after fetching; %s", pending2, at().c_str());
    }
    if (!fetch && i >= in.size() && ++idle > 3) c.fail("SEIs are not delivered; %s", at().c_str());
  }
  c.require(delivered == made, "%d SEIs made, %d delivered", made, delivered);
  Bytes rest;
  c.require(s.pull(nullptr, &rest, nullptr, nullptr) == SV_OK && rest.empty(), "an SEI is delivered twice");
  // The delays do not matter for the validation.
  if (!prepended && default_hash(cfg)) {
    std::string uk = key_by_name(cfg.key).pub;
    Validation v = validate(out, cfg.codec, &uk);
    c.require(made == 0 || v.final->acc_auth == SV_AUTH_RESULT_OK, "the stream is reported as %s\n%s", auth_name(v.final->acc_auth), step_summary(out, v).c_str());
  }
  if (deep || refused) c.nontrivial();
  c.label(strf("deep=%d refused=%d", std::min(deep, 3), std::min(refused, 3)));
}

// ---- P33 -------------------------------------------------------------------------------------------
PROPERTY(P33, "A stream is signed with signing operations that fail at random and SEIs that are fetched rarely or not at all until there is no room for more; every SEI is compared with the reference; non-trivial when a signing operation failed or a NAL Unit was refused, and SEIs were delivered afterwards.") {
  CfgOpts co;
  co.maxsei = true;
  SignCfg cfg = gen_cfg(c.src, co);
  if (c.src.chance(1, 3)) cfg.recurrence = (unsigned)(1 + c.src.draw(12));
  const bool full = c.src.chance(1, 5);
  GenOpts o;
  o.min_gops = full ? 62 : 3;
  o.max_gops = full ? 90 : 14;
  o.max_gop_len = full ? 2 : 1 + (int)c.src.draw(6);
  o.max_body = 12;
  o.big = false;
  Stream in = gen_stream(c.src, cfg.codec, o);
  set_ts(c, in);
  end_with_p(c, cfg.codec, in, o);
  std::vector<uint8_t> plan(100);
  const int often = (int)c.src.draw(full ? 2 : 4);
  if (often || !full)
    for (auto &x : plan) x = c.src.chance(1, often == 3 ? 2 : often == 2 ? 4 : 10);
  const int pulls = full ? 400 : 1 + (int)c.src.draw(10);
  const bool parts = c.src.chance(1, 3), prepend = c.src.chance(1, 6);
  c.note("%s %s pulls 1 in %d%s%s", cfg.str().c_str(), types(in).c_str(), pulls, parts ? ", parts" : "", prepend ? ", prepend" : "");
  struct Off {
    ~Off() { sched_sign_plan(nullptr, 0); }
  } off;
  Signer s(cfg, &c);
  sched_sign_plan(plan.data(), plan.size());
  RefSigner ref(cfg);
  struct Q {
    RefSei r;
    int gop;
  };
  std::vector<Q> q;
  int gop = 0, failed = 0, refused = 0, after = 0;
  size_t calls = 0;
  auto fetch = [&] {
    for (size_t left = q.size();; left--) {
      Bytes sei;
      auto rc = prepend ? s.pull_prepend(&sei) : s.pull(nullptr, &sei, nullptr, nullptr);
      c.require(rc == SV_OK, "getting an SEI returned %d", rc);
      c.require(sei.empty() == !left, "%zu SEIs should be delivered but there is %s", left, sei.empty() ? "none" : "another one");
      if (!left) return;
      const Q x = prepend ? q.back() : q.front();
      std::string e = ref_compare(cfg, x.r, sei);
      c.require(e.empty(), "SEI of GOP %d: %s", x.gop, e.c_str());
      q.erase(prepend ? q.end() - 1 : q.begin());
      if (failed || refused) after++;
    }
  };
  for (auto &n : in) {
    RefSigner was = ref;
    RefSei r;
    bool closes = ref.add(n, &r);
    int want = SV_OK;
    bool refuse = closes && q.size() == 60;
    if (refuse) want = SV_NOT_SUPPORTED;
    else if (closes && plan[calls]) want = SV_EXTERNAL_ERROR;
    size_t cut = 0, lo = n.sc() + 3, hi = n.d.size();
    while (hi > lo && n.d[hi - 1] == 0) hi--;
    if (parts && hi > lo + 1 && c.src.coin()) cut = lo + c.src.draw(hi - 1 - lo);
    const int64_t *ts = n.has_ts ? &n.ts : nullptr;
    if (cut) {
      auto rc = s.add_part(n.d.data(), cut, ts, false);
      c.require(rc == SV_OK, "adding the first part of a NAL Unit (%c) returned %d", n.t, rc);
    }
    for (int tries = 0;; tries++) {
      auto rc = s.add_part(n.d.data() + cut, n.d.size() - cut, ts, true);
      c.require(rc == want, "adding a NAL Unit (%c) returned %d, should be %d; %zu SEIs wait", n.t, rc, want, q.size());
      if (!refuse) break;
      refused++;
      if (tries < 2 && c.src.chance(1, 3)) continue;  // stubborn
      fetch();
      refuse = false;
      want = plan[calls] ? SV_EXTERNAL_ERROR : SV_OK;
    }
    if (closes) {
      if (plan[calls++]) {
        failed++;
        ref.flag |= r.recurrent;
      } else
        q.push_back({r, gop});
      gop++;
    }
    if (c.src.draw(pulls) == 0) fetch();
  }
  fetch();
  c.require(sched_sign_calls() == calls, "%zu GOPs but %zu signing operations", calls, sched_sign_calls());
  if (after) c.nontrivial();
  c.label(strf("failed=%d refused=%d", std::min(failed, 4), std::min(refused, 2)));
}

// ---- P19 -------------------------------------------------------------------------------------------
static bool same_verdict(const Report &a, const Report &b, bool meta) {
  bool r = a.auth == b.auth && a.expected == b.expected && a.received == b.received && a.pending == b.pending && a.keychg == b.keychg &&
      a.pkval == b.pkval && a.has_ts == b.has_ts && (!a.has_ts || a.ts == b.ts) && a.vstr == b.vstr && a.nstr == b.nstr && a.acc_auth == b.acc_auth &&
      a.acc_pkval == b.acc_pkval && a.acc_keychg == b.acc_keychg && a.acc_received == b.acc_received && a.acc_validated == b.acc_validated &&
      a.acc_pending == b.acc_pending && a.acc_has_ts == b.acc_has_ts && a.acc_first == b.acc_first && a.acc_last == b.acc_last;
  if (meta) {
    r = r && a.ver_sign == b.ver_sign && a.ver_this == b.ver_this;
    for (int i = 0; i < 5; i++) r = r && a.info[i] == b.info[i];
  }
  return r;
}
PROPERTY(P19, "A validator is fed a random part of a stream, intact or damaged, reset, and then fed another one, and compared with a new validator; a signer is reset at a random point and its further output validated; non-trivial when the reset comes in the middle of a signed stream.") {
  if (c.src.coin()) {
    // Validation.
    Base b1 = make_base(c, 2, 5, true, 4);
    SignCfg cfg = b1.cfg;
    bool rec1 = true;
    GenOpts o;
    o.min_gops = 2;
    o.max_gops = 6;
    o.max_gop_len = 4;
    o.max_body = 30;
    bool userkey = c.src.chance(1, 3);
    bool same = c.src.chance(1, 3);
    Stream second;
    if (same)
      second = b1.s;
    else {
      CfgOpts co;
      SignCfg cfg2 = gen_cfg(c.src, co);
      cfg2.codec = cfg.codec;
      cfg2.key = cfg.key;
      if (key_by_name(cfg2.key).rsa) cfg2.hash.clear();
      cfg2.pubkey_in_sei = true;
      cfg2.golden = c.src.chance(1, 8);
      Stream in = gen_stream(c.src, cfg2.codec, o);
      set_ts(c, in);
      second = sign_stream(c, cfg2, in, c.src.coin() ? PULL_PEEK : PULL_AFTER);
      rec1 = cfg2.recurrence == 1 && !cfg2.golden;
      if (userkey && !default_hash(cfg2)) userkey = false;
    }
    if (same) {
      rec1 = cfg.recurrence == 1;
      if (userkey && !default_hash(cfg)) userkey = false;
    }
    // Without recurrent data in each SEI, what is known from before the reset matters, unless the key was set by the user and
    // the hash is the default one.
    Stream first = b1.s;
    if (c.src.chance(1, 6)) first = gen_stream(c.src, cfg.codec, o);
    std::string what;
    if (c.src.chance(1, 3)) what = damage_stream(c, cfg.codec, first, 1 + (int)c.src.draw(3));
    if (first.empty()) return;
    bool first_default = default_hash(cfg);
    if (!rec1 && !(userkey && first_default)) return;
    if (c.src.chance(1, 4)) what += damage_stream(c, cfg.codec, second, 1);
    // An SEI with a modified public key would be remembered.
    for (Stream *x : {&first, &second}) x->erase(std::remove_if(x->begin(), x->end(), [](const Nalu &n) { return n.sei() && n.tampered; }), x->end());
    if (first.empty() || second.empty()) return;
    // The second starts at a GOP start.
    std::vector<size_t> starts;
    for (size_t i = 0; i < second.size(); i++)
      if (second[i].t == 'I') starts.push_back(i);
    if (starts.empty()) return;
    size_t from = c.src.coin() ? 0 : starts[c.src.draw(starts.size())];
    second.erase(second.begin(), second.begin() + from);
    size_t cut = c.src.draw(first.size() + 1);
    first.resize(cut);
    const std::string *uk = userkey ? &key_by_name(cfg.key).pub : nullptr;
    c.note("validate %s%s%s: %s | reset | %s", cfg.str().c_str(), userkey ? " userkey" : "", what.c_str(), types(first).c_str(), types(second).c_str());
    Validator v(cfg.codec, uk);
    int resets = 1 + (int)c.src.draw(2);
    bool mid = false;
    for (size_t i = 0; i < first.size(); i++) {
      std::optional<Report> r;
      v.add(first[i].d, c.src.coin() ? &r : nullptr);
      mid |= first[i].sei();
    }
    for (int k = 0; k < resets; k++) c.require(signed_video_reset(v.sv) == SV_OK, "reset failed");
    if (!first.empty()) {
      // The report right after the reset is empty.
      signed_video_authenticity_t *a = signed_video_get_authenticity_report(v.sv);
      c.require(a != nullptr, "no report after a reset");
      Report r = copy_report(a);
      signed_video_authenticity_report_free(a);
      c.require(r.auth == SV_AUTH_RESULT_NOT_SIGNED && r.acc_auth == SV_AUTH_RESULT_NOT_SIGNED && !r.acc_received && !r.acc_validated && !r.acc_pending && !r.acc_has_ts && !r.has_ts && !r.keychg && !r.acc_keychg,
          "the report after a reset is %s", r.str().c_str());
    }
    Validator f(cfg.codec, uk);
    bool seen = false;
    std::string hist;
    for (size_t i = 0; i < second.size(); i++) {
      std::optional<Report> ra, rb;
      auto x = v.add(second[i].d, &ra), y = f.add(second[i].d, &rb);
      seen |= second[i].sei();
      c.require(x == y, "NALU %zu: %d after a reset, %d in a new session%s", i, x, y, hist.c_str());
      c.require(ra.has_value() == rb.has_value(), "NALU %zu: %s report after a reset%s\n%s", i, ra ? "a" : "no", hist.c_str(), (ra ? *ra : rb ? *rb : Report()).str().c_str());
      if (ra) {
        hist += strf("\n@%zu %s\n  / %s", i, ra->str().c_str(), rb->str().c_str());
        c.require(same_verdict(*ra, *rb, false), "NALU %zu: other report after a reset (first) than in a new session%s", i, hist.c_str());
      }
    }
    if (mid) c.nontrivial();
    c.label(strf("validate%s%s", same ? " same" : "", what.empty() ? "" : " damaged"));
    return;
  }
  // Signing.
  CfgOpts co;
  co.maxsei = true;
  SignCfg cfg = gen_cfg(c.src, co);
  GenOpts o;
  o.min_gops = 1;
  o.max_gops = 5;
  o.max_gop_len = 4;
  o.max_body = 30;
  Stream a = gen_stream(c.src, cfg.codec, o), b;
  a.resize(c.src.draw(a.size() + 1));
  o.min_gops = 3;
  b = gen_stream(c.src, cfg.codec, o);
  set_ts(c, a);
  set_ts(c, b);
  end_with_p(c, cfg.codec, b, o);
  bool part = !a.empty() && c.src.chance(1, 3);
  bool pull = c.src.chance(2, 3);
  c.note("sign %s%s%s: %s | reset | %s", cfg.str().c_str(), part ? " in a part" : "", pull ? "" : " not fetched", types(a).c_str(), types(b).c_str());
  Signer s(cfg, &c);
  int made = 0, fetched = 0, iframes = 0;
  Bytes sei;
  for (size_t i = 0; i < a.size(); i++) {
    size_t n = a[i].d.size();
    if (part && i + 1 == a.size()) {
      size_t cut = std::min(n, a[i].sc() + 4 + c.src.draw(n > a[i].sc() + 4u ? n - a[i].sc() - 4 : 1));
      c.require(s.add_part(a[i].d.data(), cut, nullptr, false) == SV_OK, "adding a part failed");
      break;
    }
    auto rc = s.add(a[i].d, a[i].has_ts ? &a[i].ts : nullptr);
    c.require(rc == SV_OK, "adding failed: %d", rc);
    if (a[i].t == 'I' && iframes++ > 0) made++;
    while (pull && s.pull(nullptr, &sei, nullptr, nullptr) == SV_OK && !sei.empty()) fetched++;
  }
  int pending = made - fetched;
  c.require(signed_video_reset(s.sv) == SV_OK, "reset failed");
  // SEIs of the time before are still delivered, first.
  Stream out;
  int old = 0;
  auto drain = [&] {
    for (;;) {
      c.require(s.pull(nullptr, &sei, nullptr, nullptr) == SV_OK, "getting an SEI failed");
      if (sei.empty()) break;
      if (old < pending) {
        old++;
        continue;
      }
      Nalu x;
      x.d = sei;
      x.t = 'S';
      out.push_back(x);
    }
  };
  if (c.src.coin()) {
    drain();
    c.require(old == pending && out.empty(), "%d SEIs were pending at the reset, but %d delivered", pending, old + (int)out.size());
  }
  int g = -1, k = 0;
  for (auto &n : b) {
    auto rc = s.add(n.d, n.has_ts ? &n.ts : nullptr);
    c.require(rc == SV_OK, "adding after a reset failed: %d", rc);
    if (n.t == 'I') g++;
    out.push_back(n);
    size_t before = out.size();
    drain();
    c.require(out.size() - before == (size_t)(n.t == 'I' && g > 0), "%zu SEIs at a NALU of type %c, I-frame %d, after a reset", out.size() - before, n.t, g);
    if (out.size() > before) {
      out.back().gop = k++;
      WireSei w = parse_sei(out.back().d, cfg.codec, cfg.sei_epb);
      c.require(w.ok, "%s", w.err.c_str());
    }
  }
  std::string uk = key_by_name(cfg.key).pub;
  const std::string *u = cfg.recurrence > 1 ? &uk : nullptr;
  if (u && !default_hash(cfg)) return;
  Validation v = validate(out, cfg.codec, u);
  std::string sum = step_summary(out, v);
  for (int q = 0; q < k; q++) {
    const Report *r = report_at(v, find_sei(out, q));
    c.require(r && r->auth == SV_AUTH_RESULT_OK, "GOP %d after a reset is reported as %s\n%s", q, r ? auth_name(r->auth) : "nothing", sum.c_str());
    int np = 0;
    for (auto &n : b) np += n.pic() && n.gop == q;
    c.require(r->expected == np && r->received == np, "GOP %d after a reset has %d pictures\n%s", q, np, sum.c_str());
  }
  if (made) c.nontrivial();
  c.label(strf("sign%s%s", part ? " part" : "", pending ? " pending" : ""));
}
