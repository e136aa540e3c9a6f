// The signing side: wire format, content, parts, payload limit and recurrent data.
#include "auth_util.h"
#include "refmodel.h"
#include "sched.h"

static void end_with_p(Ctx &c, SignedVideoCodec codec, Stream &in, const GenOpts &o) {
  if (in.back().t == 'P') return;
  int g = -1;
  for (auto &x : in)
    if (x.pic()) g = x.gop;
  in.push_back(make_nalu(c.src, codec, 'P', o, (int)in.size() + 1));
  in.back().gop = g;
}

// Attestation data that stresses emulation prevention.
void gen_attest(Ctx &c, SignCfg &cfg) {
  cfg.attest = true;
  int n = c.src.chance(1, 4) ? 255 : 1 + (int)c.src.draw(255);
  int kind = (int)c.src.draw(3);
  uint64_t seed = c.src.raw64();
  cfg.attestation.resize(n);
  for (int i = 0; i < n; i++) cfg.attestation[i] = kind == 0 ? 0 : kind == 1 ? (uint8_t)(mix64(seed + i) % 4) : (uint8_t)mix64(seed + i);
  // Three certificates; the last one (the root) is not sent.
  for (int k = 0; k < 3; k++) {
    cfg.cert_chain += "-----BEGIN CERTIFICATE-----\n";
    int l = (int)c.src.draw(60);
    for (int i = 0; i < l; i++) cfg.cert_chain += "ABCDEFGHabcdefgh"[mix64(seed + k * 100 + i) % 16];
    cfg.cert_chain += "\n-----END CERTIFICATE-----\n";
  }
}

struct Pulled {
  Bytes d;
  int off;
  unsigned pending;
};

// ---- P13 -------------------------------------------------------------------------------------------
static std::vector<Pulled> all_seis(Ctx &c, const SignCfg &cfg, const Stream &in) {
  std::vector<Pulled> v;
  Signer s(cfg, &c);
  auto drain = [&] {
    for (;;) {
      Pulled p;
      p.off = -1;
      auto rc = s.pull(nullptr, &p.d, &p.off, &p.pending);
      c.require(rc == SV_OK, "getting an SEI failed: %d", rc);
      if (p.d.empty()) break;
      v.push_back(p);
    }
  };
  if (cfg.golden) {
    auto rc = signed_video_generate_golden_sei(s.sv);
    c.require(rc == SV_OK, "generating a golden SEI failed: %d", rc);
    drain();
  }
  for (auto &n : in) {
    auto rc = s.add(n.d, n.has_ts ? &n.ts : nullptr);
    c.require(rc == SV_OK, "adding a NALU failed: %d", rc);
    drain();
  }
  return v;
}

static void check_syntax(Ctx &c, const SignCfg &cfg, const Pulled &p, size_t k) {
  const Bytes &d = p.d;
  auto where = [&] { return strf("SEI %zu (%zu bytes) %s", k, d.size(), hexs(d.data(), d.size(), 48).c_str()); };
  c.require(d.size() > 4 && !d[0] && !d[1] && !d[2] && d[3] == 1, "no four-byte start code: %s", where().c_str());
  WireSei w = parse_sei(d, cfg.codec, cfg.sei_epb);
  c.require(w.ok, "%s: %s", w.err.c_str(), where().c_str());
  c.require(w.epb() == cfg.sei_epb, "the flag for emulation prevention is wrong: %s", where().c_str());
  c.require(d.back() == 0x80, "no stop bit: %s", where().c_str());
  if (p.off >= 0) c.require((size_t)p.off == w.payload_off, "payload offset %d, should be %zu: %s", p.off, w.payload_off, where().c_str());
  if (cfg.sei_epb) {
    for (size_t i = 4; i + 2 < d.size(); i++)
      if (!d[i] && !d[i + 1]) {
        c.require(d[i + 2] >= 3, "forbidden pattern 0000%02x at %zu: %s", d[i + 2], i, where().c_str());
        if (d[i + 2] == 3) c.require(i + 3 < d.size() && d[i + 3] <= 3, "emulation prevention byte that prevents nothing at %zu: %s", i + 2, where().c_str());
      }
  }
  c.require(w.find(TAG_SIGNATURE) == &w.tlvs.back(), "the signature is not last: %s", where().c_str());
}

PROPERTY(P13, "A stream is signed with random settings, attestation data full of zeros and long product information, once with and once without emulation prevention; non-trivial when an SEI holds emulation prevention bytes or a payload of 255 bytes or more.") {
  CfgOpts co;
  SignCfg cfg = gen_cfg(c.src, co);
  cfg.golden = c.src.chance(1, 5);
  if (c.src.chance(1, 3)) gen_attest(c, cfg);
  GenOpts o;
  o.min_gops = 2;
  o.max_gops = 4;
  o.max_gop_len = c.src.chance(1, 8) ? 300 : 8;
  o.max_body = 20;
  o.big = false;
  Stream in = gen_stream(c.src, cfg.codec, o);
  for (auto &n : in) {
    if (!c.src.chance(1, 2)) continue;
    n.has_ts = true;
    static const int64_t ts[] = {0, 1, 256, 65536, 0x0100000000000001ll, (int64_t)0x8000000000000000ull, 3};
    n.ts = c.src.chance(1, 4) ? (int64_t)c.src.raw64() : ts[c.src.draw(7)];
  }
  cfg.sei_epb = true;
  uint64_t rs = c.src.raw64();
  c.note("%s %s att=%zu", cfg.str().c_str(), types(in).c_str(), cfg.attestation.size());
  // Signatures of all bytes and lengths, not only those a key gives.
  struct Fake {
    ~Fake() { g_fake_sig = 0; }
  } fake;
  const bool made_up = c.src.chance(1, 3);
  if (made_up) g_fake_sig = c.src.raw64() | 1;
  sched_sign_plan(nullptr, 0);
  det_rand_seed(rs);
  std::vector<Pulled> a = all_seis(c, cfg, in);
  SignCfg raw = cfg;
  raw.sei_epb = false;
  sched_sign_plan(nullptr, 0);
  det_rand_seed(rs);
  std::vector<Pulled> b = all_seis(c, raw, in);
  int igops = 0;
  for (auto &n : in) igops += n.t == 'I';
  c.require(a.size() == b.size() && (int)a.size() == igops - 1 + cfg.golden, "%zu SEIs with and %zu without emulation prevention for %d GOPs", a.size(), b.size(), igops);
  int epbs = 0;
  for (size_t k = 0; k < a.size(); k++) {
    check_syntax(c, cfg, a[k], k);
    check_syntax(c, raw, b[k], k);
    WireSei wa = parse_sei(a[k].d, cfg.codec, true), wb = parse_sei(b[k].d, cfg.codec, false);
    c.require(wa.payload_size == wb.payload_size, "SEI %zu: payload size %zu with, %zu without emulation prevention", k, wa.payload_size, wb.payload_size);
    size_t n = wa.tlvs.back().pos;
    c.require(n == wb.tlvs.back().pos, "SEI %zu: other layout without emulation prevention", k);
    for (size_t i = 0; i < n; i++) c.require(wa.payload[i] == wb.payload[i] || i == 16, "SEI %zu: byte %zu of the payload depends on emulation prevention", k, i);
    c.require((wa.reserved ^ wb.reserved) == 0x80, "SEI %zu: reserved bytes %02x and %02x", k, wa.reserved, wb.reserved);
    if (made_up)
      for (auto *w : {&wa, &wb}) {
        Bytes f = fake_signature(k, ref_max_sig(key_by_name(cfg.key)));
        c.require(w->sig_len == f.size() && Bytes(w->payload.begin() + w->sig_pos, w->payload.begin() + w->sig_pos + f.size()) == f, "SEI %zu: signature %s is sent as %s", k,
            hexs(f.data(), f.size(), 80).c_str(), hexs(w->payload.data() + w->sig_pos, w->sig_len, 80).c_str());
      }
    epbs += (int)(a[k].d.size() - epb_remove(a[k].d).size());
    if (wa.payload_size >= 255) c.nontrivial();
    c.label(strf("size/255=%zu", std::min<size_t>(wa.payload_size / 255, 20)));
  }
  // The other API delivers the same bytes.
  if (c.src.chance(1, 4) && !cfg.golden) {
    sched_sign_plan(nullptr, 0);
    det_rand_seed(rs);
    Stream s = sign_stream(c, cfg, in, PULL_PREPEND_API);
    size_t k = 0;
    for (auto &n : s)
      if (n.t == 'S') {
        c.require(k < a.size() && n.d == a[k].d, "get_nalu_to_prepend() delivers another SEI %zu", k);
        k++;
      }
    c.require(k == a.size(), "get_nalu_to_prepend() delivers %zu SEIs", k);
  }
  if (epbs) c.nontrivial();
}

// ---- P14, P32 --------------------------------------------------------------------------------------
// Changes a setting that may be changed during signing.
static void change_setting(Ctx &c, Signer &s, SignCfg &cfg) {
  switch (c.src.draw(7)) {
    case 0:
      cfg.level = cfg.level == SV_AUTHENTICITY_LEVEL_FRAME ? SV_AUTHENTICITY_LEVEL_GOP : SV_AUTHENTICITY_LEVEL_FRAME;
      c.require(signed_video_set_authenticity_level(s.sv, cfg.level) == SV_OK, "set level failed");
      break;
    case 1:
      cfg.recurrence = (unsigned)(1 + c.src.draw(c.src.chance(1, 4) ? 1000 : 15));
      c.require(signed_video_set_recurrence_interval_frames(s.sv, cfg.recurrence) == SV_OK, "set recurrence failed");
      break;
    case 2:
      cfg.sei_epb = !cfg.sei_epb;
      c.require(signed_video_set_sei_epb(s.sv, cfg.sei_epb) == SV_OK, "set epb failed");
      break;
    case 3:
      cfg.pubkey_in_sei = !cfg.pubkey_in_sei;
      c.require(signed_video_add_public_key_to_sei(s.sv, cfg.pubkey_in_sei) == SV_OK, "set pubkey flag failed");
      break;
    case 4:
      cfg.max_sei = c.src.draw(1500);
      c.require(signed_video_set_max_sei_payload_size(s.sv, cfg.max_sei) == SV_OK, "set max size failed");
      break;
    case 5: {
      cfg.has_info = true;
      const char *p[5];
      for (int i = 0; i < 5; i++) {
        cfg.info[i].reset();
        if (!c.src.chance(1, 6)) cfg.info[i] = std::string(c.src.draw(12), (char)('a' + c.src.draw(26)));
        p[i] = cfg.info[i] ? cfg.info[i]->c_str() : nullptr;
      }
      c.require(signed_video_set_product_info(s.sv, p[0], p[1], p[2], p[3], p[4]) == SV_OK, "set info failed");
      break;
    }
    case 6: {
      std::string k = all_keys()[c.src.weighted({20, 20, 10, 5, 4, 2, 3, 3, 5, 1})];
      if (key_by_name(k).rsa && !cfg.hash.empty()) break;
      cfg.key = k;
      const std::string &pem = key_by_name(k).priv;
      c.require(signed_video_set_private_key_new(s.sv, pem.data(), pem.size()) == SV_OK, "set key failed");
      break;
    }
  }
}

static void model_run(Ctx &c, const SignCfg &cfg0, const Stream &in, int p_change, int *n_sei, int *n_list, int *n_rec, int *n_changes) {
  SignCfg cfg = cfg0;
  Signer s(cfg, &c);
  RefSigner ref(cfg);
  size_t idx = 0;
  for (auto &n : in) {
    if (p_change && c.src.chance(p_change, 100)) {
      change_setting(c, s, cfg);
      ref.cfg = cfg;
      ++*n_changes;
    }
    RefSei r;
    bool closes = ref.add(n, &r);
    auto rc = s.add(n.d, n.has_ts ? &n.ts : nullptr);
    c.require(rc == SV_OK, "adding NALU %zu failed: %d", idx, rc);
    Bytes sei;
    c.require(s.pull(nullptr, &sei, nullptr, nullptr) == SV_OK, "getting an SEI failed");
    c.require(closes == !sei.empty(), "%s SEI after NALU %zu of type %c", closes ? "no" : "unexpected", idx, n.t);
    if (closes) {
      ++*n_sei;
      *n_list += r.list;
      *n_rec += r.recurrent;
      std::string e = ref_compare(cfg, r, sei);
      c.require(e.empty(), "SEI %d (after NALU %zu, %d pictures, recurrent=%d list=%d): %s", *n_sei - 1, idx, r.nalus, r.recurrent, r.list, e.c_str());
      c.require(s.pull(nullptr, &sei, nullptr, nullptr) == SV_OK && sei.empty(), "a second SEI for one GOP");
    }
    idx++;
  }
}

PROPERTY(P14, "A stream is signed with random settings, some changed on the way, and every SEI is compared with the reference; non-trivial when at least two SEIs are checked and one has a hash list or recurrent data.") {
  CfgOpts co;
  co.maxsei = true;
  SignCfg cfg = gen_cfg(c.src, co);
  if (c.src.chance(1, 12)) cfg.recurrence = 1 + (unsigned)c.src.draw(1000);
  if (c.src.chance(1, 800)) {  // a session that lasts for days
    cfg.key = c.src.coin() ? "ec256_0" : "ec256_1";
    const int gops = 65536 + 50;
    cfg.recurrence = 1 + (unsigned)c.src.draw(70000);
    std::string cycle[3] = {"I", "IP", "IPIvI"};
    const std::string &t = cycle[c.src.weighted({4, 1, 1})];
    c.note("%s %d GOPs of %s", cfg.str().c_str(), gops, t.c_str());
    Signer s(cfg, &c);
    RefSigner ref(cfg);
    int n = 0;
    for (int i = 0; n < gops; i++) {
      Nalu x = plain_nalu(cfg.codec, t[i % t.size()], i);
      RefSei r;
      bool closes = ref.add(x, &r);
      auto rc = s.add(x.d, nullptr);
      c.require(rc == SV_OK, "adding NALU %d after %d SEIs failed: %d", i, n, rc);
      Bytes sei;
      c.require(s.pull(nullptr, &sei, nullptr, nullptr) == SV_OK, "getting an SEI failed");
      c.require(closes == !sei.empty(), "%s SEI after NALU %d", closes ? "no" : "unexpected", i);
      if (!closes) continue;
      n++;
      std::string e = ref_compare(cfg, r, sei, n < 3 || gops - n < 60 || n % 1000 == 0);
      c.require(e.empty(), "SEI %d of %d: %s", n, gops, e.c_str());
    }
    c.nontrivial();
    c.label("long session");
    return;
  }
  GenOpts o;
  o.min_gops = 2;
  o.max_gops = 6;
  int big = c.src.weighted({30, 2, 1});
  o.max_gop_len = big == 0 ? 8 : 60;
  o.max_body = big ? 6 : 60;
  o.trailing_zeros = c.src.coin();
  Stream in = gen_stream(c.src, cfg.codec, o);
  if (big == 2) {  // around the limit of the hash list
    int hs = EVP_MD_get_size(ref_md(cfg.hash)), lim = 64 * 300 / hs + c.src.range(-2, 2);
    std::string t = "I" + std::string(lim - 1, 'P') + "IPI";
    o.big = false;
    in = stream_from_types(c.src, cfg.codec, t.c_str(), o);
  }
  set_ts(c, in);
  end_with_p(c, cfg.codec, in, o);
  if (c.src.chance(1, 4)) dup_nalus(c.src, in);
  int pc = c.src.chance(1, 3) ? 10 : 0;
  c.note("%s changes=%d%% %s", cfg.str().c_str(), pc, types(in).substr(0, 200).c_str());
  int ns = 0, nl = 0, nr = 0, nc = 0;
  model_run(c, cfg, in, pc, &ns, &nl, &nr, &nc);
  if (ns >= 2 && (nl || nr)) c.nontrivial();
  c.label(strf("list=%d rec=%d chg=%d", nl > 0, nr > 0, nc > 0));
}

PROPERTY(P32, "A stream is signed with a random recurrence interval, changed on the way in some cases, and the presence of recurrent data is compared with the reference for every SEI; non-trivial when some SEIs have the data and some do not.") {
  CfgOpts co;
  co.info = c.src.chance(1, 4);
  co.recurrence = false;
  SignCfg cfg = gen_cfg(c.src, co);
  int kind = c.src.weighted({6, 2, 1});
  cfg.recurrence = kind == 0 ? (unsigned)(1 + c.src.draw(20)) : kind == 1 ? (unsigned)(1 + c.src.draw(100)) : 0x7fffffffu + (unsigned)c.src.draw(0x80000000ull);
  GenOpts o;
  o.min_gops = 3;
  o.max_gops = 14;
  o.max_gop_len = 1 + (int)c.src.draw(8);
  o.max_body = 8;
  o.big = false;
  if (c.src.chance(1, 40)) {  // a long session
    o.min_gops = 60;
    o.max_gops = 160;
    cfg.recurrence = 1 + (unsigned)c.src.draw(400);
  }
  Stream in = gen_stream(c.src, cfg.codec, o);
  end_with_p(c, cfg.codec, in, o);
  c.note("%s %s", cfg.str().c_str(), types(in).c_str());
  Signer s(cfg, &c);
  RefSigner ref(cfg);
  int with = 0, without = 0, k = 0;
  bool changes = c.src.chance(1, 4), parts = c.src.chance(1, 4);
  const int late = c.src.coin() ? 1 : 1 + (int)c.src.draw(12);  // SEIs are not always fetched at once
  std::vector<RefSei> q;
  for (size_t i = 0; i < in.size(); i++) {
    const Nalu &n = in[i];
    if (changes && c.src.chance(1, 12)) {
      cfg.recurrence = (unsigned)(1 + c.src.draw(20));
      ref.cfg = cfg;
      c.require(signed_video_set_recurrence_interval_frames(s.sv, cfg.recurrence) == SV_OK, "set recurrence failed");
    }
    RefSei r;
    if (ref.add(n, &r)) q.push_back(r);
    size_t cut = parts && n.d.size() > n.sc() + 4 && c.src.coin() ? n.sc() + 3 + c.src.draw(n.d.size() - n.sc() - 3) : 0;
    if (cut) c.require(s.add_part(n.d.data(), cut, nullptr, false) == SV_OK, "adding a part failed");
    c.require(s.add_part(n.d.data() + cut, n.d.size() - cut, nullptr, true) == SV_OK, "adding a NALU failed");
    if (late > 1 && i + 1 < in.size() && q.size() < 40 && c.src.draw(late)) continue;
    for (;;) {
      Bytes sei;
      c.require(s.pull(nullptr, &sei, nullptr, nullptr) == SV_OK, "getting an SEI failed");
      c.require(q.empty() == sei.empty(), "SEI at the wrong place");
      if (q.empty()) break;
      r = q.front();
      q.erase(q.begin());
      WireSei w = parse_sei(sei, cfg.codec, cfg.sei_epb);
      c.require(w.ok, "%s", w.err.c_str());
      bool pk = w.find(TAG_PUBKEY), pi = w.find(TAG_PRODUCT), ci = w.find(TAG_CRYPTO);
      c.require(pk == (r.recurrent && cfg.pubkey_in_sei) && pi == r.recurrent && ci == r.recurrent, "SEI %d: public key %d, product info %d, hash algorithm %d, but recurrent data is %sdue (interval %u)", k, pk, pi, ci, r.recurrent ? "" : "not ", cfg.recurrence);
      c.require(w.find(TAG_GENERAL) && w.find(TAG_SIGNATURE), "SEI %d: mandatory data missing", k);
      if (k == 0) c.require(pi, "the first SEI has no recurrent data");
      std::string e = ref_compare(cfg, r, sei);
      c.require(e.empty(), "SEI %d: %s", k, e.c_str());
      (r.recurrent ? with : without)++;
      k++;
    }
  }
  if (with && without) c.nontrivial();
  c.label(strf("with=%d without=%d", std::min(with, 5), std::min(without, 5)));
}

// ---- P15 -------------------------------------------------------------------------------------------
PROPERTY(P15, "The NAL Units of a stream are added in random parts and the SEIs compared with those of adding them whole; non-trivial when a picture is split and an SEI is produced.") {
  CfgOpts co;
  co.maxsei = true;
  SignCfg cfg = gen_cfg(c.src, co);
  GenOpts o;
  o.min_gops = 2;
  o.max_gops = 5;
  o.max_gop_len = 6;
  o.trailing_zeros = c.src.coin();
  Stream in = gen_stream(c.src, cfg.codec, o);
  set_ts(c, in);
  end_with_p(c, cfg.codec, in, o);
  // Zeros within, and more of them at the end, than anyone would produce.
  if (c.src.chance(1, 4))
    for (auto &n : in)
      if (n.d.size() > n.sc() + 6 && c.src.chance(1, 3)) {
        size_t a = n.sc() + 4, k = 1 + c.src.draw(n.d.size() - a - 1);
        for (size_t i = 0; i < k; i++) n.d[a + i] = 0;
        if (c.src.coin()) n.d.resize(n.d.size() + c.src.draw(70));
      }
  int max_parts = c.src.chance(1, 4) ? 40 : 4;
  uint64_t rs = c.src.raw64();
  c.note("%s parts<=%d %s", cfg.str().c_str(), max_parts, types(in).c_str());
  det_rand_seed(rs);
  Stream whole = sign_stream(c, cfg, in, PULL_AFTER);
  det_rand_seed(rs);
  Signer s(cfg, &c);
  Stream out;
  int split = 0, refused = 0, zero_parts = 0;
  for (auto &n : in) {
    // The start code, header and the first byte of the slice are in the first part.
    size_t lo = n.sc() + 3, hi = n.d.size();
    if (hi > 0) hi--;
    size_t end = n.d.size();
    while (end > lo && n.d[end - 1] == 0) end--;
    std::vector<size_t> cuts;
    if (hi > lo && c.src.chance(3, 4)) {
      int k = (int)c.src.draw(max_parts);
      for (int i = 0; i < k; i++) cuts.push_back(lo + c.src.draw(hi - lo + 1));
      if (end > lo && end <= hi && c.src.coin()) cuts.push_back(end);  // only zeros after it
      if (!cuts.empty() && cuts.back() >= end) zero_parts++;
    }
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    cuts.push_back(n.d.size());
    if (cuts.size() > 1 && n.pic()) split++;
    size_t pos = 0;
    for (size_t k = 0; k < cuts.size(); k++) {
      bool last = k + 1 == cuts.size();
      // The timestamp counts with the part that completes the NALU.
      auto rc = s.add_part(n.d.data() + pos, cuts[k] - pos, n.has_ts ? &n.ts : nullptr, last);
      if (rc == SV_NOT_SUPPORTED) {
        // SEIs are waiting; fetch them and add again, as documented.
        refused++;
        Bytes sei;
        for (;;) {
          c.require(s.pull(nullptr, &sei, nullptr, nullptr) == SV_OK, "getting an SEI failed");
          if (sei.empty()) break;
          Nalu x;
          x.d = sei;
          x.t = 'S';
          out.push_back(x);
        }
        rc = s.add_part(n.d.data() + pos, cuts[k] - pos, n.has_ts ? &n.ts : nullptr, last);
      }
      c.require(rc == SV_OK, "adding part %zu failed: %d", k, rc);
      pos = cuts[k];
    }
    out.push_back(n);
    // Either fetch, or only ask for the size which makes the next part be refused.
    Bytes sei;
    if (c.src.chance(1, 6)) {
      size_t sz = 0;
      c.require(signed_video_get_sei(s.sv, nullptr, &sz, nullptr, nullptr, 0, nullptr) == SV_OK, "asking for the size failed");
      continue;
    }
    for (;;) {
      c.require(s.pull(nullptr, &sei, nullptr, nullptr) == SV_OK, "getting an SEI failed");
      if (sei.empty()) break;
      Nalu x;
      x.d = sei;
      x.t = 'S';
      out.push_back(x);
    }
  }
  Bytes sei;
  while (s.pull(nullptr, &sei, nullptr, nullptr) == SV_OK && !sei.empty()) {
    Nalu x;
    x.d = sei;
    x.t = 'S';
    out.push_back(x);
  }
  c.require(out.size() == whole.size(), "%zu NALUs with parts, %zu without\n%s\n%s", out.size(), whole.size(), types(out).c_str(), types(whole).c_str());
  for (size_t i = 0; i < out.size(); i++)
    c.require(out[i].d == whole[i].d, "NALU %zu (%c) differs from that of the stream added whole (%c)\n%s\n%s", i, out[i].t, whole[i].t, types(out).c_str(), types(whole).c_str());
  if (split && num_seis(whole)) c.nontrivial();
  c.label(strf("split=%d refused=%d zero parts=%d", std::min(split, 5), std::min(refused, 3), zero_parts > 0));
}

// ---- P31 -------------------------------------------------------------------------------------------
PROPERTY(P31, "A stream is signed without a payload limit and with one drawn around the payload sizes that gave; the SEIs of both are compared and the limited stream is validated, intact and with one picture altered; non-trivial when the limit hits some SEI.") {
  CfgOpts co;
  co.level = false;
  co.recurrence = c.src.coin();
  SignCfg cfg = gen_cfg(c.src, co);
  cfg.level = SV_AUTHENTICITY_LEVEL_FRAME;
  if (c.src.chance(1, 3)) gen_attest(c, cfg);
  GenOpts o;
  o.min_gops = 4;
  o.max_gops = 8;
  o.max_gop_len = c.src.chance(1, 6) ? 40 : 12;
  o.max_body = 10;
  o.big = false;
  Stream in = gen_stream(c.src, cfg.codec, o);
  set_ts(c, in);
  end_with_p(c, cfg.codec, in, o);
  Stream a = sign_stream(c, cfg, in, PULL_AFTER);
  std::vector<WireSei> wa;
  for (auto &n : a)
    if (n.t == 'S') {
      wa.push_back(parse_sei(n.d, cfg.codec, cfg.sei_epb));
      c.require(wa.back().ok, "%s", wa.back().err.c_str());
      c.require(wa.back().find(TAG_HASHLIST) != nullptr, "no list of hashes without a limit");
    }
  SignCfg lim = cfg;
  if (c.src.chance(1, 6))
    lim.max_sei = 1 + c.src.draw(3000);
  else
    lim.max_sei = (size_t)std::max<int>(1, (int)wa[c.src.draw(wa.size())].payload_size + c.src.range(-3, 3));
  c.note("%s limit=%zu %s", cfg.str().c_str(), lim.max_sei, types(a).c_str());
  Stream b = sign_stream(c, lim, in, PULL_AFTER);
  c.require(num_seis(b) == (int)wa.size(), "%d SEIs with, %zu without a limit", num_seis(b), wa.size());
  int dropped = 0;
  std::vector<bool> has;
  for (size_t g = 0; g < wa.size(); g++) {
    WireSei w = parse_sei(b[find_sei(b, (int)g)].d, cfg.codec, cfg.sei_epb);
    c.require(w.ok, "%s", w.err.c_str());
    bool want = wa[g].payload_size <= lim.max_sei;
    bool got = w.find(TAG_HASHLIST) != nullptr;
    c.require(got == want, "SEI %zu would be %zu bytes, limit %zu, but the list of hashes is %s", g, wa[g].payload_size, lim.max_sei, got ? "present" : "absent");
    // Everything else is the same.
    for (auto &t : wa[g].tlvs) {
      if (t.tag == TAG_HASHLIST || t.tag == TAG_SIGNATURE) continue;
      const Tlv *u = w.find(t.tag);
      c.require(u && u->v == t.v, "SEI %zu: tag %d is changed by the limit", g, t.tag);
    }
    size_t expect = wa[g].payload_size - (want ? 0 : wa[g].find(TAG_HASHLIST)->v.size() + 3);
    c.require(w.payload_size == expect, "SEI %zu has a payload of %zu bytes, should be %zu", g, w.payload_size, expect);
    dropped += !got;
    has.push_back(got);
  }
  if (c.src.chance(1, 3)) {
    // The limit that holds when the GOP ends counts.
    Signer s(lim, &c);
    size_t limit = lim.max_sei, g = 0;
    for (auto &n : in) {
      if (c.src.chance(1, 4)) {
        limit = c.src.chance(1, 3) ? 0 : (size_t)std::max<int>(1, (int)wa[c.src.draw(wa.size())].payload_size + c.src.range(-1, 1));
        c.require(signed_video_set_max_sei_payload_size(s.sv, limit) == SV_OK, "setting the limit failed");
      }
      c.require(s.add(n.d, n.has_ts ? &n.ts : nullptr) == SV_OK, "adding a NALU failed");
      for (;;) {
        Bytes x;
        c.require(s.pull(nullptr, &x, nullptr, nullptr) == SV_OK, "getting an SEI failed");
        if (x.empty()) break;
        c.require(g < wa.size(), "too many SEIs");
        WireSei w = parse_sei(x, cfg.codec, cfg.sei_epb);
        c.require(w.ok, "%s", w.err.c_str());
        bool want = limit == 0 || wa[g].payload_size <= limit, got = w.find(TAG_HASHLIST) != nullptr;
        c.require(got == want, "SEI %zu would be %zu bytes, the limit is now %zu, but the list of hashes is %s", g, wa[g].payload_size, limit, got ? "present" : "absent");
        g++;
      }
    }
    c.label("limit changed");
  }
  std::string uk = key_by_name(cfg.key).pub;
  Validation v = validate(b, cfg.codec, &uk);
  std::string sum = step_summary(b, v);
  for (size_t g = 0; g < wa.size(); g++) {
    const Report *r = report_at(v, find_sei(b, (int)g));
    c.require(r && r->auth == SV_AUTH_RESULT_OK, "GOP %zu is reported as %s with the limit\n%s", g, r ? auth_name(r->auth) : "nothing", sum.c_str());
    int n = (int)pics_of(b, (int)g).size();
    c.require(r->expected == n && r->received == n, "GOP %zu has wrong counts\n%s", g, sum.c_str());
  }
  // One altered picture in a GOP after the first.
  int g = 1 + (int)c.src.draw(wa.size() - 1);
  std::vector<int> pics = pics_of(b, g);
  if (pics.size() > 1) {
    int i = pics[1 + c.src.draw(pics.size() - 1)];
    Stream t = b;
    t[i].d[t[i].sc() + 4] ^= 0x40;
    Validation vt = validate(t, cfg.codec, &uk);
    Marks mk = align_marks(t, vt);
    std::string st = step_summary(t, vt);
    c.require(mk.err.empty(), "%s", mk.err.c_str());
    const Report *r = report_at(vt, find_sei(t, g));
    c.require(r && r->auth == SV_AUTH_RESULT_NOT_OK, "altered picture %d of GOP %d: %s\n%s", i, g, r ? auth_name(r->auth) : "no report", st.c_str());
    for (int p : pics) {
      char want = !has[g] || p == i ? 'N' : '.';
      c.require(mk.last[p] == want, "altered picture %d of GOP %d %s a list: picture %d marked %c\n%s", i, g, has[g] ? "with" : "without", p, mk.last[p], st.c_str());
    }
  }
  if (dropped) c.nontrivial();
  c.label(strf("dropped %s", dropped == 0 ? "none" : dropped == (int)wa.size() ? "all" : "some"));
}

// ---- P35 -------------------------------------------------------------------------------------------
PROPERTY(P35, "A stream that starts with an I-frame or in the middle of a GOP is signed, its end is told once or twice at random points, and it goes on or ends there; the SEIs are counted and the stream is validated untouched and with pictures of one part altered or lost; non-trivial when a part before an I-frame or one ended by telling so is validated.") {
  CfgOpts co;
  co.maxsei = c.src.chance(1, 4);
  SignCfg cfg = gen_cfg(c.src, co);
  GenOpts o;
  o.max_body = 20;
  o.extras = c.src.coin();
  const int parts = 1 + (int)c.src.draw(6);
  const bool before = c.src.chance(1, 5);
  // Whether the key is in an SEI is counted over the session (P32): have it in the first one after a reset.
  if (before) cfg.recurrence = 1;
  Signer s(cfg, &c);
  Stream out;
  std::string log;
  std::vector<int> pics;       // signed pictures of each part
  std::vector<bool> special;   // before an I-frame, or ended by telling so
  int open = 0;                // pictures since the latest SEI
  int base = 0;
  if (before) {  // the session has been used, and reset
    std::string t[] = {"IPPIP", "PPI", "P", "I", "IpPpIIP"};
    for (auto &n : stream_from_types(c.src, cfg.codec, t[c.src.draw(5)].c_str(), o)) {
      c.require(s.add(n.d, nullptr) == SV_OK, "adding a NALU failed");
      Bytes b;
      do c.require(s.pull(nullptr, &b, nullptr, nullptr) == SV_OK, "getting an SEI failed");
      while (!b.empty());
    }
    c.require(signed_video_reset(s.sv) == SV_OK, "reset failed");
  }
  bool has_i = false;
  const bool stamps = c.src.coin();
  int64_t ts = 1, now = 0;  // of the I-frame being added, 0 otherwise
  auto fetch = [&](bool expected, const char *what) {
    int n = 0;
    for (;;) {
      Bytes b;
      c.require(s.pull(nullptr, &b, nullptr, nullptr) == SV_OK, "getting an SEI failed");
      if (b.empty()) break;
      WireSei w = parse_sei(b, cfg.codec, cfg.sei_epb);
      c.require(w.ok, "%s", w.err.c_str());
      const Tlv *g = w.find(TAG_GENERAL);
      c.require(g && g->v.size() > 7, "no general data");
      if (pics.empty() && before) base = (int)be(g->v, 1, 4) - 1;
      c.require((int)be(g->v, 1, 4) == base + (int)pics.size() + 1, "SEI %zu has counter %d", pics.size(), (int)be(g->v, 1, 4));
      const size_t has_ts = g->v.size() > 10 ? g->v[10] : 2;
      c.require(has_ts == (now ? 1 : 0) && (!now || (g->v.size() >= 19 && (int64_t)be(g->v, 11, 8) == now)), "SEI %zu after %s has a wrong timestamp or a stale one in %s", pics.size(), what, log.c_str());
      c.require((int)be(g->v, 5, 2) == open, "SEI %zu says %d pictures, %d were added since the previous one", pics.size(), (int)be(g->v, 5, 2), open);
      Nalu x;
      x.d = b;
      x.t = 'S';
      x.gop = (int)pics.size();
      out.push_back(x);
      pics.push_back(open);
      open = 0;
      n++;
    }
    c.require(n == (expected ? 1 : 0), "%d SEIs after %s in %s", n, what, log.c_str());
  };
  int uid = 0;
  auto add = [&](char t) {
    Nalu x = make_nalu(c.src, cfg.codec, t, o, ++uid);
    log += t;
    const int64_t stamp = ts += 40000;
    now = stamps && t == 'I' ? stamp : 0;
    auto rc = s.add(x.d, stamps ? &stamp : nullptr);
    c.require(rc == SV_OK, "adding NALU %d failed: %d", uid, rc);
    bool closes = t == 'I' && open > 0;
    x.gop = x.pic() ? (int)pics.size() + closes : -1;
    out.push_back(x);
    if (closes) special.push_back(!has_i);
    fetch(closes, "an I-frame");
    now = 0;
    if (x.pic()) open++;
    if (t == 'I') has_i = true;
  };
  auto extra = [&]() {
    if (o.extras && c.src.chance(1, 3)) add("_vzo"[c.src.draw(4)]);
  };
  auto finish = [&]() {
    auto rc = signed_video_set_end_of_stream(s.sv);
    log += open ? '|' : '!';
    c.require(rc == SV_OK, "ending the stream failed: %d", rc);
    bool some = open > 0;
    if (some) special.push_back(true);
    fetch(some, "the end of the stream");
    has_i = false;
  };
  for (int k = 0; k < parts; k++) {
    // A part that does not start with an I-frame, if the last one was ended.
    if (!open && c.src.chance(1, 2)) {
      int n = 1 + (int)c.src.draw(4);
      for (int i = 0; i < n; i++) {
        extra();
        add(c.src.chance(1, 4) ? (i == 0 && c.src.chance(1, 4) ? 'i' : 'p') : 'P');
      }
    }
    extra();
    add('I');
    int n = (int)c.src.draw(5);
    for (int i = 0; i < n; i++) {
      extra();
      add(c.src.chance(1, 5) ? 'p' : 'P');
    }
    if (c.src.chance(1, 3)) {
      finish();
      if (c.src.chance(1, 4)) finish();
    }
  }
  bool ended = !open;
  if (!ended && c.src.chance(3, 4)) {
    finish();
    ended = true;
  }
  const std::string *uk = c.src.chance(1, 4) ? &key_by_name(cfg.key).pub : nullptr;
  c.note("%s %s %s", cfg.str().c_str(), log.c_str(), uk ? "user key" : "");
  Validation v = validate(out, cfg.codec, uk);
  std::string sum = step_summary(out, v);
  for (size_t i = 0; i < out.size(); i++) c.require(v.rc[i] == SV_OK, "adding NALU %zu for validation failed: %d\n%s", i, v.rc[i], sum.c_str());
  bool nt = false;
  for (size_t g = 0; g < pics.size(); g++) {
    const Report *r = report_at(v, find_sei(out, (int)g));
    c.require(r, "no report at SEI %zu\n%s", g, sum.c_str());
    c.require(r->auth == SV_AUTH_RESULT_OK && r->acc_auth == SV_AUTH_RESULT_OK, "untouched part %zu reported as %s (%s)\n%s", g, auth_name(r->auth), auth_name(r->acc_auth), sum.c_str());
    c.require(r->expected == pics[g] && r->received == pics[g], "part %zu with %d pictures: expected %d, received %d\n%s", g, pics[g], r->expected, r->received, sum.c_str());
    if (special[g]) nt = true;
  }
  Marks mk = align_marks(out, v);
  c.require(mk.err.empty(), "%s", mk.err.c_str());
  for (size_t i = 0; i < out.size(); i++)
    if (out[i].pic() && out[i].gop < (int)pics.size()) c.require(mk.last[i] == '.', "NALU %zu marked %c\n%s", i, mk.last[i] ? mk.last[i] : '?', sum.c_str());
  if (ended && !pics.empty()) {
    const Report *r = report_at(v, find_sei(out, (int)pics.size() - 1));
    c.require(r->pending == 0, "%d pictures pending at the end\n%s", r->pending, sum.c_str());
  }
  if (nt) c.nontrivial();
  c.label(strf("ended=%d special=%d", ended, nt));
  // Alter or remove a picture, not the first one of its part.
  std::vector<int> cand;
  for (size_t i = 0; i < out.size(); i++)
    if (out[i].pic() && out[i].gop >= 1 && out[i].gop < (int)pics.size() && (int)i != pics_of(out, out[i].gop)[0] && special[out[i].gop]) cand.push_back((int)i);
  if (cand.empty()) return;
  int at = cand[c.src.draw(cand.size())], g = out[at].gop;
  bool drop = c.src.coin();
  Stream t = out;
  if (drop) t.erase(t.begin() + at);
  else t[at].d[t[at].sc() + 4] ^= 0x40;
  Validation vt = validate(t, cfg.codec, uk);
  std::string st = step_summary(t, vt);
  int si = find_sei(t, g);
  const Report *r = report_at(vt, si);
  bool list = parse_sei(t[si].d, cfg.codec, cfg.sei_epb).find(TAG_HASHLIST);
  int want = drop && list ? SV_AUTH_RESULT_OK_WITH_MISSING_INFO : SV_AUTH_RESULT_NOT_OK;
  c.require(r && r->auth == want, "picture %d of part %d %s: reported as %s\n%s", at, g, drop ? "lost" : "altered", r ? auth_name(r->auth) : "nothing", st.c_str());
  c.require(vt.final->acc_auth == want, "picture %d of part %d %s: finally %s\n%s", at, g, drop ? "lost" : "altered", auth_name(vt.final->acc_auth), st.c_str());
  if (list) c.require(r->expected == pics[g] && r->received == pics[g] - drop, "picture %d of part %d %s: expected %d, received %d\n%s", at, g, drop ? "lost" : "altered", r->expected, r->received, st.c_str());
}
