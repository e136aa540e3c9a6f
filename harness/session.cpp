#include "session.h"

std::string damage_stream(Ctx &c, SignedVideoCodec codec, Stream &s, int ops);

enum {
  S_KEY, S_KEY_OLD, S_HASH, S_LEVEL, S_INFO, S_PUBKEY, S_RECUR, S_EPB, S_GOLDEN, S_MAX, S_ATTEST, S_GEN_GOLDEN, S_ADD, S_ADD_NOTS, S_PART,
  S_GET, S_GET_ONE, S_SIZE, S_PREPEND, S_EOS, S_RESET, S_IS_GOLDEN, S_BAD,
  V_KEY, V_ADD, V_REPORT, V_RESET, V_IS_GOLDEN, V_PARSE, V_DROP, V_BAD
};
static const char *kOpName[] = {"key", "key(algo)", "hash", "level", "info", "pubkey", "recur", "epb", "golden", "max", "attest", "gengolden", "add", "add(no ts)", "part",
    "get", "get1", "size", "prepend", "eos", "reset", "isgolden", "bad",
    "key", "add", "report", "reset", "isgolden", "parse", "drop", "bad"};

static std::string full(const Report &r) {
  std::string o = r.str() + " sign " + r.ver_sign + " this " + r.ver_this;
  for (auto &x : r.info) o += x ? " '" + *x + "'" : " -";
  return o;
}
struct Placed {
  uint8_t *base = nullptr, *p = nullptr;
  size_t n = 0;
  const Bytes &src;
  Placed(const Bytes &d, uint64_t &place) : n(d.size()), src(d) {
    place = mix64(place);
    if (place & 1) {
      base = p = (uint8_t *)malloc(n ? n : 1);
    } else {
      size_t before = (place >> 8) % 40, after = (place >> 16) % 40;
      base = (uint8_t *)malloc(n + before + after + 1);
      for (size_t i = 0; i < n + before + after; i++) base[i] = (uint8_t)(place >> (i % 56));
      p = base + before;
    }
    if (n) memcpy(p, d.data(), n);
  }
  bool same() const { return !n || !memcmp(p, src.data(), n); }
  ~Placed() { free(base); }
};

void Session::end() {
  signed_video_free(sv);
  sv = nullptr;
  for (size_t i = 0; i < held.size(); i++) {
    if (full(copy_report(held[i])) != held_str[i] && trouble.empty()) trouble = "a report changed when the session was freed";
    signed_video_authenticity_report_free(held[i]);
  }
  held.clear();
  held_str.clear();
}

std::string Session::step(size_t i) {
  const Op &o = p.ops[i];
  det_rand_seed(mix64(p.seed + i));
  if (!sv) sv = signed_video_create(p.codec);
  if (!sv) return "no session";
  std::string out;
  Placed b(o.d, place);
  int64_t ts = o.a;
  const int64_t *pts = o.g ? &ts : nullptr;
  int rc = 0;
  auto got = [&](const uint8_t *d, size_t n) { out += " SEI " + hexs(d, n, 1 << 20); };
  auto get_one = [&] {
    size_t sz = 0, sz2 = 0;
    unsigned pending = 0;
    int off = -7;
    const uint8_t *peek = o.f && b.n ? b.p : nullptr;
    rc = signed_video_get_sei(sv, nullptr, &sz, nullptr, peek, peek ? b.n : 0, nullptr);
    if (rc || !sz) return false;
    uint8_t *buf = (uint8_t *)malloc(sz);
    rc = signed_video_get_sei(sv, buf, &sz2, &off, peek, peek ? b.n : 0, &pending);
    if (!rc && sz2 <= sz) got(buf, sz2), out += strf(" of %zu at %d, %u more", sz, off, pending);
    free(buf);
    return !rc && sz2;
  };
  auto cs = [&](int q) { return o.str[q] ? o.str[q]->c_str() : nullptr; };
  switch (o.k) {
    case S_KEY: rc = signed_video_set_private_key_new(sv, (const char *)b.p, b.n); break;
    case S_KEY_OLD: rc = signed_video_set_private_key(sv, (sign_algo_t)o.a, (const char *)b.p, b.n); break;
    case S_HASH: rc = signed_video_set_hash_algo(sv, cs(0)); break;
    case S_LEVEL: rc = signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)o.a); break;
    case S_INFO: rc = signed_video_set_product_info(sv, cs(0), cs(1), cs(2), cs(3), cs(4)); break;
    case S_PUBKEY: rc = signed_video_add_public_key_to_sei(sv, o.f); break;
    case S_RECUR: rc = signed_video_set_recurrence_interval_frames(sv, (unsigned)o.a); break;
    case S_EPB: rc = signed_video_set_sei_epb(sv, o.f); break;
    case S_GOLDEN: rc = signed_video_set_using_golden_sei(sv, o.f); break;
    case S_MAX: rc = signed_video_set_max_sei_payload_size(sv, (size_t)o.a); break;
    case S_ATTEST: rc = sv_vendor_axis_communications_set_attestation_report(sv, b.n ? b.p : nullptr, (uint8_t)b.n, cs(0)); break;
    case S_GEN_GOLDEN: rc = signed_video_generate_golden_sei(sv); break;
    case S_ADD: rc = signed_video_add_nalu_for_signing_with_timestamp(sv, b.p, b.n, pts); break;
    case S_ADD_NOTS: rc = signed_video_add_nalu_for_signing(sv, b.p, b.n); break;
    case S_PART: rc = signed_video_add_nalu_part_for_signing_with_timestamp(sv, b.p, b.n, pts, o.f); break;
    case S_GET:
      for (int k = 0; k < 100 && get_one(); k++) {
      }
      break;
    case S_GET_ONE: get_one(); break;
    case S_SIZE: {
      size_t sz = 0;
      rc = signed_video_get_sei(sv, nullptr, &sz, nullptr, nullptr, 0, nullptr);
      out += strf(" size %zu", sz);
      break;
    }
    case S_PREPEND:
      for (int k = 0; k < 100; k++) {
        signed_video_nalu_to_prepend_t pr;
        memset(&pr, 0, sizeof pr);
        rc = signed_video_get_nalu_to_prepend(sv, &pr);
        bool more = !rc && pr.prepend_instruction != SIGNED_VIDEO_PREPEND_NOTHING;
        if (more) got(pr.nalu_data, pr.nalu_data_size), out += strf(" instr %d", pr.prepend_instruction);
        signed_video_nalu_data_free(pr.nalu_data);
        if (!more) break;
      }
      break;
    case S_EOS: rc = signed_video_set_end_of_stream(sv); break;
    case S_RESET:
    case V_RESET: rc = signed_video_reset(sv); break;
    case S_IS_GOLDEN:
    case V_IS_GOLDEN: rc = signed_video_is_golden_sei(sv, b.p, b.n); break;
    case S_BAD:
      switch (o.a) {
        case 0: rc = signed_video_add_nalu_for_signing_with_timestamp(sv, nullptr, 4, nullptr); break;
        case 1: rc = signed_video_set_private_key_new(sv, nullptr, 7); break;
        case 2: rc = signed_video_set_recurrence_interval_frames(sv, 0); break;
        case 3: rc = signed_video_get_nalu_to_prepend(sv, nullptr); break;
        case 4: rc = sv_vendor_axis_communications_set_attestation_report(sv, nullptr, 0, nullptr); break;
        default: rc = signed_video_set_private_key(sv, (sign_algo_t)7, "x", 1); break;
      }
      break;
    case V_KEY: rc = signed_video_set_public_key(sv, (const char *)b.p, b.n); break;
    case V_ADD: {
      signed_video_authenticity_t *a = nullptr;
      rc = signed_video_add_nalu_and_authenticate(sv, b.p, b.n, o.f ? &a : nullptr);
      if (a) {
        std::string s = full(copy_report(a));
        out += " " + s;
        if (o.g) {
          held.push_back(a);
          held_str.push_back(s);
        } else
          signed_video_authenticity_report_free(a);
      }
      break;
    }
    case V_REPORT: {
      signed_video_authenticity_t *a = signed_video_get_authenticity_report(sv);
      if (a) {
        std::string s = full(copy_report(a));
        out += " " + s;
        if (o.g) {
          held.push_back(a);
          held_str.push_back(s);
        } else
          signed_video_authenticity_report_free(a);
      } else
        out += " none";
      break;
    }
    case V_PARSE: signed_video_parse_sei(b.p, b.n, p.codec); break;
    case V_DROP:
      if (!held.empty()) {
        if (full(copy_report(held[0])) != held_str[0] && trouble.empty()) trouble = "a report changed while the session went on";
        signed_video_authenticity_report_free(held[0]);
        held.erase(held.begin());
        held_str.erase(held_str.begin());
      }
      break;
    default: {
      signed_video_authenticity_t *a = nullptr;
      rc = o.a == 0 ? signed_video_add_nalu_and_authenticate(sv, nullptr, 3, &a) : o.a == 1 ? signed_video_set_public_key(sv, nullptr, 3) : signed_video_add_nalu_and_authenticate(sv, b.p, 0, &a);
      break;
    }
  }
  if (!b.same() && trouble.empty()) trouble = strf("step %zu (%s) changed its input", i, kOpName[o.k]);
  return strf("%s rc=%d", kOpName[o.k], rc) + out;
}

bool is_setter(int k) { return k == S_KEY || k == S_KEY_OLD || k == S_HASH || k == S_ATTEST; }

static Bytes bytes_of(const std::string &s) { return Bytes(s.begin(), s.end()); }

Program gen_signer(Ctx &c, const ProgOpts &po) {
  Src &s = c.src;
  Program p;
  p.signer = true;
  CfgOpts co;
  co.maxsei = true;
  SignCfg cfg = gen_cfg(s, co);
  if (s.coin()) cfg.recurrence = 1 + (unsigned)s.draw(12);
  cfg.golden = s.chance(1, 6);
  if (po.attest && s.chance(1, 4)) gen_attest(c, cfg);
  p.codec = cfg.codec;
  p.seed = s.raw64();
  auto op = [&](int k) -> Op & {
    p.ops.emplace_back();
    p.ops.back().k = k;
    return p.ops.back();
  };
  auto info = [&](bool extra) {
    Op &o = op(S_INFO);
    for (int i = 0; i < 5; i++) {
      o.str[i] = cfg.info[i];
      if (extra) o.str[i] = s.chance(1, 5) ? std::optional<std::string>() : std::string(s.size_biased(20, 400), (char)('a' + i));
    }
  };
  auto odd = [&] {
    p.strange = true;
    switch (s.draw(15)) {
      case 0: op(S_BAD).a = (int)s.draw(6); break;
      case 1: op(S_RESET); break;
      case 2: info(true); break;
      case 3: op(S_KEY).d = bytes_of(key_by_name(s.pick(all_keys())).priv); break;
      case 4: op(S_KEY).d = bytes_of(s.coin() ? "garbage" : key_by_name("ec256_1").pub); break;
      case 5: {
        Op &o = op(S_KEY_OLD);
        const Key &k = key_by_name(s.pick(all_keys()));
        o.d = bytes_of(k.priv);
        o.a = k.rsa ? 0 : 1;
        break;
      }
      case 6: {
        static const std::vector<std::string> h = {"sha256", "sha512", "sha1", "sha3-256", "nonsense", "md4"};
        op(S_HASH).str[0] = s.pick(h);
        break;
      }
      case 7: op(S_GEN_GOLDEN); break;
      case 8: op(S_EOS); break;
      case 9: op(S_LEVEL).a = (int)s.draw(3); break;
      case 10: op(S_RECUR).a = 1 + (int)s.draw(20); break;
      case 11: op(S_MAX).a = (int)s.draw(900); break;
      case 12: op(S_GOLDEN).f = s.coin(); break;
      case 13: op(S_PUBKEY).f = s.coin(); break;
      default: {
        SignCfg t = cfg;
        if (po.attest) gen_attest(c, t);
        Op &o = op(S_ATTEST);
        o.d = t.attestation;
        if (s.chance(3, 4)) o.str[0] = t.cert_chain;
        break;
      }
    }
  };
  int rate = po.odd && s.coin() ? 1 + (int)s.draw(6) : 0;
  auto maybe_odd = [&] {
    if (rate && s.chance(rate, 24)) odd();
  };
  maybe_odd();
  op(S_KEY).d = bytes_of(key_by_name(cfg.key).priv);
  op(S_LEVEL).a = cfg.level;
  if (!cfg.hash.empty()) op(S_HASH).str[0] = cfg.hash;
  op(S_EPB).f = cfg.sei_epb;
  op(S_PUBKEY).f = cfg.pubkey_in_sei;
  if (cfg.has_info) info(false);
  op(S_RECUR).a = cfg.recurrence;
  op(S_MAX).a = (int64_t)cfg.max_sei;
  if (cfg.attest) {
    Op &o = op(S_ATTEST);
    o.d = cfg.attestation;
    o.str[0] = cfg.cert_chain;
  }
  if (cfg.golden) op(S_GOLDEN).f = true, op(S_GEN_GOLDEN), op(S_GET);
  GenOpts go;
  go.min_gops = 1;
  go.max_gops = 5;
  go.max_gop_len = 4;
  go.max_body = 40;
  go.big = false;
  go.trailing_zeros = true;
  Stream in = gen_stream(s, p.codec, go);
  for (auto &n : in) {
    maybe_odd();
    bool ts = s.chance(3, 4);
    int64_t t = (int64_t)s.draw(1000000);
    if (s.chance(1, 5) && n.d.size() > 2) {
      int parts = 2 + (int)s.draw(2);
      size_t at = 0;
      for (int k = 0; k < parts && at < n.d.size(); k++) {
        size_t m = k + 1 == parts ? n.d.size() - at : 1 + s.draw(n.d.size() - at);
        Op &o = op(S_PART);
        o.d.assign(n.d.begin() + at, n.d.begin() + at + m);
        at += m;
        o.f = at == n.d.size();
        o.g = ts;
        o.a = t;
      }
    } else {
      Op &o = op(s.chance(1, 10) ? S_ADD_NOTS : S_ADD);
      o.d = n.d;
      o.g = ts;
      o.a = t;
    }
    switch (s.weighted({6, 2, 2, 1, 2})) {
      case 0: op(S_GET); break;
      case 1: {
        Op &o = op(S_GET);
        o.f = true;
        o.d = n.d;
        break;
      }
      case 2: op(S_PREPEND); break;
      case 3: op(S_GET_ONE); break;
      default:
        if (s.coin()) op(S_SIZE);
        break;
    }
  }
  if (po.cut && s.coin()) p.ops.resize(1 + s.draw(p.ops.size()));
  p.desc = "signer " + cfg.str() + strf(" %zu calls", p.ops.size());
  return p;
}

Program gen_validator(Ctx &c, const ProgOpts &po) {
  Src &s = c.src;
  Program p;
  p.seed = s.raw64();
  Stream st;
  std::string key, what;
  if (s.chance(1, 3)) {
    Hostile h = hostile_stream(c);
    st = h.s;
    p.codec = h.codec;
    key = h.key;
    what = "hostile ";
    p.strange = true;
  } else {
    CfgOpts co;
    co.maxsei = true;
    SignCfg cfg = gen_cfg(s, co);
    cfg.golden = s.chance(1, 6);
    cfg.pubkey_in_sei = !s.chance(1, 8);
    if (po.vendor && s.chance(1, 3)) gen_genuine_attest(s, cfg);
    else if (po.attest && s.chance(1, 4)) gen_attest(c, cfg);
    GenOpts go;
    go.min_gops = 2;
    go.max_gops = 5;
    go.max_gop_len = 4;
    go.max_body = 40;
    go.big = false;
    Stream in = gen_stream(s, cfg.codec, go);
    set_ts(c, in);
    st = sign_stream(c, cfg, in, s.coin() ? PULL_PEEK : PULL_AFTER);
    p.codec = cfg.codec;
    key = cfg.key;
    what = cfg.str() + " ";
    if (s.chance(1, 3)) {
      what += damage_stream(c, cfg.codec, st, 1 + (int)s.draw(3));
      p.strange = true;
    }
  }
  auto op = [&](int k) -> Op & {
    p.ops.emplace_back();
    p.ops.back().k = k;
    return p.ops.back();
  };
  int rate = po.odd && s.coin() ? 1 + (int)s.draw(5) : 0;
  auto maybe_odd = [&](const Nalu &n) {
    if (!rate || !s.chance(rate, 20)) return;
    p.strange = true;
    switch (s.draw(9)) {
      case 0: op(V_RESET); break;
      case 1: op(V_BAD).a = (int)s.draw(3); break;
      case 2: op(V_IS_GOLDEN).d = n.d; break;
      case 3: op(V_KEY).d = bytes_of(s.coin() ? "garbage" : key_by_name("ec256_2").pub); break;
      case 4: {
        static const std::vector<std::string> odd = {"odd_DSA.pub", "odd_ED25519.pub", "odd_K1.pub", "odd_DH.pub"};
        op(V_KEY).d = bytes_of(read_file(g_keys_dir + "/" + s.pick(odd)));
        break;
      }
      case 5: op(V_REPORT).g = s.coin(); break;
      case 6: op(V_DROP); break;
      case 7: op(V_PARSE).d = n.d; break;
      default: op(V_ADD).d = n.d; break;
    }
  };
  int user = s.weighted({5, 2, 1});
  if (user) op(V_KEY).d = bytes_of(user == 1 ? key_by_name(key).pub : key_by_name(key == "ec256_1" ? "ec256_2" : "ec256_1").pub);
  for (auto &n : st) {
    maybe_odd(n);
    if (n.d.empty()) continue;
    Op &o = op(V_ADD);
    o.d = n.d;
    o.f = !s.chance(1, 8);
    o.g = s.chance(1, 5);
  }
  op(V_REPORT);
  if (po.cut && s.coin()) p.ops.resize(1 + s.draw(p.ops.size()));
  p.desc = "validator " + what + strf("user key %d, %zu calls ", user, p.ops.size()) + types(st);
  return p;
}
