#include "hostile.h"

#include <fstream>
#include <sstream>

std::string read_file(const std::string &path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

static const std::string &odd_pub(int i) {
  static const char *names[] = {"ED25519", "X25519", "ED448", "DSA", "K1", "RSA512", "DH"};
  static std::map<int, std::string> m;
  i %= 7;
  auto it = m.find(i);
  if (it == m.end()) it = m.emplace(i, read_file(g_keys_dir + "/odd_" + names[i] + ".pub")).first;
  return it->second;
}

static void append(Bytes &o, const Bytes &x) { o.insert(o.end(), x.begin(), x.end()); }
static void append(Bytes &o, const std::string &x) { o.insert(o.end(), x.begin(), x.end()); }

static const Bytes &pick_oid(Src &s) {
  static const std::vector<Bytes> oids = {
      {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 1},     // sha256
      {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 3},     // sha512
      {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 2},     // sha384
      {6, 5, 0x2b, 14, 3, 2, 26},                        // sha1
      {6, 8, 0x2a, 0x86, 0x48, 0x86, 0xf7, 13, 2, 5},    // md5
      {6, 8, 0x2a, 0x86, 0x48, 0x86, 0xf7, 13, 2, 4},    // md4
      {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 8},     // sha3-256
      {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 11},    // shake128
      {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 12},    // shake256
      {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 5},     // sha512-224
      {6, 5, 0x2b, 36, 3, 2, 1},                         // ripemd160
      {6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2},     // ecdsa-with-SHA256
      {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 77},    // unknown
      {6, 0},
      {5, 0},
      {6, 0x84, 0xff, 0xff, 0xff, 0xff, 1},
      {6, 9, 0x60},
      {},
  };
  return s.pick(oids);
}

// A value for |tag|, mostly well formed.
static Bytes gen_value(Ctx &c, int tag, const std::string &key) {
  Src &s = c.src;
  Bytes v;
  auto rnd = [&](size_t n) { append(v, rnd_bytes(s, n)); };
  switch (tag) {
    case TAG_GENERAL: {
      int ver = s.weighted({6, 1, 1, 1, 1}) == 0 ? 3 : (int)s.draw(6);
      v.push_back((uint8_t)ver);
      static const std::vector<uint64_t> ctr = {0, 1, 2, 3, 0xffffffffull, 0x80000000ull, 77};
      put_be(v, s.pick(ctr), 4);
      put_be(v, !s.chance(1, 12) ? s.draw(6) : s.draw(65536), 2);
      rnd(3);
      if (ver >= 2) {
        uint8_t f = s.chance(1, 4) ? (uint8_t)s.draw(256) : (uint8_t)s.coin();
        v.push_back(f);
        if (f & 1) rnd(8);
      }
      if (ver >= 3) {
        static const std::vector<int> hs = {32, 64, 48, 20, 16, 0, 1, 33, 65, 100};
        rnd(2 * s.pick(hs) + (s.chance(1, 8) ? 1 : 0));
      }
      break;
    }
    case TAG_PUBKEY: {
      int ver = s.chance(1, 3) ? (int)s.draw(4) : 2;
      v.push_back((uint8_t)ver);
      if (ver == 1) v.push_back((uint8_t)s.draw(3));
      std::string pem;
      switch (s.draw(6)) {
        case 0: pem = key_by_name(key).pub; break;
        case 1: pem = key_by_name(s.pick(all_keys())).pub; break;
        case 2: pem = odd_pub((int)s.draw(7)); break;
        case 3: pem = key_by_name(key).pub; pem = pem.substr(0, s.draw(pem.size())); break;
        case 4: pem = key_by_name(key).pub; pem[s.draw(pem.size())] ^= (char)(1 << s.draw(7)); break;
        default: pem = std::string(s.draw(40), (char)s.draw(256));
      }
      append(v, pem);
      break;
    }
    case TAG_PRODUCT: {
      v.push_back((uint8_t)(s.chance(1, 8) ? s.draw(4) : 1));
      int n = s.chance(1, 6) ? (int)s.draw(8) : 5;
      for (int i = 0; i < n; i++) {
        std::string t = i == 3 && s.coin() ? "Axis Communications AB" : std::string(s.chance(1, 6) ? s.draw(256) : s.draw(12), (char)s.draw(256));
        int lie = s.chance(1, 8) ? (int)s.draw(7) - 3 : 0;
        bool nul = !s.chance(1, 8);
        v.push_back((uint8_t)(t.size() + nul + lie));
        append(v, t);
        if (nul) v.push_back(0);
      }
      break;
    }
    case TAG_HASHLIST: {
      v.push_back((uint8_t)(s.chance(1, 8) ? 0 : 1));
      static const std::vector<int> n = {0, 1, 2, 3, 5, 299, 300, 301, 599, 600, 601, 1000};
      int hs = s.coin() ? 32 : (int)s.draw(70);
      size_t len = (size_t)hs * s.pick(n) + (s.chance(1, 4) ? s.draw(64) : 0);
      if (s.chance(1, 8)) len = 19190 + s.draw(30);
      if (len > 65000) len = 65000;
      uint64_t seed = s.raw64();
      for (size_t i = 0; i < len; i++) v.push_back((uint8_t)(mix64(seed + i / 8) >> (i % 8 * 8)));
      break;
    }
    case TAG_SIGNATURE: {
      size_t sz = s.chance(1, 3) ? s.draw(600) : 70, max = s.chance(1, 3) ? s.draw(600) : 72;
      v.push_back((uint8_t)(s.chance(1, 8) ? 0 : 1));
      v.push_back((uint8_t)s.draw(3));
      v.push_back((uint8_t)(s.chance(1, 8) ? s.draw(256) : s.draw(4)));
      put_be(v, sz, 2);
      rnd(max);
      break;
    }
    case TAG_CRYPTO: {
      v.push_back((uint8_t)(s.chance(1, 8) ? 0 : 1));
      Bytes oid = pick_oid(s);
      v.push_back((uint8_t)(oid.size() + (s.chance(1, 8) ? s.draw(5) : 0)));
      append(v, oid);
      break;
    }
    case TAG_VENDOR_AXIS: {
      int n = s.chance(1, 4) ? (int)s.draw(256) : 40 + (int)s.draw(160);
      v.push_back((uint8_t)(s.chance(1, 8) ? s.draw(3) : 1));
      v.push_back((uint8_t)(s.chance(1, 8) ? s.draw(256) : n));
      rnd(n);
      int k = (int)s.draw(4);
      for (int i = 0; i < k; i++) append(v, "-----BEGIN CERTIFICATE-----\n" + std::string(s.draw(60), (char)('A' + s.draw(26))) + "\n-----END CERTIFICATE-----\n");
      if (s.chance(1, 4)) v.push_back(0);
      break;
    }
    default:
      v.push_back((uint8_t)s.draw(3));
      rnd(s.draw(200));
  }
  if (s.chance(1, 8)) {
    if (s.coin() && !v.empty())
      v.resize(s.draw(v.size()));
    else
      rnd(1 + s.draw(9));
  }
  return v;
}
static void add_tlv_lying(Ctx &c, Bytes &o, int tag, const Bytes &v) {
  Src &s = c.src;
  o.push_back((uint8_t)tag);
  size_t n = v.size();
  if (s.chance(1, 16)) n = s.coin() ? n + 1 + s.draw(300) : n - s.draw(n + 1);
  put_be(o, n, tag == TAG_GENERAL || tag == TAG_CRYPTO ? 1 : 2);
  append(o, v);
}
static int pick_tag(Src &s) {
  static const std::vector<int> tags = {TAG_GENERAL, TAG_PUBKEY, TAG_PRODUCT, TAG_HASHLIST, TAG_CRYPTO, TAG_SIGNATURE, TAG_ARBITRARY, TAG_VENDOR_AXIS, 0, 8, 127, 128, 130, 255};
  return s.chance(1, 6) ? s.pick(tags) : tags[s.draw(8)];
}
static uint8_t pick_reserved(Src &s, uint8_t usual) {
  static const std::vector<int> rb = {0x80, 0x00, 0xc0, 0x40, 0xb0, 0x30, 0x90, 0xa0, 0x10, 0x20, 0xff};
  return s.chance(1, 3) ? (uint8_t)s.pick(rb) : usual;
}

static Bytes finish(Ctx &c, SignedVideoCodec codec, Bytes body, const std::string &key, const EVP_MD *md, bool epb) {
  Src &s = c.src;
  SeiShape sh;
  sh.epb = epb;
  static const std::vector<int> scs = {4, 3, 0};
  sh.sc = s.chance(1, 6) ? s.pick(scs) : 4;
  if (s.chance(1, 12)) sh.size_delta = s.coin() ? (long)s.draw(600) : -(long)s.draw(40);
  if (s.chance(1, 16)) sh.payload_type = s.coin() ? 4 : (int)s.draw(256);
  if (s.chance(1, 12)) sh.stop = false;
  switch (s.weighted({4, 2, 1, 1})) {
    case 0: return signed_sei(codec, body, key_by_name(key), md, sh);
    case 1: {
      Bytes sig = rnd_bytes(s, s.coin() ? 70 : s.draw(300));
      append(body, signature_tlv(sig, s.coin() ? 72 : s.draw(300), (int)s.draw(3), s.chance(1, 8) ? 0 : 1, (int)s.draw(2)));
      return build_sei(codec, body, sh);
    }
    case 2: add_tlv_lying(c, body, TAG_SIGNATURE, gen_value(c, TAG_SIGNATURE, key)); return build_sei(codec, body, sh);
    default: return build_sei(codec, body, sh);
  }
}
// A SEI out of thin air.
static Bytes forge_new(Ctx &c, SignedVideoCodec codec, const std::string &key, const EVP_MD *md, bool legacy) {
  Src &s = c.src;
  Bytes body(kSvUuid, kSvUuid + 16);
  uint8_t res = pick_reserved(s, legacy ? 0x80 : 0xb0);
  body.push_back(res);
  std::vector<int> tags;
  if (s.coin()) {
    tags = {TAG_GENERAL, TAG_PUBKEY, TAG_PRODUCT, TAG_HASHLIST, TAG_CRYPTO};
    if (s.coin()) tags.erase(tags.begin() + s.draw(tags.size()));
    if (s.chance(1, 3)) tags.insert(tags.begin() + s.draw(tags.size()), pick_tag(s));
  } else {
    int n = (int)s.draw(7);
    for (int i = 0; i < n; i++) tags.push_back(pick_tag(s));
  }
  for (int t : tags) add_tlv_lying(c, body, t, gen_value(c, t, key));
  return finish(c, codec, body, key, md, s.chance(1, 10) ? s.coin() : res & 0x80);
}
// A SEI of the stream with fields replaced and signed anew.
static Bytes forge_from(Ctx &c, SignedVideoCodec codec, const std::string &key, const EVP_MD *md, const Bytes &sei) {
  Src &s = c.src;
  WireSei w = parse_sei(sei, codec, true);
  if (!w.ok || !w.epb()) w = parse_sei(sei, codec, false);
  if (!w.ok) return sei;
  Bytes body(kSvUuid, kSvUuid + 16);
  uint8_t res = pick_reserved(s, w.reserved);
  body.push_back(res);
  std::vector<Tlv> t;
  for (auto &x : w.tlvs)
    if (x.tag != TAG_SIGNATURE) t.push_back(x);
  int n = 1 + (int)s.draw(3);
  for (int i = 0; i < n && !t.empty(); i++) {
    size_t k = s.draw(t.size());
    switch (s.draw(8)) {
      case 0: t.erase(t.begin() + k); break;
      case 1: { Tlv x = t[k]; t.insert(t.begin() + s.draw(t.size() + 1), x); } break;
      case 2: std::swap(t[k], t[s.draw(t.size())]); break;
      case 3: if (!t[k].v.empty()) t[k].v[s.draw(t[k].v.size())] = (uint8_t)s.draw(256); break;
      case 4: t[k].v.resize(s.draw(t[k].v.size() + 1)); break;
      case 5: { size_t m = 1 + s.draw(80); append(t[k].v, rnd_bytes(s, m)); } break;
      case 6: t[k].v = gen_value(c, t[k].tag, key); break;
      default: { Tlv x; x.tag = pick_tag(s); x.v = gen_value(c, x.tag, key); t.insert(t.begin() + s.draw(t.size() + 1), x); }
    }
  }
  for (auto &x : t) add_tlv_lying(c, body, x.tag, x.v);
  return finish(c, codec, body, key, md, res & 0x80);
}

static Bytes malformed(Ctx &c, SignedVideoCodec codec) {
  Src &s = c.src;
  static const std::vector<Bytes> fixed = {{0}, {1}, {0, 0, 1}, {0, 0, 0, 1}, {0, 0, 0, 1, 0x65}, {0, 0, 1, 6}, {6}, {6, 5}, {0, 0, 0, 1, 6, 5, 255}, {0, 0, 0}, {0, 0, 0, 0, 0, 1}, {0, 0, 0, 1, 0x4e, 1}, {0x4e, 1, 5}, {0x4e}, {0, 0, 0, 1, 0x80}, {0, 0, 0, 1, 0, 0, 0, 0}, {0x26, 1, 0x80}, {0x65, 0x80}};
  switch (s.draw(4)) {
    case 0: return s.pick(fixed);
    case 1: return rnd_bytes(s, 1 + s.draw(80));
    case 2: {  // a SEI with random content
      Bytes o = codec == SV_CODEC_H264 ? Bytes{0, 0, 0, 1, 6} : Bytes{0, 0, 0, 1, 0x4e, 1};
      if (s.coin()) o.push_back(5);
      int n = (int)s.draw(4);
      for (int i = 0; i < n; i++) o.push_back(255);
      if (s.coin()) o.push_back((uint8_t)s.draw(256)), o.insert(o.end(), kSvUuid, kSvUuid + s.draw(17));
      append(o, rnd_bytes(s, s.draw(60)));
      return o;
    }
    default: {
      GenOpts g;
      g.max_body = 20;
      Nalu n = make_nalu(s, codec, "IPipvUoz_"[s.draw(9)], g, 9000);
      n.d.resize(1 + s.draw(n.d.size()));
      return n.d;
    }
  }
}

Hostile hostile_stream(Ctx &c, int max_ops) {
  Src &s = c.src;
  Hostile h;
  GenOpts o;
  o.min_gops = 2;
  o.max_gops = 5;
  o.max_gop_len = 4;
  o.max_body = 30;
  o.big = false;
  o.extras = s.coin();
  const EVP_MD *md = nullptr;
  int kind = s.weighted({5, 3, 1});
  std::string what;
  if (kind == 1) {
    LegacyCfg l = gen_legacy_cfg(s);
    h.codec = l.codec;
    h.key = l.key;
    if (s.coin()) l.info[3] = "Axis Communications AB";
    md = ref_md(l.hash);
    Stream in = gen_stream(s, l.codec, o);
    set_ts(c, in);
    h.s = LegacySigner(l).sign(in);
    h.legacy = true;
    what = strf("legacy %s %s", l.codec == SV_CODEC_H264 ? "h264" : "h265", l.key.c_str());
  } else {
    CfgOpts co;
    SignCfg cfg = gen_cfg(s, co);
    cfg.golden = s.chance(1, 6);
    if (s.chance(1, 4)) {
      gen_attest(c, cfg);
      cfg.has_info = true;
      cfg.info[3] = "Axis Communications AB";
    }
    h.codec = cfg.codec;
    h.key = cfg.key;
    md = ref_md(cfg.hash);
    Stream in = gen_stream(s, cfg.codec, o);
    set_ts(c, in);
    h.s = kind == 0 ? sign_stream(c, cfg, in, s.coin() ? PULL_AFTER : PULL_PEEK) : in;
    what = (kind ? "unsigned " : "") + cfg.str();
  }
  if (!md) md = EVP_sha256();
  int ops = s.range(1, max_ops);
  std::string log;
  for (int i = 0; i < ops; i++) {
    Stream &t = h.s;
    if (t.empty()) break;
    size_t at = s.draw(t.size());
    Nalu x;
    x.t = '?';
    std::vector<size_t> seis;
    for (size_t k = 0; k < t.size(); k++)
      if (t[k].sei()) seis.push_back(k);
    int op = s.weighted({3, 4, 4, 2, 2, 1, 1, 1, 1});
    if (op == 1 && seis.empty()) op = 2;
    h.mutated++;
    switch (op) {
      case 0:
        x.d = malformed(c, h.codec);
        t.insert(t.begin() + at, x);
        log += " malformed";
        break;
      case 1: {
        size_t k = s.pick(seis);
        x.d = forge_from(c, h.codec, h.key, md, t[k].d);
        x.t = 's';
        h.forged++;
        if (s.coin())
          t[k] = x;
        else
          t.insert(t.begin() + (s.coin() ? k : at), x);
        log += " resigned";
        break;
      }
      case 2:
        x.d = forge_new(c, h.codec, h.key, md, h.legacy);
        x.t = 's';
        h.forged++;
        t.insert(t.begin() + at, x);
        log += " forged";
        break;
      case 3: {
        if (!seis.empty() && s.coin()) at = s.pick(seis);
        int n = 1 + (int)s.draw(4);
        for (int k = 0; k < n; k++) t[at].d[s.draw(t[at].d.size())] = (uint8_t)s.draw(256);
        log += " bytes";
        break;
      }
      case 4:
        if (!seis.empty() && s.coin()) at = s.pick(seis);
        t[at].d.resize(1 + s.draw(t[at].d.size()));
        log += " cut";
        break;
      case 5: {
        size_t b = s.draw(t.size());
        Bytes d(t[at].d.begin(), t[at].d.begin() + s.draw(t[at].d.size() + 1));
        d.insert(d.end(), t[b].d.begin() + s.draw(t[b].d.size()), t[b].d.end());
        t[at].d = d;
        log += " splice";
        break;
      }
      case 6: t.erase(t.begin() + at); log += " drop"; break;
      case 7: { Nalu d = t[at]; t.insert(t.begin() + s.draw(t.size() + 1), d); log += " dup"; } break;
      default: std::swap(t[at], t[s.draw(t.size())]); log += " swap";
    }
  }
  c.note("%s:%s %s", what.c_str(), log.c_str(), types(h.s).c_str());
  return h;
}
