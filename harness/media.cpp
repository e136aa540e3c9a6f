#include "media.h"

#include <openssl/bio.h>
#include <openssl/evp.h>
#include <openssl/pem.h>

#include <algorithm>
#include <map>

size_t Nalu::sc() const { return startcode_len(d); }

int startcode_len(const Bytes &d) {
  if (d.size() >= 4 && !d[0] && !d[1] && !d[2] && d[3] == 1) return 4;
  if (d.size() >= 3 && !d[0] && !d[1] && d[2] == 1) return 3;
  return 0;
}

std::string types(const Stream &s) {
  std::string r;
  for (auto &n : s) r += n.tampered ? std::string("*") + n.t : std::string(1, n.t);
  if (r.size() > 300) r = r.substr(0, 300) + strf("..(%zu)", s.size());
  return r;
}

Bytes epb_apply(const Bytes &raw) {
  Bytes o;
  o.reserve(raw.size() + 8);
  int z = 0;
  for (uint8_t b : raw) {
    if (z >= 2 && b <= 3) {
      o.push_back(3);
      z = 0;
    }
    o.push_back(b);
    z = b ? 0 : z + 1;
  }
  return o;
}
Bytes epb_remove(const Bytes &raw) {
  Bytes o;
  int z = 0;
  for (uint8_t b : raw) {
    if (z >= 2 && b == 3) {
      z = 0;
      continue;
    }
    o.push_back(b);
    z = b ? 0 : z + 1;
  }
  return o;
}

Bytes rnd_bytes(Src &s, size_t n) {
  uint64_t seed = s.raw64();
  Bytes b(n);
  int mode = seed & 3;  // 0: zero-ish, others random
  for (size_t i = 0; i < n; i++) {
    uint64_t v = mix64(seed + i * 0x1234567ull);
    if (mode == 0)
      b[i] = (v & 0x700) ? (uint8_t)(v & 3) : (uint8_t)(v >> 16);
    else
      b[i] = (uint8_t)(v >> 24);
  }
  if (seed == 0) std::fill(b.begin(), b.end(), 0x11);
  return b;
}

static const uint8_t kUuid[16] = {0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x20, 0x56, 0x69, 0x64, 0x65,
    0x6f, 0x2e, 0x2e, 0x2e, 0x30};

Nalu make_nalu(Src &s, SignedVideoCodec codec, char t, const GenOpts &o, int uid) {
  Nalu n;
  n.t = t;
  Bytes raw;
  bool h264 = codec == SV_CODEC_H264;
  auto w = [&](int hi) { return o.weird_hdr ? (int)s.draw(hi) : 0; };
  uint8_t h0 = 0, h1 = 1;
  if (h264) {
    switch (t) {
      case 'I':
      case 'i':
        h0 = (uint8_t)(((3 - w(3)) << 5) | 5);
        break;
      case 'P':
      case 'p': {
        int ref = w(4);
        h0 = (uint8_t)(((ref + 2) % 4 << 5) | 1);
        break;
      }
      case 'v': {
        static const int ty[] = {7, 8, 13, 15};
        h0 = (uint8_t)((3 - w(3)) << 5 | ty[w(4)]);
        break;
      }
      case '_':
        h0 = 9;
        break;
      case 'z':
        h0 = 6;
        break;
      case 'o': {
        static const int ty[] = {12, 10, 11, 2, 3, 4};
        h0 = (uint8_t)ty[w(6)];
        break;
      }
      default: {  // undefined types
        static const int ty[] = {0, 14, 16, 19, 24, 31};
        h0 = (uint8_t)(ty[w(6)]);
        break;
      }
    }
    raw.push_back(h0);
  } else {
    int type = 1, tid = 0;
    switch (t) {
      case 'I':
      case 'i': {
        static const int ty[] = {19, 20, 21, 16, 17, 18};
        type = ty[w(6)];
        break;
      }
      case 'P':
      case 'p':
        type = 1 - w(2);
        tid = w(8) == 7 ? 1 : 0;
        break;
      case 'v': {
        static const int ty[] = {33, 34, 32};
        type = ty[w(3)];
        break;
      }
      case '_':
        type = 35;
        break;
      case 'z':
        type = 39 + w(2);
        break;
      case 'o': {
        static const int ty[] = {38, 36, 37, 2, 3, 4, 6, 9};
        type = ty[w(8)];
        if (type < 10) tid = 1;
        break;
      }
      default: {
        static const int ty[] = {10, 15, 22, 31, 41, 63};
        type = ty[w(6)];
        break;
      }
    }
    h0 = (uint8_t)(type << 1);
    h1 = (uint8_t)(tid + 1);
    raw.push_back(h0);
    raw.push_back(h1);
  }
  size_t hdr = raw.size();
  if (t == 'z') {
    // Foreign SEI.
    int kind = (int)s.draw(3);
    if (kind == 0) {  // user data unregistered with another UUID
      int len = 16 + (int)s.draw(o.big && s.chance(1, 10) ? 600 : 30);
      raw.push_back(5);
      int l = len;
      while (l >= 255) {
        raw.push_back(0xff);
        l -= 255;
      }
      raw.push_back((uint8_t)l);
      Bytes p = rnd_bytes(s, len);
      if (s.coin()) {
        memcpy(p.data(), kUuid, 16);
        p[s.draw(16)] ^= (uint8_t)(1 << s.draw(8));
      }
      if (!memcmp(p.data(), kUuid, 16)) p[0] ^= 1;
      raw.insert(raw.end(), p.begin(), p.end());
    } else {
      static const int pt[] = {1, 0, 4, 6, 129, 137};
      int len = (int)s.draw(24);
      raw.push_back((uint8_t)pt[s.draw(6)]);
      raw.push_back((uint8_t)len);
      Bytes p = rnd_bytes(s, len);
      raw.insert(raw.end(), p.begin(), p.end());
    }
    raw.push_back(0x80);
  } else {
    bool primary = t == 'I' || t == 'P';
    Bytes body;
    size_t len;
    if (o.big && s.chance(1, 24)) {
      static const int sizes[] = {200, 254, 255, 256, 1000, 4096, 65535, 70000};
      len = sizes[s.draw(s.chance(1, 6) ? 8 : 6)];
      if (s.chance(1, 160)) len = (s.chance(1, 24) ? 1 << 24 : 1 << 20) + s.draw(300);
    } else
      len = s.draw(o.max_body + 1);
    body = rnd_bytes(s, len);
    uint8_t first = (uint8_t)(uid * 37 + 5);
    first = primary ? (first | 0x80) : (first & 0x7f);
    raw.push_back(first);
    if (o.unique) {
      raw.push_back((uint8_t)(0x10 | (uid & 0xf)));
      raw.push_back((uint8_t)(0x10 | ((uid >> 4) & 0xf)));
      raw.push_back((uint8_t)(0x10 | ((uid >> 8) & 0xf)));
      raw.push_back((uint8_t)(0x10 | ((uid >> 12) & 0xf)));
    }
    raw.insert(raw.end(), body.begin(), body.end());
    if (o.unique || raw.back() == 0 || s.coin()) raw.push_back(0x80);
  }
  Bytes pay(raw.begin() + hdr, raw.end());
  // Emulation prevention spans the header too (header never ends with two zero bytes).
  Bytes enc = epb_apply(pay);
  int scm = o.varied_sc ? s.weighted({6, 3, 2}) : 0;
  if (scm == 0) n.d = {0, 0, 0, 1};
  if (scm == 1) n.d = {0, 0, 1};
  n.d.insert(n.d.end(), raw.begin(), raw.begin() + hdr);
  n.d.insert(n.d.end(), enc.begin(), enc.end());
  if (o.trailing_zeros && s.chance(1, 5)) n.d.insert(n.d.end(), 1 + s.draw(3), 0);
  return n;
}

Nalu plain_nalu(SignedVideoCodec codec, char t, int uid) {
  Nalu n;
  n.t = t;
  n.d = {0, 0, 0, 1};
  bool h264 = codec == SV_CODEC_H264;
  if (t == 'I' || t == 'i') n.d.push_back(h264 ? 0x65 : 0x26);
  else if (t == 'v') n.d.push_back(h264 ? 0x67 : 0x40);
  else n.d.push_back(h264 ? 0x41 : 0x02);
  if (!h264) n.d.push_back(1);
  n.d.push_back(t == 'I' || t == 'P' ? 0x88 : 0x11);
  for (int i = 0; i < 6; i++) n.d.push_back((uint8_t)(0x20 | (uid >> (4 * i) & 15)));
  n.d.push_back(0x80);
  return n;
}

Stream stream_from_types(Src &s, SignedVideoCodec codec, const char *t, const GenOpts &o) {
  Stream st;
  int gop = -1;
  for (; *t; t++) {
    if (*t == 'I') gop++;
    Nalu n = make_nalu(s, codec, *t, o, (int)st.size());
    n.gop = n.pic() ? gop : -1;
    st.push_back(n);
  }
  return st;
}

Stream gen_stream(Src &s, SignedVideoCodec codec, const GenOpts &o) {
  std::string t;
  int gops = s.range(o.min_gops, o.max_gops);
  int scale = o.scale ? s.weighted({60, 3, 1}) : 0, long_gop = -1;
  if (scale == 1) long_gop = (int)s.draw(gops);
  if (scale == 2) gops += 10 + (int)s.draw(60);
  int nsl = o.slices && s.chance(1, 3) ? s.range(2, 4) : 1;
  bool aud = o.extras && s.chance(1, 3), ps = o.extras && s.chance(1, 2),
       fsei = o.extras && s.chance(1, 4), oth = o.extras && s.chance(1, 8);
  auto pre = [&](bool intra) {
    if (aud) t += '_';
    if (ps && (intra || s.chance(1, 10))) t += s.coin() ? "vv" : "v";
    if (fsei && s.chance(1, 3)) t += 'z';
    if (oth && s.chance(1, 4)) t += 'o';
  };
  for (int g = 0; g < gops; g++) {
    int frames = 1 + (int)s.draw(scale == 2 ? std::min(o.max_gop_len, 3) : o.max_gop_len);
    if (g == long_gop) frames = (20 + (int)s.draw(s.chance(1, 4) ? 270 : 50)) / nsl;
    for (int f = 0; f < frames; f++) {
      pre(f == 0);
      t += f == 0 ? 'I' : 'P';
      for (int k = 1; k < nsl; k++) t += f == 0 ? 'i' : 'p';
    }
  }
  return stream_from_types(s, codec, t.c_str(), o);
}

void dup_nalus(Src &s, Stream &in) {
  std::map<char, std::vector<size_t>> seen;
  const int near = (int)s.draw(2);
  for (size_t i = 0; i < in.size(); i++) {
    if (!in[i].pic()) continue;
    auto &v = seen[in[i].t];
    if (!v.empty() && s.coin()) in[i].d = in[near ? v.back() : v[s.draw(v.size())]].d;
    v.push_back(i);
  }
}

// ---- keys ------------------------------------------------------------------------------------
std::string slurp(const std::string &p) {
  FILE *f = fopen(p.c_str(), "rb");
  if (!f) {
    fprintf(stderr, "cannot read %s\n", p.c_str());
    exit(3);
  }
  std::string s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
Key load_key_pem(const std::string &name, const std::string &pem) {
  Key k;
  k.name = name;
  k.priv = pem;
  BIO *b = BIO_new_mem_buf(k.priv.data(), (int)k.priv.size());
  EVP_PKEY *pk = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
  BIO_free(b);
  if (!pk) {
    fprintf(stderr, "bad key %s\n", name.c_str());
    exit(3);
  }
  k.rsa = EVP_PKEY_base_id(pk) == EVP_PKEY_RSA;
  BIO *o = BIO_new(BIO_s_mem());
  PEM_write_bio_PUBKEY(o, pk);
  char *p;
  long l = BIO_get_mem_data(o, &p);
  k.pub.assign(p, l);
  BIO_free(o);
  EVP_PKEY_free(pk);
  return k;
}
const Key &key_by_name(const std::string &name) {
  static std::map<std::string, Key> m;
  auto it = m.find(name);
  if (it == m.end()) it = m.emplace(name, load_key_pem(name, slurp(g_keys_dir + "/" + name + ".pem"))).first;
  return it->second;
}
const std::vector<std::string> &all_keys() {
  static std::vector<std::string> v = {"ec256_0", "ec256_1", "ec256_2", "ec256sec1_0", "rsa2048_0", "rsa2048_1",
      "ec384_0", "ec521_0", "rsa1024_0", "rsa4096_0"};
  return v;
}

// ---- configuration -----------------------------------------------------------------------------
std::string SignCfg::str() const {
  std::string s = strf("%s %s-level key=%s", codec == SV_CODEC_H264 ? "h264" : "h265",
      level == SV_AUTHENTICITY_LEVEL_FRAME ? "frame" : "gop", key.c_str());
  if (!hash.empty()) s += " hash=" + hash;
  if (!sei_epb) s += " noepb";
  if (!pubkey_in_sei) s += " nopubkey";
  if (has_info) s += " info";
  if (recurrence != 1) s += strf(" rec=%u", recurrence);
  if (golden) s += " golden";
  if (max_sei) s += strf(" maxsei=%zu", max_sei);
  if (attest) s += " attest";
  return s;
}

SignCfg gen_cfg(Src &s, const CfgOpts &o) {
  SignCfg c;
  c.codec = s.coin() ? SV_CODEC_H265 : SV_CODEC_H264;
  if (o.level) c.level = s.chance(1, 3) ? SV_AUTHENTICITY_LEVEL_GOP : SV_AUTHENTICITY_LEVEL_FRAME;
  if (o.any_key) {
    int w = s.weighted({60, 10, 5, 5, 4, 2, 1, 3, 9, 1});
    c.key = all_keys()[w];
  }
  if (o.any_hash && s.chance(1, 3)) {
    static const std::vector<std::string> h = {"sha256", "sha512", "sha384", "sha3-256", "sha3-512", "sha224", "sha512-256", "blake2s256", "blake2b512", "sm3", "2.16.840.1.101.3.4.2.3", "2.16.840.1.101.3.4.2.1", "sha3-384", "SHA256", "sha1"};
    c.hash = s.pick(h);
    // An RSA key signs SHA-256 digests only (the digest type is fixed in the signature scheme).
    if (key_by_name(c.key).rsa) c.hash = s.coin() ? "sha256" : "2.16.840.1.101.3.4.2.1";
  }
  if (o.epb) c.sei_epb = !s.chance(1, 3);
  if (o.info && s.chance(1, 3)) {
    c.has_info = true;
    for (auto &i : c.info) {
      int k = s.weighted({6, 1, 1, 2});
      if (k == 1) continue;  // NULL
      size_t len = k == 2 ? 0 : k == 3 ? s.draw(400) : 1 + s.draw(20);
      std::string v;
      uint64_t seed = s.raw64();
      for (size_t j = 0; j < len; j++) v += (char)(1 + mix64(seed + j) % 255);
      i = v;
    }
  }
  if (o.recurrence && s.chance(1, 3)) c.recurrence = (unsigned)(1 + s.draw(12));
  if (o.maxsei && s.chance(1, 3)) c.max_sei = s.draw(2000);
  return c;
}

// ---- signing -----------------------------------------------------------------------------------
static uint8_t *heap_copy(const uint8_t *p, size_t n) {
  uint8_t *h = (uint8_t *)malloc(n ? n : 1);
  if (n) memcpy(h, p, n);
  return h;
}

Signer::Signer(const SignCfg &cfg_, Ctx *c, const std::function<void(signed_video_t *)> &between) : cfg(cfg_) {
  sv = signed_video_create(cfg.codec);
  if (!sv) throw Fail{"signed_video_create failed for signing"};
  struct Guard {
    signed_video_t *sv;
    ~Guard() { signed_video_free(sv); }
  } guard{sv};
  auto step = [&] {
    if (between) between(sv);
  };
  step();
  const Key &k = key_by_name(cfg.key);
  char *pem = (char *)heap_copy((const uint8_t *)k.priv.data(), k.priv.size());
  auto rc = signed_video_set_private_key_new(sv, pem, k.priv.size());
  free(pem);
  if (rc != SV_OK) throw Fail{strf("setting private key %s failed: %d", cfg.key.c_str(), rc)};
  step();
  if ((rc = signed_video_set_authenticity_level(sv, cfg.level)) != SV_OK) throw Fail{strf("set level failed: %d", rc)};
  step();
  if (!cfg.hash.empty() && (rc = signed_video_set_hash_algo(sv, cfg.hash.c_str())) != SV_OK)
    throw Fail{strf("set hash algo %s failed: %d", cfg.hash.c_str(), rc)};
  step();
  if ((rc = signed_video_set_sei_epb(sv, cfg.sei_epb)) != SV_OK) throw Fail{strf("set epb failed: %d", rc)};
  step();
  if ((rc = signed_video_add_public_key_to_sei(sv, cfg.pubkey_in_sei)) != SV_OK) throw Fail{strf("set pubkey flag failed: %d", rc)};
  step();
  if (cfg.has_info) {
    const char *p[5];
    for (int i = 0; i < 5; i++) p[i] = cfg.info[i] ? cfg.info[i]->c_str() : nullptr;
    rc = signed_video_set_product_info(sv, p[0], p[1], p[2], p[3], p[4]);
    if (rc != SV_OK) throw Fail{strf("set product info failed: %d", rc)};
  }
  step();
  if (cfg.recurrence != 1 && (rc = signed_video_set_recurrence_interval_frames(sv, cfg.recurrence)) != SV_OK)
    throw Fail{strf("set recurrence failed: %d", rc)};
  step();
  if (cfg.golden && (rc = signed_video_set_using_golden_sei(sv, true)) != SV_OK)
    throw Fail{strf("set using golden failed: %d", rc)};
  step();
  if (cfg.max_sei && (rc = signed_video_set_max_sei_payload_size(sv, cfg.max_sei)) != SV_OK)
    throw Fail{strf("set max sei failed: %d", rc)};
  step();
  if (cfg.attest) {
    rc = sv_vendor_axis_communications_set_attestation_report(sv,
        cfg.attestation.empty() ? nullptr : cfg.attestation.data(), (uint8_t)cfg.attestation.size(),
        cfg.cert_chain.empty() ? nullptr : cfg.cert_chain.c_str());
    if (rc != SV_OK) throw Fail{strf("set attestation failed: %d", rc)};
  }
  step();
  guard.sv = nullptr;
}
Signer::~Signer() { signed_video_free(sv); }

SignedVideoReturnCode Signer::add(const Bytes &d, const int64_t *ts) {
  uint8_t *h = heap_copy(d.data(), d.size());
  auto rc = signed_video_add_nalu_for_signing_with_timestamp(sv, h, d.size(), ts);
  free(h);
  return rc;
}
SignedVideoReturnCode Signer::add_part(const uint8_t *p, size_t n, const int64_t *ts, bool last) {
  uint8_t *h = heap_copy(p, n);
  auto rc = signed_video_add_nalu_part_for_signing_with_timestamp(sv, h, n, ts, last);
  free(h);
  return rc;
}
SignedVideoReturnCode Signer::pull(const Bytes *peek, Bytes *out, int *offset, unsigned *pending) {
  out->clear();
  size_t sz = 0;
  uint8_t *pk = peek ? heap_copy(peek->data(), peek->size()) : nullptr;
  size_t pn = peek ? peek->size() : 0;
  auto rc = signed_video_get_sei(sv, nullptr, &sz, nullptr, pk, pn, nullptr);
  if (rc == SV_OK && sz > 0) {
    uint8_t *buf = (uint8_t *)malloc(sz);
    size_t sz2 = 0;
    rc = signed_video_get_sei(sv, buf, &sz2, offset, pk, pn, pending);
    if (rc == SV_OK && sz2 != sz) {
      free(buf);
      free(pk);
      throw Fail{strf("SEI size announced %zu but delivered %zu", sz, sz2)};
    }
    out->assign(buf, buf + sz2);
    free(buf);
  }
  free(pk);
  return rc;
}
SignedVideoReturnCode Signer::pull_prepend(Bytes *out) {
  out->clear();
  signed_video_nalu_to_prepend_t p;
  memset(&p, 0, sizeof p);
  auto rc = signed_video_get_nalu_to_prepend(sv, &p);
  if (rc == SV_OK && p.prepend_instruction != SIGNED_VIDEO_PREPEND_NOTHING) {
    out->assign(p.nalu_data, p.nalu_data + p.nalu_data_size);
  }
  signed_video_nalu_data_free(p.nalu_data);
  return rc;
}

Stream sign_stream(Ctx &c, const SignCfg &cfg, const Stream &in, PullMode mode, bool feed_back) {
  Signer s(cfg, &c);
  Stream out;
  int next_sei_gop = 0;
  auto emit_sei = [&](const Bytes &b, bool golden) {
    Nalu n;
    n.d = b;
    n.t = golden ? 'G' : 'S';
    n.gop = golden ? -1 : next_sei_gop++;
    n.id = (int)out.size();
    out.push_back(n);
    if (feed_back) {
      auto rc = s.add(b, nullptr);
      if (rc != SV_OK) throw Fail{strf("adding a generated SEI for signing failed: %d", rc)};
    }
  };
  Bytes sei;
  if (cfg.golden) {
    auto rc = signed_video_generate_golden_sei(s.sv);
    if (rc != SV_OK) throw Fail{strf("generating golden SEI failed: %d", rc)};
    rc = s.pull(nullptr, &sei, nullptr, nullptr);
    if (rc != SV_OK || sei.empty()) throw Fail{strf("golden SEI not available: %d", rc)};
    emit_sei(sei, true);
  }
  for (auto &n : in) {
    if (mode == PULL_PEEK || mode == PULL_BEFORE) {
      std::vector<Bytes> got;
      for (;;) {
        auto rc = s.pull(mode == PULL_PEEK ? &n.d : nullptr, &sei, nullptr, nullptr);
        if (rc != SV_OK) throw Fail{strf("getting SEI failed: %d", rc)};
        if (sei.empty()) break;
        got.push_back(sei);
      }
      for (auto &b : got) emit_sei(b, false);
    }
    auto rc = s.add(n.d, n.has_ts ? &n.ts : nullptr);
    if (rc != SV_OK) throw Fail{strf("adding NALU type %c (%s) for signing failed: %d", n.t, hexs(n.d.data(), n.d.size(), 24).c_str(), rc)};
    out.push_back(n);
    out.back().id = (int)out.size() - 1;
    if (mode == PULL_AFTER || mode == PULL_PREPEND_API) {
      for (;;) {
        auto rc2 = mode == PULL_AFTER ? s.pull(nullptr, &sei, nullptr, nullptr) : s.pull_prepend(&sei);
        if (rc2 != SV_OK) throw Fail{strf("getting SEI failed: %d", rc2)};
        if (sei.empty()) break;
        emit_sei(sei, false);
      }
    }
  }
  return out;
}

// ---- validation --------------------------------------------------------------------------------
const char *auth_name(int a) {
  static const char *n[] = {"NOT_SIGNED", "SIGNATURE_PRESENT", "NOT_OK", "OK_WITH_MISSING_INFO", "OK", "VERSION_MISMATCH"};
  return a >= 0 && a < 6 ? n[a] : "?";
}
Report copy_report(const signed_video_authenticity_t *a) {
  Report r;
  auto &l = a->latest_validation;
  auto &g = a->accumulated_validation;
  r.auth = l.authenticity;
  r.keychg = l.public_key_has_changed;
  r.expected = l.number_of_expected_picture_nalus;
  r.received = l.number_of_received_picture_nalus;
  r.pending = l.number_of_pending_picture_nalus;
  r.vstr = l.validation_str ? l.validation_str : "";
  r.nstr = l.nalu_str ? l.nalu_str : "";
  r.pkval = l.public_key_validation;
  r.has_ts = l.has_timestamp;
  r.ts = l.timestamp;
  r.acc_auth = g.authenticity;
  r.acc_keychg = g.public_key_has_changed;
  r.acc_received = g.number_of_received_nalus;
  r.acc_validated = g.number_of_validated_nalus;
  r.acc_pending = g.number_of_pending_nalus;
  r.acc_pkval = g.public_key_validation;
  r.acc_has_ts = g.has_timestamp;
  r.acc_first = g.first_timestamp;
  r.acc_last = g.last_timestamp;
  r.ver_sign = a->version_on_signing_side ? a->version_on_signing_side : "";
  r.ver_this = a->this_version ? a->this_version : "";
  const char *p[5] = {a->product_info.hardware_id, a->product_info.firmware_version, a->product_info.serial_number,
      a->product_info.manufacturer, a->product_info.address};
  for (int i = 0; i < 5; i++)
    if (p[i]) r.info[i] = std::string(p[i]);
  return r;
}
bool Report::operator==(const Report &o) const {
  return auth == o.auth && expected == o.expected && received == o.received && pending == o.pending && pkval == o.pkval &&
      keychg == o.keychg && has_ts == o.has_ts && ts == o.ts && vstr == o.vstr && nstr == o.nstr && acc_auth == o.acc_auth &&
      acc_pkval == o.acc_pkval && acc_keychg == o.acc_keychg && acc_has_ts == o.acc_has_ts && acc_received == o.acc_received &&
      acc_validated == o.acc_validated && acc_pending == o.acc_pending && acc_first == o.acc_first && acc_last == o.acc_last &&
      ver_sign == o.ver_sign && ver_this == o.ver_this && info[0] == o.info[0] && info[1] == o.info[1] && info[2] == o.info[2] &&
      info[3] == o.info[3] && info[4] == o.info[4];
}
std::string Report::str() const {
  return strf("%s exp=%d rec=%d pend=%d pk=%d chg=%d ts=%d:%lld n[%s] v[%s] | acc %s rec=%u val=%u pend=%u pk=%d chg=%d ts=%d:%lld..%lld",
      auth_name(auth), expected, received, pending, pkval, keychg, has_ts, (long long)ts, nstr.c_str(), vstr.c_str(),
      auth_name(acc_auth), acc_received, acc_validated, acc_pending, acc_pkval, acc_keychg, acc_has_ts, (long long)acc_first,
      (long long)acc_last);
}

Validator::Validator(SignedVideoCodec codec_, const std::string *pubkey) : codec(codec_) {
  sv = signed_video_create(codec);
  if (!sv) throw Fail{"signed_video_create failed for validation"};
  if (pubkey) {
    auto rc = signed_video_set_public_key(sv, pubkey->data(), pubkey->size());
    if (rc != SV_OK) {
      signed_video_free(sv);
      sv = nullptr;
      throw Fail{strf("setting public key failed: %d", rc)};
    }
  }
}
Validator::~Validator() { signed_video_free(sv); }
SignedVideoReturnCode Validator::add(const Bytes &d, std::optional<Report> *rep) {
  uint8_t *h = heap_copy(d.data(), d.size());
  signed_video_authenticity_t *a = nullptr;
  auto rc = signed_video_add_nalu_and_authenticate(sv, h, d.size(), rep ? &a : nullptr);
  free(h);
  if (rep) {
    rep->reset();
    if (a) {
      *rep = copy_report(a);
      signed_video_authenticity_report_free(a);
    }
  }
  return rc;
}

Validation validate(const Stream &s, SignedVideoCodec codec, const std::string *pubkey, bool want_final) {
  Validation v;
  Validator val(codec, pubkey);
  for (size_t i = 0; i < s.size(); i++) {
    std::optional<Report> r;
    v.rc.push_back(val.add(s[i].d, &r));
    if (r) v.steps.push_back({(int)i, *r});
  }
  if (want_final) {
    signed_video_authenticity_t *a = signed_video_get_authenticity_report(val.sv);
    if (a) {
      v.final = copy_report(a);
      signed_video_authenticity_report_free(a);
    }
  }
  return v;
}

std::string Validation::str() const {
  std::string o;
  for (auto &s : steps) o += strf("\n   @%d %s", s.idx, s.r.str().c_str());
  if (final) o += "\n   final " + final->str();
  for (size_t i = 0; i < rc.size(); i++)
    if (rc[i] != SV_OK) o += strf("\n   rc[%zu]=%d", i, rc[i]);
  return o;
}

std::string step_summary(const Stream &s, const Validation &v) { return types(s) + v.str(); }

Marks align_marks(const Stream &s, const Validation &v) {
  Marks m;
  m.per_nalu.resize(s.size());
  m.last.assign(s.size(), 0);
  for (auto &st : v.steps) {
    // The string always ends with the latest added NALU ("count backwards from the latest NALU").
    const std::string &vs = st.r.vstr;
    int miss = 0;
    int idx = st.idx;
    for (int k = (int)vs.size() - 1; k >= 0; k--) {
      if (vs[k] == 'M') {
        miss++;
        continue;
      }
      if (idx < 0) {
        m.err = strf("validation string longer than the stream at NALU %d: %s", st.idx, st.r.str().c_str());
        return m;
      }
      m.per_nalu[idx] += vs[k];
      m.last[idx] = vs[k];
      idx--;
    }
    m.missing_per_step.push_back(miss);
  }
  return m;
}
