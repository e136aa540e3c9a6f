#include "forge.h"

#include <openssl/objects.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>

void put_be(Bytes &b, uint64_t v, int n) {
  for (int i = n - 1; i >= 0; i--) b.push_back((uint8_t)(v >> (8 * i)));
}
void add_tlv(Bytes &o, int tag, const Bytes &v) {
  o.push_back((uint8_t)tag);
  put_be(o, v.size(), tag == TAG_GENERAL || tag == TAG_CRYPTO ? 1 : 2);
  o.insert(o.end(), v.begin(), v.end());
}
static EVP_PKEY *priv(const Key &k) {
  static std::map<std::string, EVP_PKEY *> m;
  auto it = m.find(k.priv);
  if (it != m.end()) return it->second;
  BIO *b = BIO_new_mem_buf(k.priv.data(), (int)k.priv.size());
  EVP_PKEY *p = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
  BIO_free(b);
  return m[k.priv] = p;
}
Bytes sign_digest(const Key &k, const Bytes &digest) {
  EVP_PKEY *p = priv(k);
  EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(p, nullptr);
  Bytes sig(EVP_PKEY_get_size(p));
  size_t n = sig.size();
  bool ok = c && EVP_PKEY_sign_init(c) > 0;
  if (ok && k.rsa) ok = EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING) > 0 && EVP_PKEY_CTX_set_signature_md(c, EVP_sha256()) > 0;
  ok = ok && EVP_PKEY_sign(c, sig.data(), &n, digest.data(), digest.size()) > 0;
  EVP_PKEY_CTX_free(c);
  sig.resize(ok ? n : 0);
  return sig;
}

static Bytes header_of(SignedVideoCodec codec) { return codec == SV_CODEC_H264 ? Bytes{0x06} : Bytes{0x4e, 0x01}; }
static void size_bytes(Bytes &o, size_t size) {
  while (size >= 255) o.push_back(255), size -= 255;
  o.push_back((uint8_t)size);
}
Bytes build_sei(SignedVideoCodec codec, const Bytes &payload, const SeiShape &sh) {
  Bytes hdr = sh.header.empty() ? header_of(codec) : sh.header, rest;
  rest.push_back((uint8_t)sh.payload_type);
  long sz = (long)payload.size() + sh.size_delta;
  size_bytes(rest, sz < 0 ? 0 : (size_t)sz);
  rest.insert(rest.end(), payload.begin(), payload.end());
  if (sh.stop) rest.push_back(0x80);
  if (sh.epb) rest = epb_apply(rest);
  Bytes o;
  for (int i = 0; i < sh.sc; i++) o.push_back(i == sh.sc - 1);
  o.insert(o.end(), hdr.begin(), hdr.end());
  o.insert(o.end(), rest.begin(), rest.end());
  return o;
}
Bytes sei_document(SignedVideoCodec codec, const Bytes &body, size_t payload_size, bool epb) {
  Bytes o = header_of(codec), rest{5};
  size_bytes(rest, payload_size);
  rest.insert(rest.end(), body.begin(), body.end());
  if (epb) rest = epb_apply(rest);
  o.insert(o.end(), rest.begin(), rest.end());
  return o;
}
Bytes signature_tlv(const Bytes &sig, size_t max_size, int hash_type, int version, int status) {
  Bytes v{(uint8_t)version, (uint8_t)status, (uint8_t)hash_type};
  put_be(v, sig.size(), 2);
  v.insert(v.end(), sig.begin(), sig.end());
  while (v.size() < max_size + 5) v.push_back(1);
  Bytes o;
  add_tlv(o, TAG_SIGNATURE, v);
  return o;
}
Bytes signed_sei(SignedVideoCodec codec, const Bytes &body, const Key &k, const EVP_MD *md, const SeiShape &sh) {
  size_t max = ref_max_sig(k), size = body.size() + 3 + 5 + max + sh.size_delta;
  Bytes sig = sign_digest(k, ref_hash(md, sei_document(codec, body, size, sh.epb)));
  Bytes p = body, t = signature_tlv(sig, max, 1);
  p.insert(p.end(), t.begin(), t.end());
  return build_sei(codec, p, sh);
}

uint32_t gen_age(Src &s) {
  static const uint32_t at[] = {0x100, 0x10000, 0x1000000, 0x80000000u, 0u};
  if (s.chance(1, 5)) return (uint32_t)s.draw(1ull << 32);
  return at[s.draw(5)] - (uint32_t)s.draw(8);
}

void age_stream(Stream &st, const SignCfg &cfg, uint32_t offset) {
  const Key &k = key_by_name(cfg.key);
  const EVP_MD *md = ref_md(cfg.hash);
  for (auto &n : st) {
    if (n.t != 'S') continue;
    WireSei w = parse_sei(n.d, cfg.codec, cfg.sei_epb);
    if (!w.ok || w.golden()) continue;
    const Tlv *g = w.find(TAG_GENERAL), *sig = w.find(TAG_SIGNATURE);
    if (!g || !sig || g->v.size() < 5) continue;
    Bytes body(w.payload.begin(), w.payload.begin() + sig->pos);
    uint32_t v = (uint32_t)be(g->v, 1, 4) + offset;
    for (int i = 0; i < 4; i++) body[g->vpos + 1 + i] = (uint8_t)(v >> (24 - 8 * i));
    SeiShape sh;
    sh.epb = cfg.sei_epb;
    sh.sc = (int)w.sc;
    n.d = signed_sei(cfg.codec, body, k, md, sh);
  }
}

LegacySigner::LegacySigner(const LegacyCfg &c) : cfg(c) { md = ref_md(c.hash); }

Bytes LegacySigner::sei(const Nalu &closing) {
  const Key &k = key_by_name(cfg.key);
  Bytes body(kSvUuid, kSvUuid + 16), g{(uint8_t)cfg.general_version};
  body.push_back(cfg.epb ? 0x80 : 0);
  bool rec = counter % cfg.recurrence == 0;
  counter++;
  put_be(g, counter, 4);
  put_be(g, gop.size(), 2);
  for (int v : {1, 1, 29}) g.push_back((uint8_t)v);
  if (cfg.general_version >= 2) {
    g.push_back(closing.has_ts);
    if (closing.has_ts) put_be(g, (uint64_t)closing.ts, 8);
  }
  add_tlv(body, TAG_GENERAL, g);
  if (rec && cfg.pubkey) {
    Bytes v{(uint8_t)cfg.pubkey_version};
    if (cfg.pubkey_version == 1) v.push_back(k.rsa ? 0 : 1);
    v.insert(v.end(), k.pub.begin(), k.pub.end());
    add_tlv(body, TAG_PUBKEY, v);
  }
  if (rec) {
    Bytes v{1};
    for (auto &s : cfg.info) {
      v.push_back((uint8_t)(s.size() + 1));
      v.insert(v.end(), s.begin(), s.end());
      v.push_back(0);
    }
    add_tlv(body, TAG_PRODUCT, v);
  }
  if (cfg.frame_level) {
    Bytes v{1};
    for (auto &h : gop) v.insert(v.end(), h.begin(), h.end());
    add_tlv(body, TAG_HASHLIST, v);
  }
  if (rec && !cfg.vendor.empty()) add_tlv(body, TAG_VENDOR_AXIS, cfg.vendor);
  if (rec && !cfg.hash.empty()) {
    ASN1_OBJECT *obj = OBJ_nid2obj(EVP_MD_get_type(md));
    Bytes v{1, (uint8_t)(OBJ_length(obj) + 2), 6, (uint8_t)OBJ_length(obj)};
    v.insert(v.end(), OBJ_get0_data(obj), OBJ_get0_data(obj) + OBJ_length(obj));
    add_tlv(body, TAG_CRYPTO, v);
  }
  size_t max = ref_max_sig(k), size = body.size() + 8 + max;
  Bytes h = ref_hash(md, sei_document(cfg.codec, body, size, cfg.epb));
  if (!cfg.frame_level) {
    Bytes gh = ref_hash(md, Bytes{1});
    for (auto &x : gop) gh = ref_hash(md, gh, x);
    h = ref_hash(md, gh, h);
  }
  Bytes t = signature_tlv(sign_digest(k, h), max, cfg.frame_level ? 1 : 0);
  body.insert(body.end(), t.begin(), t.end());
  SeiShape sh;
  sh.epb = cfg.epb;
  return build_sei(cfg.codec, body, sh);
}

Stream LegacySigner::sign(const Stream &in) {
  Stream out;
  int g = -1;
  auto push = [&](Nalu n) {
    n.id = (int)out.size();
    n.gop = g;
    out.push_back(n);
  };
  for (auto &n : in) {
    if (!n.pic()) {
      push(n);
      continue;
    }
    Bytes h = ref_hash(md, nalu_hashable(n.d));
    if (n.t == 'I') {
      gop.push_back(has_ref ? ref_hash(md, ref, h) : h);
      Nalu s;
      s.t = 'S';
      s.d = sei(n);
      push(s);
      g++;
      gop.assign(1, h);
      ref = h;
      has_ref = true;
    } else if (has_ref) {
      gop.push_back(ref_hash(md, ref, h));
    }
    push(n);
  }
  return out;
}
