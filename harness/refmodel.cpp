#include "refmodel.h"

#include <openssl/objects.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>

const EVP_MD *ref_md(const std::string &name) {
  if (name.empty()) return EVP_sha256();
  const EVP_MD *m = EVP_get_digestbyname(name.c_str());
  if (m) return m;
  int nid = OBJ_txt2nid(name.c_str());
  return EVP_get_digestbynid(nid);
}
Bytes ref_hash(const EVP_MD *md, const Bytes &a, const Bytes &b) {
  Bytes o(EVP_MD_get_size(md));
  EVP_MD_CTX *c = EVP_MD_CTX_new();
  unsigned n = 0;
  EVP_DigestInit_ex(c, md, nullptr);
  EVP_DigestUpdate(c, a.data(), a.size());
  EVP_DigestUpdate(c, b.data(), b.size());
  EVP_DigestFinal_ex(c, o.data(), &n);
  EVP_MD_CTX_free(c);
  return o;
}
Bytes nalu_hashable(const Bytes &d) {
  size_t sc = startcode_len(d), e = d.size();
  while (e > sc && d[e - 1] == 0) e--;
  return Bytes(d.begin() + sc, d.begin() + e);
}
static EVP_PKEY *pub(const Key &k) {
  static std::map<std::string, EVP_PKEY *> m;
  auto it = m.find(k.pub);
  if (it != m.end()) return it->second;
  BIO *b = BIO_new_mem_buf(k.pub.data(), (int)k.pub.size());
  EVP_PKEY *p = PEM_read_bio_PUBKEY(b, nullptr, nullptr, nullptr);
  BIO_free(b);
  return m[k.pub] = p;
}
size_t ref_max_sig(const Key &k) { return (size_t)EVP_PKEY_get_size(pub(k)); }
bool ref_verify(const Key &k, const Bytes &digest, const uint8_t *sig, size_t len) {
  EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(pub(k), nullptr);
  bool ok = c && EVP_PKEY_verify_init(c) > 0;
  if (ok && k.rsa) ok = EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING) > 0 && EVP_PKEY_CTX_set_signature_md(c, EVP_sha256()) > 0;
  ok = ok && EVP_PKEY_verify(c, sig, len, digest.data(), digest.size()) == 1;
  EVP_PKEY_CTX_free(c);
  return ok;
}

RefSigner::RefSigner(const SignCfg &c) : cfg(c) {
  md = ref_md(c.hash);
  hs = (size_t)EVP_MD_get_size(md);
  link_old.assign(hs, 0);
  link_new.assign(hs, 0);
}

static void put(Bytes &b, uint64_t v, int n) {
  for (int i = n - 1; i >= 0; i--) b.push_back((uint8_t)(v >> (8 * i)));
}
static void tlv(Bytes &o, int tag, int lenbytes, const Bytes &v) {
  o.push_back((uint8_t)tag);
  put(o, v.size(), lenbytes);
  o.insert(o.end(), v.begin(), v.end());
}

Bytes RefSigner::optional_tlvs() const {
  Bytes o;
  if (cfg.pubkey_in_sei) {
    Bytes v{2};
    const std::string &p = key_by_name(cfg.key).pub;
    v.insert(v.end(), p.begin(), p.end());
    tlv(o, TAG_PUBKEY, 2, v);
  }
  Bytes v{1};
  for (int i = 0; i < 5; i++) {
    std::string s = cfg.has_info && cfg.info[i] ? *cfg.info[i] : "";
    if (s.size() > 254) s.resize(254);
    v.push_back((uint8_t)(s.size() + 1));
    v.insert(v.end(), s.begin(), s.end());
    v.push_back(0);
  }
  tlv(o, TAG_PRODUCT, 2, v);
  ASN1_OBJECT *obj = OBJ_nid2obj(EVP_MD_get_type(md));
  Bytes oid{6, (uint8_t)OBJ_length(obj)};
  oid.insert(oid.end(), OBJ_get0_data(obj), OBJ_get0_data(obj) + OBJ_length(obj));
  Bytes cv{1, (uint8_t)oid.size()};
  cv.insert(cv.end(), oid.begin(), oid.end());
  tlv(o, TAG_CRYPTO, 1, cv);
  return o;
}

bool RefSigner::add(const Nalu &n, RefSei *out) {
  if (!n.pic()) return false;
  bool primary = n.t == 'I' || n.t == 'P', closes = false;
  if (primary) {
    if (frames % cfg.recurrence == 0) flag = true;
    frames++;
  }
  if (n.t == 'I') {
    if (started) {
      closes = true;
      RefSei r;
      r.recurrent = flag;
      r.nalus = (int)gop.size();
      Bytes head(kSvUuid, kSvUuid + 16), opt, gen{3}, all, list{1};
      head.push_back((uint8_t)((cfg.sei_epb ? 0x80 : 0) | 0x30));
      if (flag && !cfg.golden) opt = optional_tlvs();
      counter++;
      put(gen, counter, 4);
      put(gen, gop.size() & 0xffff, 2);
      int v[3] = {0, 0, 0};
      sscanf(signed_video_get_version(), "v%d.%d.%d", &v[0], &v[1], &v[2]);
      for (int x : v) gen.push_back((uint8_t)x);
      gen.push_back(n.has_ts ? 1 : 0);
      if (n.has_ts) put(gen, (uint64_t)n.ts, 8);
      gen.insert(gen.end(), link_old.begin(), link_old.end());
      for (auto &h : gop) all.insert(all.end(), h.begin(), h.end());
      Bytes gh = ref_hash(md, all);
      gen.insert(gen.end(), gh.begin(), gh.end());
      Bytes gt, lt;
      tlv(gt, TAG_GENERAL, 1, gen);
      r.list = cfg.level == SV_AUTHENTICITY_LEVEL_FRAME && all.size() <= 64 * 300;
      list.insert(list.end(), all.begin(), all.end());
      if (r.list) tlv(lt, TAG_HASHLIST, 2, list);
      size_t sig = 3 + 5 + ref_max_sig(key_by_name(cfg.key));
      r.payload_with_list = head.size() + opt.size() + gt.size() + lt.size() + sig;
      if (cfg.max_sei && r.payload_with_list > cfg.max_sei) {
        r.list = false;
        lt.clear();
      }
      r.body = head;
      for (auto *p : {&opt, &gt, &lt}) r.body.insert(r.body.end(), p->begin(), p->end());
      r.payload_size = r.body.size() + sig;
      *out = r;
      flag = false;
    }
    started = true;
    gop.clear();
    href = ref_hash(md, nalu_hashable(n.d));
    gop.push_back(href);
    link_old = link_new;
    link_new = href;
  } else if (started) {
    gop.push_back(ref_hash(md, href, ref_hash(md, nalu_hashable(n.d))));
  }
  return closes;
}

std::string ref_compare(const SignCfg &cfg, const RefSei &r, const Bytes &sei, bool verify) {
  WireSei w = parse_sei(sei, cfg.codec, cfg.sei_epb);
  if (!w.ok) return "SEI cannot be parsed: " + w.err;
  const Tlv *s = w.find(TAG_SIGNATURE);
  if (!s) return "no signature";
  if (s != &w.tlvs.back()) return "the signature is not last";
  Bytes body(w.payload.begin(), w.payload.begin() + s->pos);
  if (body != r.body) {
    size_t i = 0;
    while (i < body.size() && i < r.body.size() && body[i] == r.body[i]) i++;
    int tag = 0;
    for (auto &t : w.tlvs)
      if (t.pos <= i) tag = t.tag;
    return strf("SEI differs from the reference at payload byte %zu (in tag %d), sizes %zu and %zu: has %s, should be %s", i, tag, body.size(), r.body.size(),
        hexs(body.data() + i, body.size() - i, 24).c_str(), hexs(r.body.data() + i, r.body.size() - i, 24).c_str());
  }
  if (w.payload_size != r.payload_size) return strf("payload size %zu, should be %zu", w.payload_size, r.payload_size);
  if (s->v.size() < 5 || s->v[0] != 1 || s->v[2] != 1) return "wrong head of the signature tag";
  if (!verify) return "";
  Bytes doc(sei.begin() + w.sc, sei.begin() + w.sig_tag_raw);
  if (!ref_verify(key_by_name(cfg.key), ref_hash(ref_md(cfg.hash), doc), w.payload.data() + w.sig_pos, w.sig_len))
    return "the signature does not verify over the bytes before it";
  return "";
}
