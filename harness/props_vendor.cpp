// Vendor attestation: certificates and attestation reports made by hand under a root whose key is known.
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>

#include "auth_util.h"
#include "hostile.h"

extern X509 *g_vendor_root;
static const char kAxis[] = "Axis Communications AB";

static EVP_PKEY *pkey(const std::string &name) {
  static std::map<std::string, EVP_PKEY *> m;
  auto &k = m[name];
  if (!k) {
    const std::string &p = key_by_name(name).priv;
    BIO *b = BIO_new_mem_buf(p.data(), (int)p.size());
    k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
    BIO_free(b);
    if (!k) throw Fail{"cannot read key " + name};
  }
  return k;
}

struct CertSpec {
  std::string cn, org, serial_attr;
  bool has_serial = false, has_cn = true;
  std::string key;
  int ca = 1;  // 0 no extension, 1 CA:TRUE, 2 CA:FALSE
  int not_before = 2000, not_after = 2099;
  int number = 1;
};
static X509_NAME *name_of(const CertSpec &s) {
  X509_NAME *n = X509_NAME_new();
  auto put = [&](int nid, const std::string &v) {
    if (X509_NAME_add_entry_by_NID(n, nid, MBSTRING_UTF8, (const unsigned char *)v.data(), (int)v.size(), -1, 0) == 1) return;
    // Longer than the recommended limit.
    ASN1_STRING *a = ASN1_STRING_type_new(V_ASN1_UTF8STRING);
    ASN1_STRING_set(a, v.data(), (int)v.size());
    X509_NAME_ENTRY *e = X509_NAME_ENTRY_create_by_NID(nullptr, nid, V_ASN1_UTF8STRING, (const unsigned char *)v.data(), (int)v.size());
    if (e) X509_NAME_add_entry(n, e, -1, 0);
    X509_NAME_ENTRY_free(e);
    ASN1_STRING_free(a);
  };
  put(NID_organizationName, s.org.empty() ? "Org" : s.org);
  if (s.has_cn) put(NID_commonName, s.cn);
  if (s.has_serial) put(NID_serialNumber, s.serial_attr);
  return n;
}
static void set_year(ASN1_TIME *t, int y) { ASN1_TIME_set_string_X509(t, strf("%04d0101000000Z", y).c_str()); }
static X509 *make_cert(const CertSpec &s, const CertSpec &issuer, const std::string &issuer_key) {
  X509 *x = X509_new();
  X509_set_version(x, 2);
  ASN1_INTEGER_set(X509_get_serialNumber(x), s.number);
  X509_NAME *n = name_of(s), *in = name_of(issuer);
  X509_set_subject_name(x, n);
  X509_set_issuer_name(x, in);
  X509_NAME_free(n);
  X509_NAME_free(in);
  set_year(X509_getm_notBefore(x), s.not_before);
  set_year(X509_getm_notAfter(x), s.not_after);
  // Dates before 2050 are given as UTCTime.
  ASN1_TIME_normalize(X509_getm_notBefore(x));
  ASN1_TIME_normalize(X509_getm_notAfter(x));
  X509_set_pubkey(x, pkey(s.key));
  if (s.ca) {
    X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, nullptr, NID_basic_constraints, s.ca == 1 ? "critical,CA:TRUE" : "critical,CA:FALSE");
    X509_add_ext(x, e, -1);
    X509_EXTENSION_free(e);
  }
  if (!X509_sign(x, pkey(issuer_key), EVP_sha256())) {
    X509_free(x);
    throw Fail{"cannot sign a certificate"};
  }
  return x;
}
static Bytes der(X509 *x) {
  unsigned char *p = nullptr;
  int n = i2d_X509(x, &p);
  Bytes b(p, p + (n > 0 ? n : 0));
  OPENSSL_free(p);
  return b;
}
static std::string pem_of(const Bytes &d) {
  std::string o = "-----BEGIN CERTIFICATE-----\n";
  std::vector<unsigned char> t(d.size() * 2 + 80);
  EVP_ENCODE_CTX *e = EVP_ENCODE_CTX_new();
  int n = 0, m = 0;
  EVP_EncodeInit(e);
  EVP_EncodeUpdate(e, t.data(), &n, d.data(), (int)d.size());
  EVP_EncodeFinal(e, t.data() + n, &m);
  EVP_ENCODE_CTX_free(e);
  o.append((char *)t.data(), n + m);
  return o + "-----END CERTIFICATE-----\n";
}
static void flip_bit(Src &s, Bytes &b) {
  if (b.empty()) return;
  size_t bit = s.draw(b.size() * 8);
  b[bit / 8] ^= 1 << (bit % 8);
}
// The data a device signs when it attests a key.
static Bytes attested(const std::string &video_key, const Bytes &chip, const Bytes &ts) {
  static const uint8_t attr[37] = {0x7b, 0x00, 0x02, 0x01, 0x29, 0x01, 0x00, 0x00, 0x7b, 0x00, 0x00, 0x03, 0x00, 0x00, 0x08, 0x7b, 0x00, 0x00, 0x03, 0x1f, 0x3c, 0x00, 0x00, 0x08, 0x00, 0x00, 0x00, 0x00, 0x00, 0x20, 0x00, 0x00, 0x02, 0x00, 0x00, 0x00, 0x00};
  static const uint8_t fresh[16] = {0x92, 0xbb, 0xed, 0xfb, 0x98, 0x82, 0xac, 0x16, 0xc7, 0xf0, 0x1a, 0xe4, 0x59, 0x05, 0x96, 0x04};
  Bytes cmd = {0x80, 0x22, 0, 0, 0, 0, 0x21, 0x41, 0x04, attr[0], attr[1], attr[2], attr[3], 0x45, 0x04, 0xf0, 0, 0, 0x12, 0x46, 0x01, 0x21, 0x47, 0x10};
  cmd.insert(cmd.end(), fresh, fresh + 16);
  Bytes o = ref_hash(EVP_sha256(), cmd), pub;
  unsigned char *p = nullptr;
  size_t n = EVP_PKEY_get1_encoded_public_key(pkey(video_key), &p);
  pub.assign(p, p + n);
  OPENSSL_free(p);
  auto add = [&](int tag, const Bytes &v) {
    o.push_back((uint8_t)tag);
    o.push_back(0x82);
    put_be(o, v.size(), 2);
    o.insert(o.end(), v.begin(), v.end());
  };
  add(0x41, pub);
  add(0x42, chip);
  add(0x43, Bytes(attr, attr + 37));
  add(0x44, Bytes{0, 0x20});
  add(0x4f, ts);
  return o;
}
static Bytes sign_bytes(const std::string &key, const Bytes &d, const EVP_MD *md) {
  EVP_MD_CTX *m = EVP_MD_CTX_new();
  size_t n = 0;
  Bytes o;
  if (EVP_DigestSignInit(m, nullptr, md, nullptr, pkey(key)) == 1 && EVP_DigestSign(m, nullptr, &n, d.data(), d.size()) == 1) {
    o.resize(n);
    EVP_DigestSign(m, o.data(), &n, d.data(), d.size());
    o.resize(n);
  }
  EVP_MD_CTX_free(m);
  return o;
}

enum Verdict { VALIDATED, REFUSED, INFEASIBLE, ANY };
VendorRoot::~VendorRoot() {
  X509_free(g_vendor_root);
  g_vendor_root = nullptr;
}
void gen_genuine_attest(Src &s, SignCfg &cfg) {
  static const std::vector<std::string> p256 = {"ec256_0", "ec256_1", "ec256_2"};
  CertSpec root, inter, att;
  root.cn = "Test Root";
  root.key = s.pick(p256);
  inter.cn = "Test Intermediate";
  inter.key = s.pick(p256);
  inter.number = 2;
  att.key = s.pick(p256);
  att.number = 3;
  att.ca = 0;
  Bytes chip = rnd_bytes(s, 18), ts = rnd_bytes(s, 12);
  static const uint8_t prefix[4] = {4, 0, 0x50, 1};
  memcpy(chip.data(), prefix, 4);
  std::string serial = std::string(1 + s.draw(15), 'S');
  att.has_serial = true;
  att.serial_attr = serial;
  att.cn = "Axis Edge Vault Attestation ";
  for (auto b : chip) att.cn += strf("%02x", b);
  if (cfg.key.compare(0, 5, "ec256")) cfg.key = s.pick(p256);
  X509_free(g_vendor_root);
  g_vendor_root = make_cert(root, root, root.key);
  X509 *ic = make_cert(inter, root, root.key), *ac = make_cert(att, inter, inter.key);
  cfg.cert_chain = pem_of(der(ac)) + pem_of(der(ic)) + pem_of(der(g_vendor_root));
  X509_free(ac);
  X509_free(ic);
  Bytes sig = sign_bytes(att.key, attested(cfg.key, chip, ts), EVP_sha256());
  cfg.attestation = rnd_bytes(s, 8);
  cfg.attestation.push_back(1);
  cfg.attestation.insert(cfg.attestation.end(), ts.begin(), ts.end());
  put_be(cfg.attestation, sig.size(), 2);
  cfg.attestation.insert(cfg.attestation.end(), sig.begin(), sig.end());
  cfg.attest = true;
  cfg.has_info = true;
  cfg.info[2] = s.chance(1, 8) ? "other" : serial;
  cfg.info[3] = kAxis;
}

PROPERTY(P26, "A stream is signed, in the present or the legacy format, with an attestation report and certificate chain made under a known root, genuine or with one deviation - certificates, names, serial numbers, dates, keys, signed content, report layout, flipped bits -, or with data missing; non-trivial when the report is genuine or one step from it and the stream identifies the vendor.") {
  Src &s = c.src;
  VendorRoot guard;
  static const std::vector<std::string> p256 = {"ec256_0", "ec256_1", "ec256_2", "ec256sec1_0"};
  static const std::vector<std::string> ec = {"ec256_0", "ec256_1", "ec256_2", "ec384_0", "ec521_0"};
  static const std::vector<std::string> notp256 = {"ec384_0", "ec521_0", "rsa2048_0", "ec256k1_0"};
  Verdict want = VALIDATED;
  std::string what = "genuine";
  bool legacy = s.chance(1, 4);
  // -- The parts of a genuine attestation.
  CertSpec root, inter, att;
  root.cn = "Test Root";
  root.key = s.pick(ec);
  inter.cn = "Test Intermediate";
  inter.key = s.pick(ec);
  inter.number = 2;
  att.key = s.pick(ec);
  att.number = 3;
  att.ca = (int)s.pick(std::vector<int>{0, 2, 1});
  Bytes chip = rnd_bytes(s, 18), ts = rnd_bytes(s, 12);
  static const uint8_t prefix[4] = {4, 0, 0x50, 1};
  memcpy(chip.data(), prefix, 4);
  std::string serial = std::string(1 + s.draw(18), (char)('A' + s.draw(26)));
  if (s.chance(1, 12)) serial = std::string("Unknown").substr(0, 1 + s.draw(7));
  serial += (char)('0' + s.draw(10));
  att.has_serial = true;
  att.serial_attr = serial;
  bool upper = s.coin();
  std::string hex;
  for (auto b : chip) hex += strf(upper ? "%02X" : "%02x", b);
  std::string cn = "Axis Edge Vault Attestation ";
  std::string video = s.pick(p256), attested_key = video, signer = "";
  std::string manu = kAxis, product_serial = serial;
  std::string inter_issuer_key = root.key, att_issuer_key = inter.key;
  bool has_info = true, pubkey_in_sei = true, direct = s.chance(1, 8);
  const EVP_MD *md = EVP_sha256();
  bool flip_signed = false, swap = false, second_rogue_root = false;
  int flip_cert = -1, garbage_cert = -1, certs = 3, cut = 0, missing = 0;
  Bytes report_head = rnd_bytes(s, 8);
  int list_len = 1;
  enum { R_NONE, R_FLIP, R_TRUNC, R_EXTEND, R_RANDOM, R_SIZE, R_DER } rep = R_NONE;
  auto other = [&](const std::string &k) {
    std::string o;
    do o = s.pick(ec);
    while (o == k);
    return o;
  };
  int dev = s.chance(1, 4) ? -1 : (int)s.draw(33);
  if (s.chance(1, 20)) dev = 30;
  if (dev >= 0) want = REFUSED;
  switch (dev) {
    case -1: break;
    case 0: video = s.pick(notp256); attested_key = video; what = "video key not P-256"; break;
    case 1: do attested_key = s.pick(p256); while (attested_key == video); what = "attests another key"; break;
    case 2: signer = other(att.key); what = "report signed by another key"; break;
    case 3: flip_signed = true; what = "report of other content"; break;
    case 4: md = s.coin() ? EVP_sha512() : EVP_sha1(); what = "report with another hash"; break;
    case 5: rep = R_FLIP; what = "flipped bit in the report"; break;
    case 6: rep = R_TRUNC; what = "truncated report"; break;
    case 7: rep = R_EXTEND; what = "extended report"; break;
    case 8: rep = R_RANDOM; what = "random report"; break;
    case 9: rep = R_SIZE; what = "wrong size in the report"; break;
    case 10: list_len = (int)s.pick(std::vector<int>{0, 2, 255, 129}); what = "list length"; break;
    case 11: att.key = s.coin() ? "rsa2048_0" : "rsa1024_0"; what = "RSA attestation key"; break;
    case 12: inter_issuer_key = other(root.key); what = "intermediate not issued by the root"; break;
    case 13: att_issuer_key = other(inter.key); what = "attestation certificate not issued by the intermediate"; break;
    case 14: second_rogue_root = true; what = "rogue root"; break;
    case 15: att.not_after = 2001 + (int)s.draw(20); what = "attestation certificate expired"; break;
    case 16: att.not_before = 2060 + (int)s.draw(30); what = "attestation certificate not yet valid"; break;
    case 17: inter.not_after = 2001 + (int)s.draw(20); what = "intermediate expired"; break;
    case 18: inter.not_before = 2060 + (int)s.draw(30); what = "intermediate not yet valid"; break;
    case 19: inter.ca = 2; what = "intermediate not a CA"; break;
    case 20: swap = true; what = "certificates swapped"; break;
    case 21: garbage_cert = (int)s.draw(2); what = strf("certificate %d unreadable", garbage_cert); break;
    case 22: flip_cert = (int)s.draw(2); what = strf("flipped bit in certificate %d", flip_cert); break;
    case 23: cn = s.pick(std::vector<std::string>{"Axis Edge Vault ", "", "axis edge vault attestation ", "Axis Edge Vault Attestation", "Axis Edge Vault Attestation: "}); what = "common name"; break;
    case 24: {
      int k = (int)s.draw(4);
      if (k == 0) hex.pop_back();
      else if (k == 1) hex += "0";
      else if (k == 2) hex = hex.substr(0, 34);
      else hex += "00";
      what = "chip id length";
      break;
    }
    case 25: {
      chip[s.draw(4)] ^= (uint8_t)(1 + s.draw(255));
      hex.clear();
      for (auto b : chip) hex += strf("%02x", b);
      what = "chip id prefix";
      break;
    }
    case 26: att.has_serial = false; what = "no serial number in the certificate"; break;
    case 27: {
      int k = (int)s.draw(6);
      if (k == 0) product_serial = "";
      else if (k == 1) product_serial = serial + "0";
      else if (k == 2) product_serial.pop_back();
      else if (k == 3) product_serial[s.draw(serial.size())] ^= 1;
      else if (k == 4) product_serial = "Unknown";
      else product_serial[0] ^= 0x20;
      what = "serial number of another device";
      break;
    }
    case 28: att.has_cn = false; what = "no common name"; break;
    case 29: rep = R_DER; what = "malformed signature in the report"; break;
    case 30: {
      // Nothing to validate against.
      want = INFEASIBLE;
      missing = 1 + (int)s.draw(5);
      what = strf("missing data %d", missing);
      break;
    }
    case 31:
      want = INFEASIBLE;
      manu = s.pick(std::vector<std::string>{"", "Axis", "Axis Communications", "Axis Communications AB ", "axis communications ab", "Other"});
      has_info = !s.chance(1, 4);
      what = "other manufacturer";
      break;
    case 32:
      want = ANY;
      att.serial_attr = serial = product_serial = std::string(20 + s.draw(60), 'S');
      what = "long serial number";
      break;
  }
  if (missing == 5) pubkey_in_sei = false;
  // The certificate of the attestation may be issued by the root itself.
  if (direct && (dev < 0 || dev < 12 || dev > 30)) {
    att_issuer_key = root.key;
  } else {
    direct = false;
  }
  att.cn = cn + hex;
  g_vendor_root = make_cert(root, root, root.key);
  X509 *ic, *ac;
  if (second_rogue_root) {
    // A root of the same name with another key, perhaps given as the intermediate.
    CertSpec rogue = root;
    rogue.key = other(root.key);
    if (s.coin()) {
      ic = make_cert(rogue, rogue, rogue.key);
      ac = make_cert(att, rogue, rogue.key);
    } else {
      ic = make_cert(inter, rogue, rogue.key);
      ac = make_cert(att, inter, inter.key);
    }
  } else {
    ic = make_cert(inter, root, inter_issuer_key);
    ac = make_cert(att, direct ? root : inter, att_issuer_key);
  }
  Bytes cd[2] = {der(ac), der(ic)}, rd = der(g_vendor_root);
  X509_free(ac);
  X509_free(ic);
  if (flip_cert >= 0) flip_bit(s, cd[flip_cert]);
  if (swap) std::swap(cd[0], cd[1]);
  std::string two;
  for (int i = 0; i < 2; i++) {
    std::string p = pem_of(cd[i]);
    if (garbage_cert == i) {
      int k = (int)s.draw(3);
      if (k == 0) p = "-----BEGIN CERTIFICATE-----\n!!!!\n-----END CERTIFICATE-----\n";
      else if (k == 1) p.replace(p.find("-----END"), std::string::npos, "\n");
      else p = "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n";
    }
    if (s.chance(1, 6)) p = "subject=" + std::string(s.draw(30), 'x') + "\n" + p;
    two += p;
  }
  std::string chain = two;
  if (missing != 3) {
    chain += pem_of(rd);
    if (s.chance(1, 6)) chain += pem_of(rd);
    if (s.chance(1, 6)) chain.pop_back();
  }
  // -- The report.
  Bytes data = attested(attested_key, chip, ts);
  if (flip_signed) flip_bit(s, data);
  Bytes sig = sign_bytes(signer.empty() ? att.key : signer, data, md);
  if (rep == R_DER) {
    int k = (int)s.draw(5);
    if (k == 0) sig = rnd_bytes(s, 1 + s.draw(150));
    else if (k == 1) sig[0] ^= 1 + (uint8_t)s.draw(255);
    else if (k == 2) sig.resize(1 + s.draw(sig.size() - 1));
    else if (k == 3) sig.push_back(0);
    else sig[1]++;
  }
  Bytes report = report_head;
  report.push_back((uint8_t)list_len);
  report.insert(report.end(), ts.begin(), ts.end());
  put_be(report, sig.size(), 2);
  report.insert(report.end(), sig.begin(), sig.end());
  if (rep == R_FLIP) {
    // The header, version and object id are not signed.
    Bytes tail(report.begin() + 8, report.end());
    flip_bit(s, tail);
    std::copy(tail.begin(), tail.end(), report.begin() + 8);
  } else if (rep == R_TRUNC) {
    report.resize(1 + s.draw(report.size() - 1));
  } else if (rep == R_EXTEND) {
    Bytes e = rnd_bytes(s, 1 + s.draw(12));
    report.insert(report.end(), e.begin(), e.end());
  } else if (rep == R_RANDOM) {
    report = rnd_bytes(s, 1 + s.draw(255));
    if (s.coin() && report.size() > 23) {
      report[8] = 1;
      report[21] = 0;
      report[22] = (uint8_t)(report.size() - 23);
    }
  } else if (rep == R_SIZE) {
    long n = (long)sig.size() + (s.coin() ? 1 + (long)s.draw(300) : -1 - (long)s.draw(sig.size()));
    report[21] = (uint8_t)(n >> 8);
    report[22] = (uint8_t)n;
  }
  if (report.size() > 255) report.resize(255), want = REFUSED;
  bool give_report = missing != 1 && missing != 4, give_chain = missing != 2 && missing != 4;
  c.note("%s%s: attestation key %s, issued by %s, root %s, video key %s, report of %zu bytes", legacy ? "legacy, " : "", what.c_str(), att.key.c_str(), direct ? "the root" : inter.key.c_str(), root.key.c_str(), video.c_str(), report.size());
  // -- The stream.
  SignedVideoCodec codec = s.coin() ? SV_CODEC_H265 : SV_CODEC_H264;
  GenOpts o;
  o.min_gops = 3;
  o.max_gops = 6;
  o.max_gop_len = 4;
  o.max_body = 30;
  o.extras = s.chance(1, 4);
  Stream in = gen_stream(s, codec, o), out;
  Bytes value{1, (uint8_t)report.size()};
  value.insert(value.end(), report.begin(), report.end());
  value.insert(value.end(), two.begin(), two.end());
  std::string info[5] = {"HW", "FW", product_serial, manu, "addr"};
  bool sent = give_report && give_chain && missing != 3;
  const std::string *user = nullptr;
  if (!pubkey_in_sei) user = &key_by_name(video).pub;
  bool golden = !legacy && s.chance(1, 6);
  // Signs |in| with |video|.
  auto sign = [&] {
  size_t start = out.size();
  if (legacy) {
    LegacyCfg l = gen_legacy_cfg(s);
    l.codec = codec;
    l.key = video;
    if (video[0] == 'r') l.hash = "";
    for (int i = 0; i < 5; i++) l.info[i] = has_info ? info[i] : "";
    l.pubkey = pubkey_in_sei;
    if (user) l.hash = "", l.recurrence = 1;
    if (sent) l.vendor = value;
    for (auto &n : LegacySigner(l).sign(in)) out.push_back(n);
  } else {
    SignCfg cfg;
    cfg.codec = codec;
    cfg.key = video;
    cfg.level = s.coin() ? SV_AUTHENTICITY_LEVEL_GOP : SV_AUTHENTICITY_LEVEL_FRAME;
    if (video[0] != 'r' && s.chance(1, 4)) cfg.hash = "sha512";
    cfg.sei_epb = !s.chance(1, 4);
    cfg.has_info = has_info;
    for (int i = 0; i < 5; i++) cfg.info[i] = info[i];
    cfg.pubkey_in_sei = pubkey_in_sei;
    cfg.recurrence = s.chance(1, 4) ? (unsigned)s.range(1, 12) : 1;
    cfg.golden = golden;
    if (user) cfg.hash = "", cfg.recurrence = 1;
    int order = (int)s.draw(3);
    Signer sg(cfg, &c);
    auto give = [&](bool r, bool k) {
      if (!r && !k) return;
      Bytes h = report;
      int rc = sv_vendor_axis_communications_set_attestation_report(sg.sv, r ? h.data() : nullptr, r ? (uint8_t)h.size() : 0, k ? chain.c_str() : nullptr);
      c.require(rc == SV_OK, "setting %s%s%s returned %d", r ? "the report" : "", r && k ? " and " : "", k ? "the chain" : "", rc);
    };
    if (order == 0) give(give_report, give_chain);
    else if (order == 1) give(give_report, false), give(false, give_chain);
    else give(false, give_chain), give(give_report, false);
    // Setting either again is refused and changes nothing.
    if (s.chance(missing ? 3 : 1, 4)) {
      Bytes h = rnd_bytes(s, 30);
      bool r = give_report && s.coin(), k = give_chain && (!r || s.coin());
      bool r2 = r || (k && s.coin()), k2 = k || (r && s.coin());
      if (r || k) {
        int rc = sv_vendor_axis_communications_set_attestation_report(sg.sv, r2 ? h.data() : nullptr, r2 ? (uint8_t)h.size() : 0, k2 ? "-----BEGIN CERTIFICATE-----\n" : nullptr);
        c.require(rc == SV_NOT_SUPPORTED, "setting the attestation again returned %d", rc);
      }
    }
    auto drain = [&] {
      for (;;) {
        Nalu n;
        n.t = 'S';
        int off;
        unsigned pend;
        auto rc = sg.pull(nullptr, &n.d, &off, &pend);
        c.require(rc == SV_OK, "getting an SEI failed: %d", rc);
        if (n.d.empty()) break;
        out.push_back(n);
      }
    };
    if (golden) {
      int rc = signed_video_generate_golden_sei(sg.sv);
      c.require(rc == SV_OK, "generating a golden SEI failed: %d", rc);
      drain();
    }
    for (auto &n : in) {
      auto rc = sg.add(n.d, n.has_ts ? &n.ts : nullptr);
      c.require(rc == SV_OK, "adding a NALU failed: %d", rc);
      out.push_back(n);
      drain();
    }
    // The data is sent unchanged, together with the other recurrent data.
    bool any = false;
    for (size_t i = start; i < out.size(); i++) {
      const Nalu &n = out[i];
      if (n.t != 'S') continue;
      WireSei w = parse_sei(n.d, codec, cfg.sei_epb);
      c.require(w.ok, "SEI not readable: %s", w.err.c_str());
      const Tlv *t = w.find(TAG_VENDOR_AXIS);
      bool rec = w.find(TAG_CRYPTO);
      // With a golden SEI the other SEIs repeat nothing but the attestation.
      c.require(golden && !w.golden() ? !t || sent : !!t == (rec && sent), "an SEI with%s recurrent data has %s attestation", rec ? "" : "out", t ? "an" : "no");
      if (t) c.require(t->v == value, "the attestation in the SEI is not the one set");
      any |= !!t;
    }
    c.require(any == sent, "no attestation sent");
  }
  };
  sign();
  // Perhaps the stream goes on with another key that is not attested.
  size_t second = 0;
  if (want == VALIDATED && s.chance(1, 4)) {
    second = out.size();
    do video = s.pick(p256);
    while (video == attested_key || key_by_name(video).pub == key_by_name(attested_key).pub);
    in = gen_stream(s, codec, o);
    golden = false;
    sign();
    what = "another key later";
  }
  // -- Validation.
  std::unique_ptr<Validator> v(new Validator(codec, user));
  int passes = s.chance(1, 5) ? 2 : 1;
  const int expect = want == VALIDATED ? SV_PUBKEY_VALIDATION_OK : want == REFUSED ? SV_PUBKEY_VALIDATION_NOT_OK : SV_PUBKEY_VALIDATION_NOT_FEASIBLE;
  int judged = 0;
  for (int pass = 0; pass < passes; pass++) {
    if (pass && second) break;
    if (pass) c.require(signed_video_reset(v->sv) == SV_OK, "reset failed");
    bool known = pass > 0;
    int reports = 0;
    for (size_t i = 0; i < out.size(); i++) {
      std::optional<Report> r;
      int rc = v->add(out[i].d, &r);
      if (!second || i < second) c.require(rc == SV_OK, "%s: NAL Unit %zu (%c) refused with %d", what.c_str(), i, out[i].t, rc);
      if (!r) continue;
      // The third SEI with the other key: what it brought has been used.
      if (second && i > second) {
        int seis = 0;
        for (size_t k = second; k <= i; k++) seis += out[k].t == 'S';
        if (seis >= 3) {
          c.require(r->pkval == SV_PUBKEY_VALIDATION_NOT_OK && r->acc_pkval == SV_PUBKEY_VALIDATION_NOT_OK, "public key validation is %d and accumulated %d after the key was replaced", r->pkval, r->acc_pkval);
          judged++;
        }
        continue;
      }
      c.require(want == VALIDATED || want == ANY || r->pkval != SV_PUBKEY_VALIDATION_OK, "%s: the public key is reported as validated", what.c_str());
      c.require(r->auth != SV_AUTH_RESULT_NOT_OK, "%s: the video is not authentic: %s", what.c_str(), r->str().c_str());
      if (r->auth != SV_AUTH_RESULT_OK) continue;
      reports++;
      if (want == ANY) continue;
      c.require(r->pkval == expect, "%s: public key validation is %d, expected %d, in report %s", what.c_str(), r->pkval, expect, r->str().c_str());
      c.require(r->acc_pkval == expect, "%s: accumulated public key validation is %d, expected %d", what.c_str(), r->acc_pkval, expect);
      judged++;
    }
    c.require(reports > 0, "no authentic report");
  }
  if (judged && want != INFEASIBLE) c.nontrivial();
  c.label((legacy ? "legacy " : "") + what);
}
