// Independent reference of the signing side: computes, from the input stream and the settings alone, what every SEI has to
// hold. Uses OpenSSL's digests and verification directly and no code of the library.
#pragma once
#include <openssl/evp.h>

#include "wire.h"

const EVP_MD *ref_md(const std::string &name);
Bytes ref_hash(const EVP_MD *md, const Bytes &a, const Bytes &b = Bytes());
Bytes nalu_hashable(const Bytes &d);  // from the header to the last non-zero byte
bool ref_verify(const Key &k, const Bytes &digest, const uint8_t *sig, size_t len);
size_t ref_max_sig(const Key &k);

struct RefSei {
  Bytes body;          // UUID .. last TLV before the signature
  bool recurrent = false, list = false;
  int nalus = 0;
  size_t payload_size = 0, payload_with_list = 0;
};
struct RefSigner {
  SignCfg cfg;  // may be changed between NAL Units
  const EVP_MD *md;
  size_t hs;
  std::vector<Bytes> gop;  // hashes of the pictures so far
  Bytes href, link_old, link_new;
  bool started = false, flag = false;
  uint32_t frames = 0, counter = 0;
  explicit RefSigner(const SignCfg &c);
  // Returns true and fills |out| if the NAL Unit closes a GOP.
  bool add(const Nalu &n, RefSei *out);
  Bytes optional_tlvs() const;
};
// Checks a delivered SEI against the reference; returns "" or what differs.
std::string ref_compare(const SignCfg &cfg, const RefSei &r, const Bytes &sei, bool verify = true);
