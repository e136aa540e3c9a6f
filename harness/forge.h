// Builds signing SEIs by hand, for hostile input and for the legacy format. Independent of the library.
#pragma once
#include "refmodel.h"

Bytes sign_digest(const Key &k, const Bytes &digest);

struct SeiShape {
  bool epb = true;          // apply emulation prevention
  int sc = 4;               // start code bytes 0, 3, 4
  long size_delta = 0;      // lie about the payload size
  int payload_type = 5;
  bool stop = true;         // append the stop byte
  Bytes header;             // empty: that of the codec
};
// |payload|: UUID, reserved byte, TLVs.
Bytes build_sei(SignedVideoCodec codec, const Bytes &payload, const SeiShape &sh = SeiShape());
// Header to the end of |body|, as hashed for the signature.
Bytes sei_document(SignedVideoCodec codec, const Bytes &body, size_t payload_size, bool epb);
Bytes signature_tlv(const Bytes &sig, size_t max_size, int hash_type, int version = 1, int status = 0);
// |body|: UUID to the last TLV before the signature.
Bytes signed_sei(SignedVideoCodec codec, const Bytes &body, const Key &k, const EVP_MD *md, const SeiShape &sh = SeiShape());
void put_be(Bytes &b, uint64_t v, int n);
void add_tlv(Bytes &o, int tag, const Bytes &v);  // with the length field of the tag

// Turns a signed stream into what the same signer would have produced after |offset| more GOPs: the counter of every SEI is
// advanced and the SEI signed anew, without the library.
void age_stream(Stream &s, const SignCfg &cfg, uint32_t offset);
uint32_t gen_age(Src &s);

struct LegacyCfg {
  SignedVideoCodec codec = SV_CODEC_H264;
  bool frame_level = true;
  std::string key = "ec256_0";
  std::string hash;  // empty: none announced, SHA-256
  bool epb = true, pubkey = true;
  int general_version = 2, pubkey_version = 1;
  std::string info[5];
  unsigned recurrence = 1;  // in SEIs
  Bytes vendor;             // value of the vendor tag
};
// Signs in the format of versions before the linked hashes: a SEI in front of every I-frame, covering the pictures from
// the previous I-frame up to and including the one that follows.
struct LegacySigner {
  LegacyCfg cfg;
  const EVP_MD *md;
  Bytes ref;
  bool has_ref = false;
  std::vector<Bytes> gop;
  uint32_t counter = 0;
  explicit LegacySigner(const LegacyCfg &c);
  Stream sign(const Stream &in);

 private:
  Bytes sei(const Nalu &closing);
};
