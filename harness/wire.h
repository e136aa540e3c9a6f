// Independent reader of the SEI wire format (written from the H.264/H.265 SEI syntax and the payload layout), used as an
// oracle. Does not use any code of the library.
#pragma once
#include "media.h"

struct Tlv {
  int tag;
  size_t pos;      // position of the tag in |payload|
  size_t vpos;     // position of the value in |payload|
  Bytes v;
};
struct WireSei {
  bool ok = false;
  std::string err;
  size_t sc = 0;               // start code length
  size_t hdr = 0;              // NALU header length
  size_t payload_off = 0;      // offset in the NALU of the first payload byte (the UUID)
  size_t payload_size = 0;     // as announced
  Bytes payload;               // UUID, reserved byte and TLVs, emulation prevention removed
  std::vector<size_t> raw;     // position in the NALU of every payload byte
  uint8_t reserved = 0;
  bool epb() const { return reserved & 0x80; }
  bool golden() const { return reserved & 0x40; }
  std::vector<Tlv> tlvs;
  const Tlv *find(int tag) const {
    for (auto &t : tlvs)
      if (t.tag == tag) return &t;
    return nullptr;
  }
  size_t sig_tag_raw = 0;      // offset in the NALU of the signature tag (first byte not covered by the signature)
  size_t sig_pos = 0, sig_len = 0;  // signature value in |payload|
};
enum { TAG_GENERAL = 1, TAG_PUBKEY = 2, TAG_PRODUCT = 3, TAG_HASHLIST = 4, TAG_SIGNATURE = 5, TAG_ARBITRARY = 6, TAG_CRYPTO = 7, TAG_VENDOR_AXIS = 129 };
// |has_epb|: the NALU carries emulation prevention bytes.
WireSei parse_sei(const Bytes &nalu, SignedVideoCodec codec, bool has_epb);
inline uint64_t be(const Bytes &b, size_t pos, int n) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) v = v << 8 | (pos + i < b.size() ? b[pos + i] : 0);
  return v;
}
extern const uint8_t kSvUuid[16];
