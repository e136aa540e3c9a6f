#include "wire.h"

const uint8_t kSvUuid[16] = {0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x20, 0x56, 0x69, 0x64, 0x65, 0x6f, 0x2e, 0x2e, 0x2e, 0x30};

WireSei parse_sei(const Bytes &d, SignedVideoCodec codec, bool has_epb) {
  WireSei w;
  auto bad = [&](const std::string &e) {
    w.err = e;
    return w;
  };
  w.sc = startcode_len(d);
  size_t p = w.sc;
  if (codec == SV_CODEC_H264) {
    if (p + 1 > d.size() || d[p] != 0x06) return bad("not an H.264 SEI header");
    w.hdr = 1;
  } else {
    if (p + 2 > d.size() || d[p] != 0x4e || d[p + 1] != 0x01) return bad("not an H.265 prefix SEI header");
    w.hdr = 2;
  }
  p += w.hdr;
  // RBSP with the position of every byte in the NALU.
  Bytes r;
  std::vector<size_t> pos;
  int z = 0;
  for (size_t i = p; i < d.size(); i++) {
    if (has_epb && z >= 2 && d[i] == 3) {
      z = 0;
      continue;
    }
    r.push_back(d[i]);
    pos.push_back(i);
    z = d[i] ? 0 : z + 1;
  }
  size_t q = 0;
  int type = 0, size = 0;
  while (q < r.size() && r[q] == 0xff) type += 255, q++;
  if (q >= r.size()) return bad("truncated payload type");
  type += r[q++];
  if (type != 5) return bad(strf("payload type %d", type));
  while (q < r.size() && r[q] == 0xff) size += 255, q++;
  if (q >= r.size()) return bad("truncated payload size");
  size += r[q++];
  w.payload_size = size;
  w.payload_off = q < pos.size() ? pos[q] : d.size();
  if (q + size >= r.size()) return bad(strf("payload size %d exceeds the %zu bytes present", size, r.size() - q));
  if (q + size + 1 != r.size()) return bad(strf("payload size %d but %zu bytes before the stop byte", size, r.size() - q - 1));
  if (r.back() != 0x80) return bad(strf("stop byte 0x%02x", r.back()));
  w.payload.assign(r.begin() + q, r.begin() + q + size);
  w.raw.assign(pos.begin() + q, pos.begin() + q + size);
  if (size < 17 || memcmp(w.payload.data(), kSvUuid, 16)) return bad("wrong UUID");
  w.reserved = w.payload[16];
  size_t t = 17;
  while (t < w.payload.size()) {
    Tlv x;
    x.tag = w.payload[t];
    x.pos = t;
    int lb = x.tag == TAG_GENERAL || x.tag == TAG_CRYPTO ? 1 : 2;
    if (t + 1 + lb > w.payload.size()) return bad("truncated TLV header");
    size_t len = be(w.payload, t + 1, lb);
    x.vpos = t + 1 + lb;
    if (x.vpos + len > w.payload.size()) return bad(strf("TLV %d of length %zu exceeds the payload", x.tag, len));
    x.v.assign(w.payload.begin() + x.vpos, w.payload.begin() + x.vpos + len);
    t = x.vpos + len;
    if (x.tag == TAG_SIGNATURE) {
      w.sig_tag_raw = w.raw[x.pos];
      // A preceding emulation prevention byte belongs to the position of the tag itself.
      w.sig_len = be(x.v, 3, 2);
      w.sig_pos = x.vpos + 5;
      if (w.sig_len + 5 > len) return bad("signature exceeds its TLV");
    }
    w.tlvs.push_back(x);
  }
  w.ok = true;
  return w;
}
