#pragma once
#include <algorithm>
#include <set>

#include "forge.h"
#include "tamper.h"
#include "wire.h"

static inline void set_ts(Ctx &c, Stream &in) {
  if (!c.src.chance(1, 3)) return;
  int64_t t = c.src.chance(1, 6) ? (int64_t)c.src.raw64() : (int64_t)c.src.draw(2000000000000000ull);
  for (auto &n : in) {
    n.has_ts = c.src.chance(7, 8);
    n.ts = t;
    t = (int64_t)((uint64_t)t + 40000);
  }
}

static inline SignCfg base_cfg(Ctx &c) {
  CfgOpts co;
  co.maxsei = true;
  SignCfg cfg = gen_cfg(c.src, co);
  return cfg;
}

static inline int first_sei(const Stream &s) {
  for (size_t i = 0; i < s.size(); i++)
    if (s[i].t == 'S') return (int)i;
  return -1;
}
static inline const Report *report_at(const Validation &v, int idx) {
  for (auto &s : v.steps)
    if (s.idx == idx) return &s.r;
  return nullptr;
}

// A signed stream with at least three signed GOPs for the manipulation properties.
struct Base {
  SignCfg cfg;
  Stream s;
  int n;  // number of SEIs
};
static inline Base make_base(Ctx &c, int min_gops, int max_gops, bool extras = true, int max_len = 6) {
  Base b;
  CfgOpts co;
  co.info = c.src.chance(1, 8);
  co.any_hash = c.src.chance(1, 3);
  b.cfg = gen_cfg(c.src, co);
  GenOpts o;
  o.min_gops = min_gops;
  o.max_gops = max_gops;
  o.max_gop_len = max_len;
  o.extras = extras && c.src.coin();
  o.slices = c.src.chance(1, 2);
  o.max_body = 40;
  o.scale = true;
  Stream in = gen_stream(c.src, b.cfg.codec, o);
  set_ts(c, in);
  // Make sure the last SEI is delivered: end with a P-frame.
  if (in.back().t != 'P') {
    Nalu p = make_nalu(c.src, b.cfg.codec, 'P', o, (int)in.size() + 1);
    p.gop = in.back().gop;
    for (auto &x : in)
      if (x.pic()) p.gop = x.gop;
    in.push_back(p);
  }
  PullMode m = c.src.coin() ? PULL_PEEK : PULL_AFTER;
  b.s = sign_stream(c, b.cfg, in, m);
  b.n = num_seis(b.s);
  if (c.src.chance(1, 6)) age_stream(b.s, b.cfg, gen_age(c.src));
  return b;
}

static inline bool is_pic_type(SignedVideoCodec codec, const Bytes &d) {
  size_t sc = startcode_len(d);
  if (sc >= d.size()) return false;
  if (codec == SV_CODEC_H264) {
    int t = d[sc] & 0x1f;
    return !(d[sc] & 0x80) && (t == 1 || (t == 5 && (d[sc] & 0x60)));
  }
  if (sc + 1 >= d.size()) return false;
  int t = (d[sc] >> 1) & 0x3f, tid = d[sc + 1] & 7;
  return !(d[sc] & 0x80) && tid && (t <= 1 || (t >= 16 && t <= 21 && tid == 1));
}

