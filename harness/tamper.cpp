#include "tamper.h"
const char *tamper_names[] = {"modify", "header", "truncate", "append", "replace", "duplicate", "insert", "swap", "drop"};
std::vector<int> pics_of(const Stream &s, int gop) {
  std::vector<int> r;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i].pic() && s[i].gop == gop) r.push_back((int)i);
  return r;
}
int find_sei(const Stream &s, int gop) {
  for (size_t i = 0; i < s.size(); i++)
    if (s[i].t == 'S' && s[i].gop == gop) return (int)i;
  return -1;
}
int num_seis(const Stream &s) {
  int n = 0;
  for (auto &x : s) n += x.t == 'S';
  return n;
}

Bytes picture_bytes(const Bytes &x) {
  size_t e = x.size();
  while (e && !x[e - 1]) e--;
  size_t sc = startcode_len(x);
  return e > sc ? Bytes(x.begin() + sc, x.begin() + e) : Bytes();
}

std::string tamper_gop(Ctx &c, SignedVideoCodec codec, const Stream &orig, Stream &s, int g, int ops) {
  std::string what;
  size_t hl = codec == SV_CODEC_H264 ? 1 : 2;
  for (int q = 0; q < ops; q++) {
    auto pics = pics_of(s, g);
    if (pics.empty()) break;
    int k = pics[c.src.draw(pics.size())];
    int op = (int)c.src.draw(T_DROP);
    Nalu &x = s[k];
    size_t sc = x.sc();
    if (x.d.size() <= sc + hl + 1) continue;
    switch (op) {
      case T_MODIFY:
      case T_HEADER: {
        size_t off = op == T_HEADER ? c.src.draw(hl + 1) : hl + 1 + c.src.draw(x.d.size() - sc - hl - 1);
        x.d[sc + off] ^= (uint8_t)(1 + c.src.draw(255));
        x.tampered = true;
        break;
      }
      case T_TRUNC: {
        size_t cut = 1 + c.src.draw(x.d.size() - sc - hl - 1);
        // Truncation that only removes trailing zero bytes is not a change; the last byte is non-zero.
        x.d.resize(x.d.size() - cut);
        x.tampered = true;
        break;
      }
      case T_APPEND: {
        Bytes e = rnd_bytes(c.src, 1 + c.src.draw(9));
        e.back() |= 1;
        x.d.insert(x.d.end(), e.begin(), e.end());
        x.tampered = true;
        break;
      }
      case T_REPLACE: {
        GenOpts o;
        o.varied_sc = false;
        Nalu y = make_nalu(c.src, codec, x.t, o, 50000 + q);
        if (c.src.coin()) {  // a genuine NALU of the same kind from elsewhere in the stream
          std::vector<int> same;
          for (size_t i = 0; i < orig.size(); i++)
            if (orig[i].t == x.t && orig[i].id != x.id) same.push_back((int)i);
          if (!same.empty()) y = orig[same[c.src.draw(same.size())]];
        }
        y.gop = x.gop;
        y.tampered = true;
        y.id = -2;
        s[k] = y;
        break;
      }
      case T_DUP: {
        Nalu y = x;
        y.tampered = true;
        y.id = -3;
        s.insert(s.begin() + k + 1, y);
        break;
      }
      case T_INSERT: {
        GenOpts o;
        Nalu y = make_nalu(c.src, codec, c.src.chance(1, 4) ? (c.src.coin() ? 'I' : 'i') : 'P', o, 60000 + q);
        if (c.src.chance(1, 3)) {
          std::vector<int> ps;
          for (size_t i = 0; i < orig.size(); i++)
            if (orig[i].pic() && orig[i].gop != g) ps.push_back((int)i);
          if (!ps.empty()) y = orig[ps[c.src.draw(ps.size())]];
        }
        y.gop = g;
        y.tampered = true;
        y.id = -4;
        s.insert(s.begin() + k + 1, y);
        break;
      }
      case T_SWAP: {
        int k2 = pics[c.src.draw(pics.size())];
        if (k2 == k) continue;
        std::swap(s[k], s[k2]);
        s[k].tampered = true;
        if (s[k].d == s[k2].d) continue;
        break;
      }
    }
    what += std::string(what.empty() ? "" : "+") + tamper_names[op];
  }
  return what;
}
