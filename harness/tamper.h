#pragma once
#include "media.h"
enum TamperOp { T_MODIFY, T_HEADER, T_TRUNC, T_APPEND, T_REPLACE, T_DUP, T_INSERT, T_SWAP, T_DROP, T_NUM };
extern const char *tamper_names[];
// Indices of picture NALUs of GOP g.
std::vector<int> pics_of(const Stream &s, int gop);
int find_sei(const Stream &s, int gop);
int num_seis(const Stream &s);

// Applies |ops| random manipulations, not removals, to pictures of GOP |g|; returns what was done, "" if nothing.
std::string tamper_gop(Ctx &c, SignedVideoCodec codec, const Stream &orig, Stream &s, int g, int ops);
Bytes picture_bytes(const Bytes &nalu);  // header to the last non-zero byte
