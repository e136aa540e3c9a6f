// Hostile streams: malformed NAL Units, damaged signed streams and forged SEIs, shared by several properties.
#pragma once
#include "auth_util.h"
#include "forge.h"

LegacyCfg gen_legacy_cfg(Src &s);
void gen_attest(Ctx &c, SignCfg &cfg);
// A report and chain that validate, under a root that is in force while a VendorRoot lives.
void gen_genuine_attest(Src &s, SignCfg &cfg);
struct VendorRoot {
  ~VendorRoot();
};
std::string read_file(const std::string &path);
// Damages a signed stream with |ops| manipulations (props_auth3.cpp).
// |forged|, if given, counts the SEIs built by hand.
struct Hostile {
  SignedVideoCodec codec;
  std::string key;   // the key of the attacker
  Stream s;
  int forged = 0, mutated = 0;
  bool legacy = false;
};
Hostile hostile_stream(Ctx &c, int max_ops = 10);
