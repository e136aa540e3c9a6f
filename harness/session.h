// Sessions as programs: a history of calls that can be run step by step, alone or together with others, once or again.
#pragma once
#include "hostile.h"

struct Op {
  int k = 0;
  Bytes d;
  std::optional<std::string> str[5];
  int64_t a = 0;
  bool f = false, g = false;
};
struct Program {
  bool signer = false;
  SignedVideoCodec codec = SV_CODEC_H264;
  std::vector<Op> ops;
  uint64_t seed = 0;
  std::string desc;
  bool strange = false;  // something that is not plain use
};
// A call that sets something and does nothing else.
bool is_setter(int op);
struct ProgOpts {
  bool odd = true;       // failing calls, resets and the like
  bool cut = true;       // stop anywhere
  bool attest = true;
  bool vendor = false;   // attestations that validate; the caller holds a VendorRoot
};
Program gen_signer(Ctx &c, const ProgOpts &o);
Program gen_validator(Ctx &c, const ProgOpts &o);
// Runs the steps of a program. What is observed of a step is returned as a string.
struct Session {
  const Program &p;
  uint64_t place;  // where buffers are put
  signed_video_t *sv = nullptr;
  std::vector<signed_video_authenticity_t *> held;
  std::vector<std::string> held_str;
  std::string trouble;  // a modified input and the like
  Session(const Program &prog, uint64_t placement) : p(prog), place(placement) {}
  ~Session() { end(); }
  Session(const Session &) = delete;
  std::string step(size_t i);
  // Frees the session and then the reports still held.
  void end();
};
