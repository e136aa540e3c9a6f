// Stream generation and thin wrappers over the public API of the library under test.
#pragma once
#include <stdio.h>
#include <stdlib.h>

#include <functional>
#include <memory>
#include <optional>

#include "core.h"
extern "C" {
#include "signed_video_auth.h"
#include "signed_video_common.h"
#include "signed_video_openssl.h"
#include "signed_video_helpers.h"
#include "signed_video_sign.h"
#include "sv_vendor_axis_communications.h"
}

struct Nalu {
  Bytes d;        // as fed to the API (with or without start code)
  char t = 'P';   // I i P p v _ z o U S(igned SEI) G(olden SEI)
  int gop = -1;   // index of the GOP the picture belongs to / that the SEI signs
  int id = -1;    // index in the stream as produced by the signer
  bool tampered = false;
  bool has_ts = false;
  int64_t ts = 0;
  bool pic() const { return t == 'I' || t == 'i' || t == 'P' || t == 'p'; }
  bool sei() const { return t == 'S' || t == 'G'; }
  size_t sc() const;  // length of start code
};
typedef std::vector<Nalu> Stream;
std::string types(const Stream &s);

struct GenOpts {
  int min_gops = 2, max_gops = 6;
  int max_gop_len = 8;       // frames per GOP
  bool slices = true;        // multi slice frames
  bool extras = true;        // AUD, parameter sets, foreign SEIs, other
  bool unique = true;        // unique content per NALU
  int max_body = 60;
  bool varied_sc = true;     // mixed start codes
  bool big = true;           // sometimes big NALUs
  bool weird_hdr = true;     // all header variants of a class
  bool trailing_zeros = false;
  bool scale = false;        // sometimes one very long GOP, or very many GOPs
};
int startcode_len(const Bytes &d);
Bytes epb_apply(const Bytes &raw);
Bytes epb_remove(const Bytes &raw);
Bytes rnd_bytes(Src &s, size_t n);
Nalu make_nalu(Src &s, SignedVideoCodec codec, char t, const GenOpts &o, int uid);
Nalu plain_nalu(SignedVideoCodec codec, char t, int uid);  // nothing random
Stream gen_stream(Src &s, SignedVideoCodec codec, const GenOpts &o);
Stream stream_from_types(Src &s, SignedVideoCodec codec, const char *t, const GenOpts &o);

// Makes some pictures equal to an earlier one of the same kind.
void dup_nalus(Src &s, Stream &in);

struct Key {
  std::string name, priv, pub;  // PEM
  bool rsa;
};
const Key &key_by_name(const std::string &name);
Key load_key_pem(const std::string &name, const std::string &pem);
const std::vector<std::string> &all_keys();  // usable with default hash

struct SignCfg {
  SignedVideoCodec codec = SV_CODEC_H264;
  SignedVideoAuthenticityLevel level = SV_AUTHENTICITY_LEVEL_FRAME;
  std::string key = "ec256_0";
  std::string hash;  // empty: default
  bool sei_epb = true;
  bool pubkey_in_sei = true;
  bool has_info = false;
  std::optional<std::string> info[5];
  unsigned recurrence = 1;
  bool golden = false;
  size_t max_sei = 0;
  bool attest = false;
  Bytes attestation;
  std::string cert_chain;
  std::string str() const;
};
struct CfgOpts {
  bool any_key = true, any_hash = true, info = true, recurrence = true, epb = true, maxsei = false,
       level = true, golden = false, attest = false;
};
SignCfg gen_cfg(Src &s, const CfgOpts &o = CfgOpts());

// One signing session.
struct Signer {
  signed_video_t *sv = nullptr;
  SignCfg cfg;
  // |between| is called before every setting.
  explicit Signer(const SignCfg &cfg, Ctx *c, const std::function<void(signed_video_t *)> &between = nullptr);
  ~Signer();
  Signer(const Signer &) = delete;
  // Feeds one complete NALU from an exact-size heap copy which is freed afterwards.
  SignedVideoReturnCode add(const Bytes &d, const int64_t *ts);
  SignedVideoReturnCode add_part(const uint8_t *p, size_t n, const int64_t *ts, bool last);
  // Pulls one SEI (empty when none). |peek| may be null.
  SignedVideoReturnCode pull(const Bytes *peek, Bytes *out, int *offset, unsigned *pending);
  SignedVideoReturnCode pull_prepend(Bytes *out);
};

enum PullMode { PULL_PEEK, PULL_BEFORE, PULL_AFTER, PULL_PREPEND_API, PULL_NUM };
// Signs |in|; returns the stream to be transmitted. SEIs are inserted according to |mode|. In all
// modes SEIs end up after the I-frame slice that closed the GOP, before a later primary slice
// (PULL_PEEK) or directly after that slice (others).
Stream sign_stream(Ctx &c, const SignCfg &cfg, const Stream &in, PullMode mode = PULL_PEEK,
    bool feed_sei_back = false);

struct Report {
  int auth, expected, received, pending, pkval;
  bool keychg, has_ts;
  int64_t ts;
  std::string vstr, nstr;
  int acc_auth, acc_pkval;
  bool acc_keychg, acc_has_ts;
  unsigned acc_received, acc_validated, acc_pending;
  int64_t acc_first, acc_last;
  std::string ver_sign, ver_this;
  std::optional<std::string> info[5];
  std::string str() const;
  bool operator==(const Report &o) const;
};
Report copy_report(const signed_video_authenticity_t *a);
const char *auth_name(int a);

struct Validator {
  signed_video_t *sv = nullptr;
  SignedVideoCodec codec;
  Validator(SignedVideoCodec codec, const std::string *pubkey = nullptr);
  ~Validator();
  Validator(const Validator &) = delete;
  SignedVideoReturnCode add(const Bytes &d, std::optional<Report> *rep);
};

struct Step {
  int idx;  // index of the NALU that triggered the report
  Report r;
};
struct Validation {
  std::vector<Step> steps;
  std::vector<int> rc;       // return code per NALU
  std::optional<Report> final;  // from get_authenticity_report after all NALUs
  std::string str() const;
};
// Validates |s| from scratch.
Validation validate(const Stream &s, SignedVideoCodec codec, const std::string *pubkey = nullptr,
    bool want_final = true);

// Maps every character of the validation strings to the NALU of |s| it stands for: per NALU the
// sequence of marks it got in consecutive reports. Missing marks ('M') go to |missing| keyed by the
// step. Returns false when the strings cannot be aligned.
struct Marks {
  std::vector<std::string> per_nalu;      // all marks over time
  std::vector<char> last;                 // last mark, 0 if none
  std::vector<int> missing_per_step;
  std::string err;
};
Marks align_marks(const Stream &s, const Validation &v);
std::string step_summary(const Stream &s, const Validation &v);
