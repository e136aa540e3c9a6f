#!/usr/bin/env python3
"""The properties, and how each is run. `python3 catalog.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os

VERIF = os.path.dirname(os.path.abspath(__file__))

TIERS = {
    "quick": dict(seconds=20, min_factor=1.0),
    "thorough": dict(seconds=240, min_factor=8.0),
}
ASSUMPTIONS = [
    "The library is compiled from /repo/lib by clang with sanitizers; OpenSSL's random source is replaced by a "
    "deterministic one and successful PEM decodings are memoised, so a case is a function of its choices.",
    "Cryptographic hash collisions and signature forgeries do not occur.",
]

AUTH = "lib/src/signed_video_h26x_auth.c"
COMMON = "lib/src/signed_video_h26x_common.c"
SIGN = "lib/src/signed_video_h26x_sign.c"
TLV = "lib/src/signed_video_tlv.c"
LIST = "lib/src/signed_video_h26x_nalu_list.c"
REPORT = "lib/src/signed_video_authenticity.c"
OSSL = "lib/src/signed_video_openssl.c"
UPLUG = "lib/plugins/unthreaded-signing/plugin.c"
TPLUG = "lib/plugins/threaded-signing/plugin.c"
AXIS = "lib/vendors/axis-communications/sv_vendor_axis_communications.c"


def m(name, where):
    return dict(name=name, where=where)


PROPS = [
    dict(id="P01", title="Untouched signed streams validate as authentic",
         statement="A stream signed by the library and delivered unmodified, with every signing SEI placed where the "
         "library handed it out, is reported authentic at every signing SEI, with the true picture counts and no NAL Unit "
         "marked as missing or manipulated. This holds for both codecs, both authenticity levels, every supported key and "
         "hash algorithm, every recurrence interval, payload limit, start code form, slicing and mix of other NAL Units, "
         "and with the public key in the stream or set by the user.",
         quantifier=dict(over=["inputs", "configurations"], text="All streams of at least two GOPs, all supported signing configurations, all ways of pulling SEIs."),
         why="The tests use a few hand-made NAL Units, mostly of fixed size, with two keys and default hashing; combinations of configuration, size and NAL Unit layout are not sampled.",
         files=[SIGN, AUTH, COMMON, TLV, LIST, OSSL],
         mech=[m("generate and complete the SEI at a GOP transition", SIGN), m("validate a pending GOP", AUTH), m("hash a NAL Unit", COMMON)],
         observe=["signed_video_add_nalu_and_authenticate"], min_cases=1200,
         tech="generated streams and configurations, sign-then-validate round trip",
         note="Round trip over generated streams and configurations, up to 75 GOPs and 700-frame GOPs; sampled, not exhaustive."),
    dict(id="P02", title="Manipulated pictures are never accepted as authentic",
         statement="If the picture NAL Units of a signed stream are changed in any way - content or header bits altered, truncated, "
         "extended, replaced, duplicated, inserted, reordered or moved between GOPs - the stream is not accepted as authentic once the signatures covering "
         "the place have been validated. A picture NAL Unit that is not one of the signed ones is never marked as authentic in any report.",
         quantifier=dict(over=["inputs", "configurations"], text="All signed streams, all non-empty sets of manipulations of picture NAL Units that change the sequence of pictures, anywhere before the last validated GOP, also beside signed metadata that is refused with an error."),
         why="The tests modify one NAL Unit at a few fixed positions in fixed streams; they do not vary which byte, which GOP, which level or combinations.",
         files=[AUTH, COMMON, LIST],
         mech=[m("verify hashes with and without hash list", AUTH), m("hash all bytes of the NAL Unit", COMMON)],
         observe=["signed_video_add_nalu_and_authenticate"], min_cases=2500,
         tech="generated streams with generated tampering, content-based oracle",
         note="One to three random manipulations per case against a content-based oracle."),
    dict(id="P03", title="Manipulated signing SEIs are never accepted",
         statement="Any change to the signed part of a signing SEI or to the signature value makes the validation of the GOP it covers fail: the "
         "report at that SEI is never authentic and none of the GOP's pictures is marked authentic by it. Bytes that the signature does not cover cannot turn a manipulated GOP into an authentic one.",
         quantifier=dict(over=["inputs", "configurations"], text="All signed streams, all SEIs after the first validated one, every bit of the SEI between its header and the signature, and every bit of the signature."),
         why="The tests alter a SEI in a couple of fixed places; the position within the SEI is the quantifier.",
         files=[AUTH, TLV, OSSL], mech=[m("verify the document hash", AUTH), m("find the signature tag", TLV), m("verify with the public key", OSSL)],
         observe=["signed_video_add_nalu_and_authenticate"], min_cases=2500,
         tech="generated streams with bit-level SEI tampering",
         note="Every byte position of an SEI is reachable; positions found with an independent SEI parser."),
    dict(id="P04", title="Removed pictures are reported with exact counts",
         statement="When pictures are removed from a GOP of a stream signed on frame level, other than from the first validated GOP, and the rest is intact, that GOP is reported as authentic with missing "
         "information, with the number of expected and received pictures equal to the true numbers and exactly the removed ones shown as missing in place. When the stream is signed on GOP level, the GOP is reported as not authentic. "
         "If other non-leading pictures of that GOP are altered as well, it is not authentic, but the counts are still true and, on frame level, between intact pictures as many are shown as altered and as missing as there are.",
         quantifier=dict(over=["inputs", "fault_sequences"], text="All signed streams, all non-empty sets of non-leading pictures removed from any GOP after the first."),
         why="Tests drop one fixed frame; which and how many frames, slices and levels vary here.",
         files=[AUTH, LIST], mech=[m("compare with the received hash list", AUTH), m("add missing items", LIST)],
         observe=["signed_video_add_nalu_and_authenticate"], min_cases=2500,
         tech="generated loss patterns against an exact reference of expected marks",
         note="Exact expected marks and counts computed from the generated loss pattern."),
    dict(id="P05", title="Frame level pinpoints the manipulated pictures",
         statement="When the content of some non-leading pictures of a GOP signed on frame level is changed, exactly those pictures are marked as not authentic in the report of that GOP and all other pictures of the GOP are marked authentic. "
         "The GOP is then reported as not authentic, and GOPs before and after it are reported as authentic.",
         quantifier=dict(over=["inputs", "fault_sequences"], text="All frame-level streams, all non-empty sets of content changes of non-leading pictures in one or more GOPs."),
         why="Tests modify one picture; sets of pictures, slices and GOPs are the quantifier.",
         files=[AUTH, LIST], mech=[m("verify against the hash list", AUTH)],
         observe=["signed_video_add_nalu_and_authenticate"], min_cases=2500,
         tech="generated tampering against an exact reference of expected marks",
         note="Exact marks computed from the set of altered pictures."),
    dict(id="P06", title="Lost, repeated, reordered or foreign GOPs are detected",
         statement="Removing whole GOPs, repeating or reordering GOPs together with their SEIs, removing a signing SEI, or splicing in GOPs from another stream signed with the same key, never leaves the "
         "stream accepted as authentic: once the signatures after that place have been validated, at least one report and the accumulated result say that it is not fully authentic.",
         quantifier=dict(over=["histories", "fault_sequences"], text="All signed streams, all such edits of whole GOPs or SEIs after the first validated GOP and before the last."),
         why="Tests remove one GOP or SEI at a fixed place; position, number and source are the quantifier.",
         files=[AUTH, COMMON], mech=[m("linked hash comparison", AUTH), m("lost SEI detection", AUTH)],
         observe=["signed_video_add_nalu_and_authenticate"], min_cases=2500,
         tech="generated GOP-level edit scripts", note="Edit scripts over whole GOPs and SEIs; detected within the stream."),
    dict(id="P07", title="Only the right public key gives an authentic stream",
         statement="A GOP is reported authentic only if its signature verifies with the key in use, which is the one the user set, or if none was set the one first received, until another one is received in a signing SEI. An SEI bringing a key that differs from the one in use gives a report "
         "that is not authentic and says that the public key has changed, as does the accumulated report from then on. A GOP signed with another key than the one in use is never authentic, and with no key at all the stream never is.",
         quantifier=dict(over=["configurations", "inputs"], text="All combinations of signing key, key set by the user, key in the SEIs, re-signing by another key and the point of change."),
         why="Tests cover three fixed combinations of keys.",
         files=[AUTH, TLV, OSSL], mech=[m("detect a changed public key", TLV), m("verify with the public key", OSSL)],
         observe=["signed_video_set_public_key", "signed_video_add_nalu_and_authenticate"], min_cases=2000,
         tech="generated key scenarios", note="All key types; change at any GOP; user key right, wrong or absent."),
    dict(id="P08", title="Streams without signatures are never reported as signed",
         statement="For a stream without signing SEIs every report says that it is not signed, all pictures stay pending, and nothing is reported as validated, manipulated or missing, "
         "whatever other NAL Units it holds. Foreign SEIs, including ones with an identifier differing in a single bit from that of the framework, count as ordinary SEIs.",
         quantifier=dict(over=["inputs"], text="All streams without signing SEIs."),
         why="Tests use one short unsigned stream.",
         files=[AUTH, COMMON], mech=[m("identify the SEI by its UUID", COMMON)],
         observe=["signed_video_add_nalu_and_authenticate"], min_cases=2000,
         tech="generated unsigned streams", note="Includes near-miss UUIDs and malformed foreign SEIs."),
    dict(id="P09", title="Exported segments validate on their own",
         statement="A segment cut out of a signed stream at GOP boundaries, starting at any GOP, validates on its own: the first, incomplete, part is at most reported as signed and every following GOP is reported authentic with the true counts. "
         "If the needed recurrent data is absent in the beginning, validation starts when it arrives and everything received since the first GOP start is then validated as authentic.",
         quantifier=dict(over=["inputs", "histories", "configurations"], text="All signed streams, all cut points at GOP starts, all recurrence intervals."),
         why="Tests export at one fixed point.",
         files=[AUTH], mech=[m("ignore the first validation in the middle of a stream", AUTH)],
         observe=["signed_video_add_nalu_and_authenticate"], min_cases=2000,
         tech="generated cut points, metamorphic", note="Every cut point at a GOP start; recurrence intervals 1-12."),
    dict(id="P10", title="Late signing SEIs still give authentic GOPs",
         statement="If signing SEIs arrive late - later in the same or in a later GOP, several at a time, but in order and none lost - every GOP is still reported authentic with the true counts when its SEI arrives and no picture is marked otherwise. "
         "The delays do not change what is finally reported for the stream.",
         quantifier=dict(over=["schedules", "histories"], text="All signed streams, all order-preserving delays of SEIs."),
         why="Tests delay by one or two fixed positions.",
         files=[AUTH, LIST], mech=[m("pair pending SEIs with pending GOPs", AUTH)],
         observe=["signed_video_add_nalu_and_authenticate"], min_cases=2000,
         tech="generated delay schedules", note="Random monotone delay schedules up to several GOPs."),
    dict(id="P11", title="Reports are internally consistent",
         statement="In every report, for any stream however damaged, the counts, marks and overall results agree: a fully authentic result adds no manipulated or missing mark and as many authentic pictures as received and expected; pending marks equal the pending count; the accumulated number of NAL Units received equals those added, "
         "that of validated ones never decreases, and, as long as no NAL Unit was refused with an error, validated plus pending never exceeds it. The accumulated result is the worst result given, or found in a call that ended in an error, since the first validation. The type string and the validation string have one character each per NAL Unit, ending with the latest, and the mark of a picture, other than pending, never changes once given, and reports not asked for do not change those that are.",
         quantifier=dict(over=["inputs", "histories"], text="All sequences of NAL Units, genuine, manipulated and arbitrary."),
         why="Tests compare a few reports with constants; no test relates the fields over arbitrary damage.",
         files=[REPORT, LIST, AUTH], mech=[m("update the accumulated validation", REPORT), m("build the validation strings", LIST)],
         observe=["signed_video_authenticity_t"], min_cases=2500,
         tech="stateful generation with invariants over every report", note="Invariants checked at every report over damaged and arbitrary streams."),
    dict(id="P13", title="Every SEI is a well-formed NAL Unit with a correct payload offset",
         statement="Every SEI handed out is a syntactically valid user-data-unregistered SEI of the codec: start code, header, payload type, payload size that covers exactly the payload, the framework identifier, and a stop bit; with emulation prevention on, no "
         "start code or forbidden three-byte pattern occurs inside it. The announced size equals the delivered size, the payload offset points at the first byte after the payload size, and removing emulation prevention gives the same bytes as when it is off, signature aside.",
         quantifier=dict(over=["inputs", "configurations"], text="All streams and configurations, including payloads near multiples of 255 bytes and data full of zeros."),
         why="Tests check the offset for one SEI; payload sizes and byte patterns are the quantifier.",
         files=[SIGN, TLV], mech=[m("write the SEI with emulation prevention", SIGN), m("write_byte", TLV)],
         observe=["signed_video_get_sei", "signed_video_get_nalu_to_prepend"], min_cases=2000,
         tech="independent SEI parser over generated configurations", note="Parser written from the H.264/H.265 specifications and the documented payload layout."),
    dict(id="P14", title="SEIs carry the right hashes, counters and a valid signature",
         statement="The content of every SEI equals an independent reference computed from the stream alone: hashes of exactly the pictures of the GOP in order, the GOP hash, the link to the previous GOP, the GOP counter, number of pictures, timestamp, versions and product information. "
         "The signature verifies with the signing key over exactly the bytes before it.",
         quantifier=dict(over=["inputs", "configurations"], text="All streams and configurations."),
         why="Tests validate with the library itself, so a mistake made on both sides goes unnoticed, as would a change that breaks compatibility with deployed validators.",
         files=[SIGN, COMMON, TLV, OSSL], mech=[m("hash list and GOP hash", COMMON), m("TLV encoders", TLV)],
         observe=["signed_video_get_sei"], min_cases=2000,
         tech="reference model of the wire format", note="Independent model using OpenSSL digests and signature verification directly."),
    dict(id="P15", title="Adding a NAL Unit in parts is the same as adding it whole",
         statement="Splitting NAL Units into any number of consecutive parts when signing gives exactly the same SEIs at the same points as adding them whole, signature randomness aside. The resulting stream validates as authentic.",
         quantifier=dict(over=["schedules", "inputs"], text="All streams and all ways to split NAL Units into parts with the header in the first part."),
         why="Tests split at one or two positions.",
         files=[SIGN, COMMON], mech=[m("hash NAL Unit parts", COMMON)],
         observe=["signed_video_add_nalu_part_for_signing_with_timestamp"], min_cases=1500,
         tech="differential: split vs whole", note="Deterministic randomness makes whole SEIs comparable byte by byte."),
    dict(id="P16", title="Transport details do not influence the result",
         statement="Start codes of three or four bytes or none, trailing zero bytes, emulation prevention bytes added to SEIs written without them, and the insertion or removal of NAL Units that are not pictures or signing SEIs - parameter sets, delimiters, foreign SEIs - on the way from signer to validator "
         "do not change when a report is given, its authenticity result, its expected, received and pending picture counts, or the mark of any picture or SEI, neither for an intact stream nor for a manipulated one.",
         quantifier=dict(over=["inputs"], text="All signed streams, intact or damaged, and all such transport changes."),
         why="Tests have fixed start codes and few other NAL Units.",
         files=[COMMON, AUTH], mech=[m("parse the NAL Unit", COMMON)],
         observe=["signed_video_add_nalu_and_authenticate"], min_cases=2000,
         tech="metamorphic transport changes", note="Relates the reports of two validations of the same signed pictures."),
    dict(id="P17", title="Metadata survives from signer to validator",
         statement="Product information and timestamps given to the signer are reported unchanged by the validator: strings up to 254 characters with longer ones cut there, each report with the 64-bit timestamp of the I-frame ending its GOP exactly, accumulated first and last timestamp of the session, and absent values as absent or empty. "
         "The reported signer and validator versions are those of the library. No product information, whatever it says, makes an authentic stream fail.",
         quantifier=dict(over=["inputs", "configurations"], text="All strings and timestamps, all GOP structures."),
         why="Tests use one fixed set of strings and small timestamps.",
         files=[TLV, REPORT, SIGN], mech=[m("encode and decode product info and general TLVs", TLV)],
         observe=["signed_video_authenticity_t"], min_cases=2000,
         tech="round trip of generated metadata", note="Strings of 0-400 bytes of any non-zero byte, extreme timestamps."),
    dict(id="P18", title="SEIs are delivered exactly once, in order",
         statement="Whatever the order of adding NAL Units and asking for SEIs, each generated SEI is delivered exactly once, oldest first, only before a primary picture slice when the next NAL Unit is shown, and the reported number of pending SEIs is the number still to be delivered. "
         "Asking for the size does not consume an SEI, and while completed SEIs wait to be fetched adding pictures is refused rather than losing an SEI, unless the next NAL Unit was shown and no SEI may precede it. The deprecated way to get NAL Units to prepend delivers the same SEIs, the latest first.",
         quantifier=dict(over=["histories"], text="All interleavings of adding NAL Units, asking for sizes and fetching SEIs with and without showing the next NAL Unit."),
         why="Tests follow one calling pattern.",
         files=[SIGN, UPLUG], mech=[m("SEI buffer", SIGN)],
         observe=["signed_video_get_sei", "signed_video_get_nalu_to_prepend"], min_cases=2000,
         tech="stateful model-based testing of the SEI queue", note="Model queue compared after every call."),
    dict(id="P19", title="A reset gives a fresh session",
         statement="After a reset at any point, also in the middle of a GOP or a NAL Unit or with SEIs pending, and whatever came before, a validator reports on a following stream signed with the same key - authenticity, counts, marks, timestamps, key status - exactly what a new validator would. "
         "The report right after the reset is that of a session without input. A reset signer first delivers the SEIs pending from before, then a new stream that validates as authentic from its start with as many SEIs as a new signer would give.",
         quantifier=dict(over=["histories", "crash_points"], text="All histories before the reset and all streams after it."),
         why="Tests reset at two fixed points with the same stream settings.",
         files=[COMMON, AUTH, REPORT], mech=[m("signed_video_reset", COMMON)],
         observe=["signed_video_reset"], min_cases=1500,
         tech="differential: reset session vs new session", note="Reports compared field by field with those of a fresh session."),
    dict(id="P20", title="Invalid use is refused and harmless",
         statement="Calls with missing or out-of-range arguments (NULL, size zero, bad enumeration values, a recurrence of 0), with keys or hash algorithm names that cannot be used, or at a time when they are not allowed - setting the hash algorithm, the use of golden SEIs or the public key after the start, adding NAL Units, generating a golden SEI or ending the stream without a private key or while completed SEIs wait to be fetched - return the documented error "
         "and leave the session as if the call had not been made: the SEIs of the signer are byte by byte, and the return codes and reports of the validator field by field, those of a run without these calls.",
         quantifier=dict(over=["histories", "inputs"], text="All sequences mixing valid use with invalid calls of every public function."),
         why="Tests check return codes once per function on a fresh session; they do not show that the session is undisturbed afterwards.",
         files=[SIGN, AUTH, COMMON], mech=[m("argument checks of the public functions", SIGN)],
         observe=["all public functions"], min_cases=1500,
         tech="stateful generation with injected invalid calls, differential", note="Return codes against the documentation; results against the undisturbed run."),
    dict(id="P21", title="Hostile input never breaks the validator",
         statement="Validation of any sequence of NAL Units, however malformed - truncated, with forged SEI payloads, sizes and tags, signed or not - never reads or writes outside the data, never crashes, never takes unreasonably long, and never modifies the data. "
         "If the user has set a public key whose private key signed nothing in the stream, the accumulated result is never authentic, whatever keys and SEIs the stream brings. The same holds for the memory safety of the signer fed with such NAL Units and of the SEI printer.",
         quantifier=dict(over=["inputs"], text="All byte strings as NAL Units, in any sequence, for both codecs."),
         why="Tests only use well-formed NAL Units; hostile input is unbounded.",
         files=[COMMON, AUTH, TLV, OSSL, AXIS, "lib/src/legacy/legacy_tlv.c", "lib/src/legacy/legacy_h26x_auth.c", "lib/src/legacy/legacy_h26x_common.c"],
         mech=[m("parse the NAL Unit", COMMON), m("TLV decoders", TLV), m("legacy TLV decoders", "lib/src/legacy/legacy_tlv.c")],
         observe=["signed_video_add_nalu_and_authenticate", "signed_video_parse_sei"], variants=["asan", "psei"], min_cases=4000, cpu=20,
         tech="structure-aware fuzzing under address and undefined-behaviour sanitizers", note="Grammar-based and mutational generation; sanitizers observe every access."),
    dict(id="P22", title="Golden SEIs start a signed stream",
         statement="When the signer generates one golden SEI up front, or takes one from an earlier session with the same settings, it holds public key, product information and hash algorithm and the following SEIs do not repeat them. A validator that is given the golden SEI first, followed by the whole stream or a segment of it from any GOP on, reports every complete GOP as authentic with the true counts and the product information of the golden SEI; the level chosen by the user stays in force, and golden SEIs, and only those, are recognised as such. If the golden SEI was altered, other than by removing its mark as golden, is lost or is that of another key, and the user has not set a key, no report is authentic.",
         quantifier=dict(over=["inputs", "configurations"], text="All streams and configurations using a golden SEI, all alterations of its signed bytes."),
         why="Tests use one golden SEI with default settings.",
         files=[SIGN, AUTH, TLV], mech=[m("generate the golden SEI", SIGN), m("prepare the golden SEI", AUTH)],
         observe=["signed_video_generate_golden_sei"], min_cases=1500,
         tech="generated golden-SEI scenarios", note="Round trip plus bit-level tampering of the golden SEI."),
    dict(id="P23", title="Version comparison is a total order on valid versions",
         statement="Comparing two version strings - 'v', then major, minor and patch numbers separated by dots, whatever follows ignored - agrees with comparing the three numbers in that order of weight, for all numbers from 0 to 2147483647: 0 if equal, 1 if the first is newer, 2 if it is older. Strings without the leading 'v' or one of the numbers, and NULL, give -1. Swapping the arguments swaps the outcome.",
         quantifier=dict(over=["inputs"], text="All pairs of strings."),
         why="Tests compare a dozen pairs.",
         files=[COMMON], mech=[m("signed_video_compare_versions", COMMON)],
         observe=["signed_video_compare_versions"], min_cases=20000, time_factor=0.75,
         tech="generated version strings against a reference comparison", note="Reference comparison on integers."),
    dict(id="P24", title="Threaded signing gives each session its own SEIs under any schedule",
         statement="With the threaded signing plugin - a thread per session or one central thread - and any number of concurrent sessions, created, used and freed in any order by any threads, every session gets exactly the SEIs of its own GOPs, once each, in order and correctly signed, however late or irregularly they are fetched, as long as no more than 60 hashes wait to be signed and the session leaves no more than 60 SEIs waiting. "
         "A signing operation that fails costs only its own SEI and is reported to the session that asked. "
         "A session can be freed at any point, also with requests pending, without affecting others, and there is no data race, deadlock, crash or leak, also if a thread cannot be started or the plugin is closed first.",
         quantifier=dict(over=["schedules", "histories", "crash_points"], text="All interleavings of user threads and signing threads, all teardown points, all positions of failing signing operations."),
         why="Tests use one session at a time and mostly wait for the thread.",
         files=[TPLUG, SIGN], mech=[m("work and output queues under a mutex", TPLUG), m("SEIs completed when their signature arrives", SIGN)],
         observe=["signed_video_get_sei", "signed_video_get_nalu_to_prepend", "signed_video_free"], variants=["athr", "tsan"], min_cases=1200, racy=True, cpu=60, time_factor=1.6,
         assumptions=["Threads are switched at operations on mutexes and conditions, at thread creation and around the signing operation; data races between these points are found by the thread sanitizer's happens-before analysis."],
         tech="model-based histories of sessions under generated schedules (deterministic scheduler), with failing signing and thread creation, under address and thread sanitizers", note="Schedules are chosen and replayed by the harness; random search over them, not exhaustive."),
    dict(id="P26", title="Vendor attestation is judged correctly",
         statement="The public key of a stream with vendor attestation is reported as valid exactly when the attestation is correctly signed, by the device certificate, for exactly that key, which has to be on the curve P-256, the chip in the certificate is the one attested and the certificate chain ends in the vendor's root; otherwise it is reported as not valid, or not feasible where no attestation or chain reached the validator. "
         "This holds for legacy streams and golden SEIs too, and the chip's serial number is then reported as attested. The authenticity of the video itself does not depend on it, and malformed attestations and chains never stop the validation or make it misbehave.",
         quantifier=dict(over=["inputs", "configurations"], text="All attestation byte strings and certificate chains, genuine-looking or malformed."),
         why="Tests use one fixed attestation.",
         files=[AXIS, TLV], mech=[m("decode and verify the attestation", AXIS)],
         observe=["signed_video_authenticity_t.latest_validation.public_key_validation"], min_cases=1200,
         tech="generated attestations and chains, genuine and deviating in one respect, against the expected verdict", note="The vendor's root key is not available: the compiled-in root is replaced, when it is parsed, by one of the harness, so that the valid outcome is reached too. Serial numbers longer than the documented size and chains above 64 kB are not claimed."),
    dict(id="P27", title="Streams in the legacy format are still judged correctly",
         statement="A stream signed in the older format - SEI right before the I-frame ending the GOP, recursive GOP hash - is validated as that format demands: an untouched stream, whole or from an SEI in front of an I-frame on, is reported authentic at the I-frame after every SEI, with the timestamps and product information signed and, on frame level, the true picture counts, whatever supported key and hash. "
         "If pictures, SEIs or signatures after the first GOP are changed, or the rest of the stream is signed with another key, the accumulated result is not authentic or the NAL Unit is refused with an error. On frame level changed pictures other than the I-frame are pinpointed exactly and lost ones counted; on GOP level loss or change of pictures makes the GOP not authentic; and when pictures or an SEI are lost, or a signature is invalid, only that GOP and its neighbours suffer.",
         quantifier=dict(over=["inputs", "configurations"], text="All legacy streams, both codecs, both levels, all manipulations of pictures and SEIs."),
         why="Tests hold one recorded legacy stream per case.",
         files=["lib/src/legacy/legacy_h26x_auth.c", "lib/src/legacy/legacy_h26x_common.c", "lib/src/legacy/legacy_tlv.c", "lib/src/legacy/legacy_validation.c", "lib/src/legacy/legacy_openssl.c"],
         mech=[m("legacy validation", "lib/src/legacy/legacy_h26x_auth.c")],
         observe=["signed_video_add_nalu_and_authenticate"], min_cases=1500,
         tech="independent legacy signer, generated streams and tampering", note="The legacy signer is written for the harness and anchored to the recorded legacy streams' format."),
    dict(id="P28", title="Sessions are independent and deterministic",
         statement="The result of a session depends only on its own inputs: interleaving any number of signing and validating sessions in one process, repeating the run, or placing the data elsewhere in memory gives the same SEIs and reports as running each alone. Input buffers are never modified.",
         quantifier=dict(over=["schedules", "histories"], text="All interleavings of sessions and repetitions."),
         why="Tests run one session at a time.",
         files=[AUTH, SIGN, COMMON, OSSL], mech=[m("per-session state", COMMON)],
         observe=["all public functions"], min_cases=1000,
         tech="differential: interleaved vs alone", note="Single-threaded interleaving; threads are covered by P24."),
    dict(id="P29", title="Generated keys are usable and stored where asked",
         statement="Each key helper creates a fresh private key of the requested kind, writes it only to the requested place, returns in memory the same key as on disk, and the key signs streams that validate as authentic. A destination that cannot be written gives an error, no key in memory and no incomplete file; no other file is touched.",
         quantifier=dict(over=["inputs", "fault_sequences"], text="All destinations, with and without trailing separator, existing, missing or unwritable, also when memory runs out."),
         why="Tests generate into one directory.",
         files=[OSSL], mech=[m("create and write private keys", OSSL)],
         observe=["signed_video_generate_ecdsa_private_key", "signed_video_generate_rsa_private_key"], min_cases=150,
         tech="generated destinations in a scratch directory", note="Only inside a scratch directory; EC mostly, RSA sampled because it is slow."),
    dict(id="P30", title="Nothing leaks over the life of a session",
         statement="After a session is freed, at any point of its life and after any inputs or failed calls, all memory it allocated has been released. Reports stay valid after the session is freed and free completely.",
         quantifier=dict(over=["histories", "crash_points"], text="All histories of signing and validating sessions ended at any point, including hostile streams."),
         why="Tests run under valgrind only for their fixed sequences.",
         files=[COMMON, AUTH, SIGN, TLV, REPORT, AXIS, OSSL, UPLUG], mech=[m("signed_video_free", COMMON)],
         observe=["allocator statistics"], min_cases=1000,
         tech="generated lifecycles with allocation accounting", note="Compares live heap bytes before and after; OpenSSL's internal caches are warmed first."),
    dict(id="P31", title="The SEI payload limit is respected where possible",
         statement="With a maximum SEI payload size, an SEI whose payload would exceed it drops the list of picture hashes for that GOP, and only then, so that its payload is within the limit if that suffices; such a GOP still validates as authentic. Other GOPs keep frame-level detail.",
         quantifier=dict(over=["configurations", "inputs"], text="All limits around the actual payload sizes, all GOP lengths."),
         why="Tests use one limit.",
         files=[SIGN, TLV], mech=[m("fall back to GOP level", SIGN)],
         observe=["signed_video_set_max_sei_payload_size", "signed_video_get_sei"], min_cases=1500,
         tech="differential: limited vs unlimited signing", note="Limits are drawn around the payload sizes of the unlimited run."),
    dict(id="P32", title="Recurrent data is present as often as asked",
         statement="Public key, product information and hash algorithm are present in an SEI exactly when, since the previous SEI, a frame was added whose number, counted from zero over all I- and P-frames of the session, is a multiple of the recurrence interval - the frame ending the GOP included - and hence always in the first SEI. Other NAL Units do not count; the hash algorithm chosen is the one used and announced. Mandatory data is present in every SEI.",
         quantifier=dict(over=["configurations", "inputs"], text="All recurrence intervals, GOP structures, hash algorithms."),
         why="Tests use two intervals.",
         files=[SIGN, COMMON, TLV], mech=[m("recurrence counter", SIGN)],
         observe=["signed_video_set_recurrence_interval_frames", "signed_video_get_sei"], min_cases=1500,
         tech="reference model of recurrence over generated streams", note="Model counts primary slices."),
    dict(id="P33", title="A failed signing operation costs only the GOP it was for",
         statement="When the signing operation for a GOP fails, adding the I-frame that ends the GOP returns SV_EXTERNAL_ERROR, the I-frame still counts as added, no SEI comes for that GOP and recurrent data it should have carried comes in the next one; every other SEI is complete, belongs to its own GOP and is what it would otherwise have been. When 60 SEIs wait to be fetched, the I-frame that ends another GOP is refused with SV_NOT_SUPPORTED and changes nothing, so it can be added again after the SEIs have been fetched.",
         quantifier=dict(over=["faults", "histories"], text="All patterns of failing signing operations, all ways and times to fetch SEIs, NAL Units whole or in parts."),
         why="No test makes signing fail.",
         files=[SIGN, UPLUG], mech=[m("add_nalu / generate_sei_nalu", SIGN), m("SEI buffer", SIGN)],
         observe=["signed_video_add_nalu_for_signing", "signed_video_get_sei"], min_cases=1000,
         tech="fault injection into signing operations, reference signer as oracle", note="Unthreaded signing; failures of EVP_PKEY_sign are injected."),
    dict(id="P34", title="Running out of memory neither crashes, corrupts nor leaks",
         statement="When any memory allocation of the library fails, in any call of a signing or validating session, nothing crashes, no memory is accessed out of bounds or after being freed, and nothing is leaked once the session and its reports are freed. Calls made before are not affected, nor are later sessions. A private key, hash algorithm or attestation that could not be set for that reason leaves the session as if it had not been given.",
         quantifier=dict(over=["faults", "histories"], text="All sessions of P28, all allocations, one to four failing in a row."),
         why="No test makes an allocation fail.",
         files=[SIGN, AUTH, COMMON, TLV, LIST, REPORT, UPLUG, AXIS, "lib/src/legacy/legacy_tlv.c", "lib/src/legacy/legacy_h26x_auth.c"], mech=[m("every malloc, calloc and realloc", "lib/src")],
         observe=["signed_video_create", "signed_video_add_nalu_and_authenticate", "signed_video_add_nalu_for_signing", "signed_video_free"], min_cases=1000,
         tech="allocation-fault injection over generated sessions, sanitizers, block accounting and the fault-free run as oracle", note="Allocations inside OpenSSL do not fail. What a session reports after a failed allocation is not judged."),
    dict(id="P35", title="Pictures before the first I-frame and at the end of the stream are signed too",
         statement="Pictures that come before the first I-frame of a session, or before the first one after the end of the stream was told, are covered by an SEI of their own, handed out at that I-frame; when the end of the stream is told, a final SEI covers the pictures since the latest I-frame, and there is none if nothing was added. Such a stream, untouched and whether or not it goes on after that, is reported as authentic at every SEI with the true number of pictures, and no signed picture is left pending after the final SEI. An altered picture in such a part makes that part not authentic, and so does a lost one on GOP level, while on frame level a lost one is reported as missing.",
         quantifier=dict(over=["histories", "inputs"], text="All configurations, streams that start inside a GOP or at an I-frame, the end told at any picture any number of times, followed by more pictures or not, in new and in reset sessions."),
         why="The tests end a stream in a few fixed places and never start one inside a GOP.",
         files=[SIGN, COMMON, AUTH], mech=[m("signed_video_add_nalu_for_signing_with_timestamp, signed_video_set_end_of_stream, gop_info_reset", SIGN)],
         observe=["signed_video_set_end_of_stream", "signed_video_get_sei", "signed_video_add_nalu_and_authenticate"], min_cases=500,
         tech="generated signing histories and damage, a count of the pictures added as reference model", note="Unthreaded signing; lost or altered first pictures of such a part are left to P02 to P04."),
]
READY = ["P%02d" % i for i in list(range(1, 12)) + [13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35]]
BY_ID = {p["id"]: p for p in PROPS}
NOT_APPLICABLE = []


def write():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"],
                                    why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))) + "\n")
    man = dict(version=1, setup_cmd="python3 build.py " + " ".join(sorted({v for p in PROPS if p["id"] in READY for v in p.get("variants", ["asan"])})),
               checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                            thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                            evidence_file="evidence/%s.json" % p["id"], technique="property-based testing: " + p["tech"], level="exploration",
                            level_note=p["note"]) for p in PROPS if p["id"] in READY],
               not_applicable=[dict(property=p["id"], reason="check not built yet") for p in PROPS if p["id"] not in READY],
               notes="See DESIGN.md. All checks build the library from /repo's working tree with sanitizers; no hooks in /repo are needed.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
