#!/usr/bin/env python3
"""Single source of properties.jsonl (run by hand after editing; output is committed)."""
import json
P = []
OV = {"input": "inputs", "history": "histories", "fault_sequence": "fault_sequences", "schedule": "schedules", "crash_point": "crash_points", "configuration": "configurations"}
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = [observe]
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": [OV[o] for o in over if o in OV], "text": text}, "why_tests_cant": why, "anchors": a})

SIGN = "lib/src/signed_video_h26x_sign.c"; AUTH = "lib/src/signed_video_h26x_auth.c"
COMMON = "lib/src/signed_video_h26x_common.c"; LIST = "lib/src/signed_video_h26x_nalu_list.c"
REP = "lib/src/signed_video_authenticity.c"; TLV = "lib/src/signed_video_tlv.c"
OSSL = "lib/src/signed_video_openssl.c"; TP = "lib/plugins/threaded-signing/plugin.c"
UP = "lib/plugins/unthreaded-signing/plugin.c"; AX = "lib/vendors/axis-communications/sv_vendor_axis_communications.c"
LEG = ["lib/src/legacy/legacy_h26x_auth.c", "lib/src/legacy/legacy_h26x_common.c", "lib/src/legacy/legacy_h26x_nalu_list.c", "lib/src/legacy/legacy_tlv.c"]

p("S01", "Altered, inserted, replayed or reordered pictures never pass as authentic",
  "When a signed stream reaches the validator with any picture NAL unit altered, inserted, duplicated, moved to another position or taken from another signed stream, no report that decides it says OK (the first group of a session may be exempt from the order check, since nothing precedes it), and an altered or inserted picture is never marked valid. This holds for every signing configuration and for alterations of the signature-carrying SEIs themselves: an altered SEI is never marked valid.",
  ["input", "history", "fault_sequence"],
  "every stream shape (codec, GOP lengths, slices, part sizes), every signing configuration and every sequence of channel faults",
  "Tests sample a few hand-written streams and one manipulation each; the guarantee is about every combination of stream, configuration and manipulation.",
  [AUTH, COMMON, LIST, OSSL],
  [("GOP hash, linked hash and hash-list comparison", AUTH), ("signature verification over the SEI document hash", OSSL), ("NAL unit hashing with reference", COMMON)],
  observe="the authenticity report returned by signed_video_add_nalu_and_authenticate")

p("S02", "Lost pictures are never hidden",
  "When picture NAL units are lost between camera and validator, every report that decides a group of pictures with a loss says OK-with-missing-info, NOT OK or signature-present, never plain OK; only the first group of a session, which may have been joined midway, can be left unjudged. A group whose signature-carrying SEI never arrives is never reported OK. A report that says OK-with-missing-info shows exactly as many NAL units as missing, and expects that many more than it received, as were lost from the groups it decides.",
  ["input", "history", "fault_sequence"],
  "every loss pattern of picture NAL units and SEIs over every stream shape and signing configuration",
  "The number of loss patterns is exponential; unit tests remove one or two chosen NAL units from short fixed streams.",
  [AUTH, LIST, REP],
  [("missing-item detection from hash list and signed NAL unit count", AUTH), ("lost SEI detection from the GOP counter", AUTH), ("statistics over list items", LIST)],
  observe="authenticity, validation_str, expected and received counts of each report")

p("S03", "An untouched stream always validates as OK, whatever the signing delay",
  "A stream that is signed and delivered unmodified is reported OK for every group of pictures whose SEI has arrived, with every decided NAL unit marked valid, none missing and none left undecided once its SEI and the following NAL unit have arrived. This holds for every signing configuration and no matter how long the signing hardware delays each signature or how threads interleave.",
  ["input", "schedule", "history"],
  "every stream shape, signing configuration, per-signature latency and thread interleaving of the asynchronous signer",
  "Signing latency and thread scheduling decide where each SEI lands in the stream; the unit tests run the synchronous plugin only.",
  [SIGN, AUTH, LIST, COMMON, TP, UP],
  [("queue of SEIs waiting for signatures", SIGN), ("pending-GOP selection", AUTH), ("worker threads", TP)],
  observe="every authenticity report of the session and the final accumulated report")

p("S04", "A change of signing key within a stream is detected",
  "If NAL units signed with another key than the one first seen, or than the one the user registered, are found valid in a session, the accumulated verdict of that session is NOT OK from then on. A report that flags the public key as changed says NOT OK. A stream whose key never changes is never flagged. When video signed with another key (of the same or another type) follows intact after authentic video, the session does not go quiet: its accumulated verdict becomes NOT OK once a few groups of it have arrived.",
  ["input", "history", "fault_sequence"],
  "every splice point, key type combination, and way the public key reaches the validator",
  "Requires joining streams of different signers at arbitrary points, with keys in or out of the SEIs.",
  [AUTH, TLV, REP],
  [("public key decoding and comparison", TLV), ("public_key_has_changed handling", AUTH)],
  observe="public_key_has_changed and authenticity in the latest and accumulated reports")

p("S05", "Video without a valid signature is never reported authentic",
  "A session that has received no genuine signature-carrying SEI never reports OK or OK-with-missing-info and marks no NAL unit valid; video without SEIs is reported as not signed. SEIs of other kinds, or forged SEIs that carry the identifier but no valid signature, do not change that.",
  ["input", "history", "fault_sequence"],
  "every unsigned or forged stream and every mixture of other SEIs, parameter sets and corrupted SEIs",
  "The space of unsigned and forged streams is unbounded.",
  [AUTH, COMMON, LIST],
  [("signing-present detection", COMMON), ("signature verification verdict", AUTH)],
  observe="authenticity of each report")

p("S06", "Validation can start or restart anywhere and gets back in sync",
  "When a session starts at the first picture of any group in a signed stream, or is reset or moved to another such position, untouched NAL units from there on never cause a NOT OK, OK-with-missing-info or changed-key verdict. When the metadata is repeated with every SEI, the session reports OK at the latest with the third group of pictures that arrives complete with its SEI after the start, and a reset leaves nothing of the old history in later reports.",
  ["input", "history", "schedule"],
  "every start, stop, seek and reset position in streams of every configuration and SEI delay",
  "Positions times configurations times histories before the reset cannot be enumerated by unit tests.",
  [AUTH, COMMON, REP],
  [("first-validation special case", AUTH), ("session reset", COMMON)],
  observe="authenticity reports after the start or reset")

p("S07", "Faults do not outlive their cause",
  "After a burst of losses, alterations or duplications ends, the verdicts of later groups of pictures recover: at the latest the fourth intact group after the burst is reported OK again with all NAL units valid. ",
  ["fault_sequence", "history", "liveness"],
  "every finite burst of channel faults followed by intact delivery",
  "It is a bounded-progress guarantee over arbitrary fault histories.",
  [AUTH, LIST],
  [("resynchronisation after lost SEI and lost GOP transition", AUTH), ("clean-up of decided items", LIST)],
  observe="verdicts of groups after the last fault; pending counts")

p("S08", "Reports account for every NAL unit and never improve the verdict",
  "In every report the two per-NAL-unit strings have equal length and describe exactly the most recent NAL units fed; a picture once decided keeps its verdict and leaves the list once; received equals validated plus pending plus the NAL units that left the list before any signature was seen. A report fetched afterwards equals the one handed out with the NAL unit, and the data fed in is left unchanged. The accumulated verdict never becomes better than the worst verdict reported since the session or last reset.",
  ["input", "history", "fault_sequence"],
  "every delivered sequence, intact or faulty",
  "An invariant over all histories; tests compare fixed numbers for fixed streams.",
  [REP, LIST, AUTH],
  [("accumulated validation update", REP), ("list clean-up and string generation", LIST)],
  observe="all fields of every report")

p("S09", "Metadata and timestamps arrive as they were signed",
  "The product information, library version and capture timestamps reported to the validator's user are exactly those the camera provided for the reported stream and group of pictures (also when they are changed while signing), in capture order, with no stale or invented value. A successful validation of video signed by a newer library version than the validator's is reported as a version mismatch instead of OK, and a failed one stays a failure. This holds for every recurrence interval, delay and loss pattern that still yields an OK verdict.",
  ["input", "history", "schedule"],
  "every metadata content within the format limits, every timestamp sequence, recurrence interval and signing delay",
  "Delayed and queued SEIs let metadata of one group be mixed up with another's; tests use one constant timestamp.",
  [TLV, SIGN, REP],
  [("product info, timestamp and arbitrary data encoding", TLV), ("timestamp lifetime in the signer", SIGN), ("report transfer", REP)],
  observe="product_info, version and timestamps in the reports")

p("G01", "Each finished group gets exactly one correct, correctly signed SEI",
  "For every group of pictures the signer closes, exactly one SEI is handed out, in group order with consecutive counters, and an independent reader of the format finds in it the hash of every picture of that group (or their combined hash), their number, the link to the previous group, and a signature that verifies over precisely those bytes. The pictures fed in are left unchanged. This holds for every configuration and latency of the signer, and again after each reset of the signing session.",
  ["input", "schedule", "history"],
  "every stream shape, configuration, polling pattern and signature latency",
  "Tests use the library's own validator on short streams with immediate signatures; a symmetric error or an ordering error under delay is invisible to them.",
  [SIGN, COMMON, TLV, OSSL],
  [("SEI generation and queueing", SIGN), ("hash list, GOP hash and linked hash", COMMON), ("TLV encoding", TLV)],
  observe="bytes of each SEI handed out by signed_video_get_sei and signed_video_get_nalu_to_prepend")

p("G02", "Signing failures, stalls and overload leave at most those groups unsigned",
  "When the signing hardware fails or stalls beyond the buffering capacity, the affected groups may lack a SEI and the caller is told with an error code, but no SEI is ever handed out with a signature that belongs to another group. Once the hardware works again, groups closed later get valid SEIs.",
  ["fault_sequence", "schedule", "liveness"],
  "every sequence of signing failures and stalls, for local and shared signing threads",
  "Needs injected hardware failures and stalls at arbitrary points, which no test has.",
  [SIGN, TP],
  [("pairing of signatures with waiting SEIs", SIGN), ("in and out buffers of bounded length", TP)],
  observe="SEIs handed out and return codes")

p("G03", "Feeding in parts or again after a refusal changes nothing",
  "Handing a NAL unit to the signer in any number of parts gives the same SEIs as handing it over whole. A call refused because finished SEIs wait to be fetched has no effect, so fetching them and repeating the call gives the same stream as if they had been fetched in time.",
  ["input", "history", "schedule"],
  "every split of every NAL unit and every refused call pattern",
  "Tests split at one fixed offset and never repeat a refused call.",
  [SIGN, COMMON, OSSL],
  [("part bookkeeping", SIGN), ("incremental hashing", OSSL)],
  observe="SEIs and verdicts compared with the unsplit run")

p("G04", "SEIs are well-formed and stay within the configured size",
  "Every SEI handed out is a single valid user-data SEI NAL unit of the configured codec that contains no start-code emulation when emulation prevention is enabled, has a correct payload size and payload offset, and respects the configured maximum payload size whenever dropping the hash list can achieve it. With a peeked NAL unit, a SEI is only handed out in front of a primary picture slice.",
  ["input", "history"],
  "every stream content, metadata content, configuration and peeked NAL unit",
  "Byte patterns that need emulation prevention and sizes near the limit occur only for particular hashes, signatures and settings.",
  [SIGN, TLV, COMMON],
  [("emulation prevention writer", TLV), ("size fallback", SIGN), ("peek rule", SIGN)],
  observe="bytes of each SEI, returned sizes and offsets")

p("G05", "Golden-SEI streams validate like ordinary ones",
  "With golden SEIs the stream validates OK in a session that received an intact golden SEI, with the metadata from it; without one, or with an altered one, no group is ever reported OK unless the public key was registered. The golden SEI is recognised as such and no other NAL unit is.",
  ["input", "history", "fault_sequence"],
  "every stream and configuration with golden SEIs and every loss or alteration of the golden SEI",
  "Tests cover two fixed streams.",
  [SIGN, AUTH, COMMON],
  [("golden SEI generation", SIGN), ("golden SEI preparation", AUTH)],
  observe="reports and signed_video_is_golden_sei")

p("T01", "Signing sessions that share the signing thread never mix signatures",
  "With either signing plugin, each signature fetched by a session is the signature of that session's own oldest hash not yet answered, delivered exactly once and in order, whatever other sessions on the same shared thread do, including starting, closing, stalling and being restarted. A session that keeps fetching gets the signature of every hash it handed over, also when other sessions leave theirs unfetched, as long as the buffers (60 entries) do not fill; when they are full, further hashes are refused and none is lost.",
  ["schedule", "history", "fault_sequence"],
  "every interleaving of any number of sessions, the signing thread and session start and stop",
  "The threaded plugin has no test at all, and interleavings are beyond example tests.",
  [TP, "lib/plugins/unthreaded-signing/plugin.c"],
  [("session ids and shared buffers", TP), ("head-of-queue ownership check", TP), ("discarding of closed sessions", TP)],
  state=[("in/out buffers", "hashes waiting and signatures ready, tagged with the session id", TP), ("id list", "active sessions", TP)], observe="sv_signing_plugin_get_signature results")

p("T02", "The signing threads always make progress and close in bounded time",
  "No interleaving of session start, signing, fetching and closing deadlocks: every call returns within a bounded number of steps, every accepted hash is answered once the hardware answers, and closing a session or the plugin returns within two seconds plus the time of the signature in progress.",
  ["schedule", "liveness", "fault_sequence"],
  "every interleaving and hardware latency, including thread creation failure and spurious wake-ups",
  "Lost wake-ups and deadlocks need particular interleavings.",
  [TP],
  [("mutex and condition variable protocol", TP), ("teardown with time-out and join", TP)],
  observe="return of every plugin call in simulated time")

p("T03", "Signing threads never race on shared memory",
  "Any two accesses of different threads to the same memory, at least one of them a write, made while signing sessions run on their own threads, are ordered by the library's own synchronisation.",
  ["schedule"],
  "every interleaving of session threads and signing threads using the API as documented",
  "A race only shows under particular interleavings and usually without a visible failure.",
  [TP, SIGN, OSSL],
  [("fields to be read and written under the mutex", TP)],
  observe="instrumented memory accesses of the library and the plugin")

p("T04", "Closing a session at any moment leaks nothing and touches no freed memory",
  "A signing or validating session can be freed at any point of its life, with signatures pending, SEIs unfetched, a NAL unit half-fed or another thread signing, without any memory error, and when all sessions and the plugin are closed every allocation has been released.",
  ["schedule", "history", "crash_point"],
  "every point in the life of every kind of session and every interleaving with the signing thread",
  "Tests close sessions at a few quiet points only.",
  [TP, UP, SIGN, COMMON, LIST, REP],
  [("session teardown", TP), ("signed_video_free", COMMON), ("list item ownership", LIST)],
  observe="allocation accounting and address checks")

p("T05", "Sessions are independent of each other",
  "The SEIs, return codes and reports of a session depend only on the calls made on that session: interleaving any number of signing and validating sessions, on one thread or several, gives each exactly what it gets alone, apart from how soon a signature is ready.",
  ["schedule", "history"],
  "every interleaving of calls on any number of sessions",
  "Hidden shared state shows only for particular interleavings; tests mostly use one session at a time.",
  [SIGN, AUTH, OSSL, TLV, COMMON],
  [("all state kept in the session object", COMMON)],
  observe="transcripts of each session compared with its solo run")

p("F01", "A failing allocation or crypto call is reported, never fatal",
  "When any memory allocation or crypto-library call inside the library fails, the call returns an error or completes, the process does not crash, nothing leaks once the session is freed, and no NAL unit or stream is reported authentic that would not be without the failure. If no call reported an error the signed stream validates, and once the failures stop a call given again succeeds and later GOPs are signed and validated as usual (except that a signing thread which lacks memory for a signature stops for good, as documented, and later calls on it report an error).",
  ["fault_sequence", "crash_point"],
  "every allocation and crypto call of every API call in signing and validation histories",
  "Failures at each call site must be injected; tests never fail an allocation.",
  [COMMON, AUTH, SIGN, LIST, REP, TLV, OSSL, TP, UP, AX],
  [("error propagation macros", "lib/src/signed_video_defines.h"), ("allocation checks", COMMON)],
  observe="return codes, memory accounting, reports")

p("F02", "Corrupted bytes are handled without memory errors",
  "Whatever bytes arrive as a NAL unit, truncated, bit-flipped, spliced or random, with or without the signed-video identifier, the validator and signer neither read nor write outside the data given, nor crash, hang or leak; the call returns and the session can go on.",
  ["input", "fault_sequence"],
  "every corruption of every NAL unit of every stream, in any position of the history",
  "The space of corrupted inputs is unbounded; tests use a handful of well-formed NAL units.",
  [COMMON, TLV, AUTH, LIST, AX] + LEG,
  [("NAL unit parsing", COMMON), ("TLV decoding", TLV), ("legacy decoding", "lib/src/legacy/legacy_tlv.c")],
  observe="address and undefined-behaviour checks while feeding corrupted NAL units")

p("F03", "A generated key file is complete or the call fails",
  "When the library generates a private key and stores it in a file, success means that the file holds the complete key that was returned and can be read back for signing; any failing, short or lost write is reported as an error and leaves no partial key file behind. Without a fault the call succeeds and the key signs video that validates.",
  ["fault_sequence", "crash_point"],
  "every failing, short or torn file operation during key generation, for both key types",
  "Needs injected disk errors and full disks.",
  [OSSL],
  [("private key file writing", OSSL)],
  observe="return code versus file content")

p("F04", "A refused setting changes nothing",
  "A setting that cannot be applied (an unreadable private or public key, an unknown hash algorithm, a level or recurrence out of range, a second attestation, missing data or session) is refused with an error and leaves the session as it was: an accepted one may follow, an accepted setting given again replaces the earlier one, and what the session then signs carries the key and product information set last and validates as untouched. Nothing leaks, whatever the order and number of calls. Comparing version strings gives a total order.",
  ["input", "history"],
  "every sequence of accepted and refused configuration calls of signer and validator before and between the NAL units of a stream",
  "The effect of a refused call shows only in the stream that is signed or validated later; tests check single return codes.",
  [COMMON, SIGN, AUTH, OSSL, AX],
  [("settings of the signer", SIGN), ("private and public keys, hash algorithm", OSSL), ("attestation", AX)],
  observe="return codes of the calls, SEIs and reports of the stream that follows, memory accounting")

p("L01", "Streams signed by older library versions keep their verdicts",
  "Streams signed in the older format are recognised; when intact every complete group validates OK, also from the middle of a stream (at an I-frame with its SEI) and after a reset, whatever format was validated before it. Under loss, alteration or reordering changed pictures are never marked valid, an OK report contains no invalid or missing NAL unit, and a group that is not complete is reported as not OK or with missing information, at the latest by the next report.",
  ["input", "history", "fault_sequence"],
  "every recorded old-format stream under every sequence of channel faults, resets and start positions",
  "Tests replay the recorded streams with a few manipulations only.",
  LEG + [AUTH],
  [("legacy detection and hand-over", AUTH), ("legacy validation", "lib/src/legacy/legacy_h26x_auth.c")],
  observe="authenticity reports")

p("V01", "A key is vouched for only by a matching hardware attestation",
  "The public key is reported as validated only for streams that name the vendor Axis, and only if the attestation in the stream verifies under a certificate chain that ends in the trusted root, covers the key that verifies the video, and carries the serial number of the product information; once the attestation or its chain failed, later reports of the session never report the key as validated, and without an attestation the validation is reported as not feasible, never as passed. A report that the key is not valid is never forgotten: the accumulated validation of the key says so in every later report, until the session is reset. Conversely, an untouched stream of a camera with a genuine, matching attestation is reported OK with its key validated.",
  ["input", "history", "fault_sequence"],
  "every combination of matching and non-matching key, attestation, chain, serial number and arrival order",
  "No test contains a valid attestation, so the positive and most negative cases are unreachable for them.",
  [AX, AUTH],
  [("certificate chain verification", AX), ("attestation verification", AX), ("report conversion", AUTH)],
  observe="public_key_validation of each report")

with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
