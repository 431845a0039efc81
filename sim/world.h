// The simulated world: cameras (real signer), signing hardware, channel, validators (real validator).
#pragma once
#include "core.h"
#include "seams.h"
extern "C" {
#include "includes/signed_video_common.h"
#include "includes/signed_video_sign.h"
#include "includes/signed_video_auth.h"
#include "includes/signed_video_signing_plugin.h"
}
typedef std::vector<uint8_t> Bytes;

struct Nal {
  Bytes b;            // complete bytes incl. start code
  char kind = 0;      // I i P p v(param set) z(other SEI) a(AUD) S(signed-video SEI) G(golden SEI)
  int cam = -1;       // which camera made it
  int pic = -1;       // running number among the camera's picture NAL units (unique identity of a picture)
  int gop = -1;       // pictures: the GOP they belong to; SEIs: the GOP they sign
  bool altered = false;      // bytes differ from what the camera produced
  bool sig_altered = false;  // SEI altered within its signed content or signature
  int64_t ts = 0; bool has_ts = false;
  int off = -1;              // SEIs: payload offset returned by signed_video_get_sei, -1 if not asked for
  bool is_pic() const { return kind == 'I' || kind == 'i' || kind == 'P' || kind == 'p'; }
  bool is_sei() const { return kind == 'S' || kind == 'G'; }
};
typedef std::vector<Nal> Stream;

struct CamCfg {
  int codec = 0, level = 1, hash = 0, key = 0;
  unsigned recurrence = 1; bool set_recurrence = false;
  bool epb = true, golden = false, pub_in_sei = true;
  size_t max_payload = 0;
  int ts_mode = 1;             // 0 none, 1 steady, 2 irregular, 3 only on some, 4 steady from an unusual start (zero, negative, many zero bytes, huge)
  std::vector<std::string> prod{"hw", "fw1.0", "sn-1", "Sim", "addr"}; bool set_prod = true;
  int poll = 0;                // 0 peek-then-add, 1 add-then-prepend, 2 add-then get_nalu_to_prepend, 3 lazy/random polling with peek
  bool feedback = false;       // SEIs are also handed to the signer
  int parts = 0;               // 0 whole, 1 sometimes split, 2 often split in many
  bool eos = false;            // end of stream is announced
  std::string priv;            // private key to use instead of the fixture's (must belong to |key|)
  Bytes att; std::string chain;   // vendor: key attestation and certificate chain, if any
  int startcode = 0;           // 0: 4 bytes, 1: 3 bytes, 2: none
  std::string str() const;
};
extern const char *kHashNames[];
extern const int kHashSizes[];
CamCfg random_cfg(bool allow_golden = true);

struct Shape { int max_gops = 5, max_len = 5; bool multislice = true, extras = true; bool trailing_zeros = true; int min_gops = 1; bool repeats = false; bool long_gops = true; };

// ---- simulated signing hardware used by the stub plugin ----
struct Hsm {
  int latency_mode = 0;        // 0 immediate, 1 fixed, 2 random, 3 bursts (stall then release)
  int fixed = 0, maxlat = 0;
  uint64_t clock = 0;
  uint64_t stalled_until = 0;
  int fail_den = 0;            // 1/fail_den signatures fail
  int refuse_den = 0;          // 1/refuse_den sign requests refused
  int fail_style = 0;          // how a failure is reported (see plugin contract)
  int capacity = 1000;
  std::map<int, int> outcome;  // per GOP being closed: 0 refused, 1 signed, 2 failed
  int closing = -1;            // the GOP whose SEI is being generated
  bool tick_in_call = false;   // time passes inside a call: a signature may become ready between two looks
};
extern Hsm g_hsm;
void random_hsm();
extern uint64_t g_hsm_failed, g_hsm_refused, g_hsm_signed;

Bytes make_nal(int codec, char kind, int cam, int pic, int startcode, bool trailing, int extra);
bool codec_is_primary(int codec, const Bytes &b);

struct Camera {
  int id; CamCfg cfg; signed_video_t *sv = nullptr;
  Stream out;                  // the stream as delivered (SEIs in place)
  std::vector<Nal> pics;       // all picture NAL units in order
  std::vector<SignedVideoReturnCode> rcs;
  int gop = -1; int64_t ts = 1000000;
  int next_sei_gop = 0;        // the GOP the next SEI handed out belongs to
  int last_err = 0;
  int closed = 0;              // SEIs begun (groups closed, golden, end of stream)
  int fetched = 0;             // SEIs handed out
  bool strict_pending = true;  // the number of pending SEIs is predictable (no signing failures)
  std::vector<int> failed_gops;
  Camera(int id, const CamCfg &c);
  ~Camera();
  void start();
  SignedVideoReturnCode add(const Nal &n);          // one NAL unit, in parts if configured
  int fetch_all(const Nal *peek, Stream &dst);      // get_sei until empty
  void fetch_ready(Stream &dst);
  void feed(Nal n);                                 // add + fetch according to poll style; appends to out
  Nal next_pic(char kind, const Shape &s);
  void settle();                                    // lets the hardware finish
  void finish();                                    // end of stream: let the hardware finish, fetch the rest
  void close();
};
extern void (*g_settle)(Camera &);       // threads: waits until the signing thread is done
extern void (*g_configure)(Camera &, int);   // further settings, before (0) and after (1) those of the configuration
extern void (*g_frame_time)(Camera &);   // threads: time passes between NAL units
// A whole signed stream. Returns the camera's stream.
Stream sign_stream(int id, const CamCfg &cfg, const Shape &shape, Camera **keep = nullptr);
void run_shape(Camera &c, const Shape &shape);

// ---- validators ----
struct Rep {
  int auth, exp, recv, pend, pubval; bool keychg, hts; int64_t ts;
  std::string vs, ns, this_v, sign_v, prod[5]; bool prod_null[5];
  int a_auth, a_pubval; bool a_keychg, a_hts; unsigned a_recv, a_val, a_pend; int64_t a_first, a_last;
  std::vector<int> at;         // fed index of each item, -1 for 'M'
  int after;                   // number of NAL units fed when the report came
};
struct Validator {
  signed_video_t *sv; int codec;
  std::vector<Nal> fed; std::vector<Rep> reps; std::vector<SignedVideoReturnCode> rcs;
  std::vector<char> verdict;   // final verdict per fed NAL unit, 0 while undecided
  std::vector<int> verdict_rep;
  bool map_ok = true;
  int base = 0;                // fed index at last reset
  Validator(int codec, const std::string *pubkey = nullptr);
  ~Validator();
  const Rep *feed(const Nal &n, SignedVideoReturnCode *rc = nullptr);
  void reset();
  Rep final_report();
};
Rep copy_report(const signed_video_authenticity_t *r);
const char *auth_name(int a);

// ---- independent reader of the SEI format ----
struct RefSei {
  bool ok = false; std::string err;
  bool is_sv = false, epb = false, golden = false;
  bool has_pub = false, has_prod = false, has_crypto = false, has_general = false, has_list = false, has_sig = false, has_vendor = false;
  std::string pub, prod[5]; Bytes oid, vendor;
  uint32_t counter = 0; unsigned num = 0; int ver[3] = {0, 0, 0}; bool has_ts = false; int64_t ts = 0;
  Bytes linked, gop_hash, list; int hash_size = 0;
  Bytes sig; unsigned sig_field = 0; size_t payload_size = 0, actual_payload = 0, payload_off = 0, doc_end = 0, sig_off = 0, hdr_off = 0;
  std::vector<int> order;
  bool reserved_gophash = false, reserved_linked = false;
};
RefSei ref_parse(const Bytes &nal, int codec, int hash_size);
Bytes ref_hash(int hash_idx, const uint8_t *p, size_t n);
bool ref_verify(const std::string &pub_pem, const Bytes &hash, const Bytes &sig);
void ref_strip(const Bytes &nal, size_t &off, size_t &len);     // hashable part of a picture
struct RefGop { std::vector<Bytes> hashes; Bytes gop_hash, ihash; };
RefGop ref_gop(const std::vector<const Nal *> &pics, int hash_idx);

// ---- channel helpers ----
void alter_bytes(Nal &n, bool keep_kind);
void mux_epb(Stream &s);      // a multiplexer adds the emulation prevention bytes the camera left out of the SEIs
std::string stream_str(const Stream &s);
