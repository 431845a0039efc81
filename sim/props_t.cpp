// The real threaded signing plugin under the deterministic scheduler.
#include "world.h"
#include <openssl/err.h>
#include "mon.h"
#include "simsched.h"
#include <algorithm>
#include <deque>
extern "C" {
#include "includes/signed_video_openssl.h"
}
// ---- signing hardware: called on the signing thread, outside any lock if the plugin is right ----
struct Hw {
  int mode = 0; uint64_t maxlat = 0; int fail_den = 0;
  std::set<Bytes> failed, seen; uint64_t longest = 0; int in_progress = 0;
};
static Hw hw;
static int hw_sign(const uint8_t *tbs, size_t n) {
  Bytes h(tbs, tbs + n); uint64_t lat = 0;
  switch (hw.mode) {
    case 0: lat = 0; break;
    case 1: lat = hw.maxlat; break;
    case 2: lat = choice((uint32_t)hw.maxlat + 1); break;
    case 3: lat = chance(1, 4) ? hw.maxlat : choice(200); break;
  }
  bool fail = hw.fail_den && chance(1, hw.fail_den);
  if (lat > hw.longest) hw.longest = lat;
  hw.in_progress++; hw.seen.insert(h);
  if (lat) { st_fault(lat > 1000000 ? "hsm_stall" : "hsm_latency"); sim_sleep(lat); } else sim_yield();
  hw.in_progress--;
  if (fail) { st_fault("sign_failed"); hw.failed.insert(h); ev_printf("fault: the hardware fails"); return 1; }
  return 0;
}
static void random_hw(bool failures) {
  hw = Hw(); hw.mode = (int)choice(4);
  static const uint32_t m[] = {50, 1000, 40000, 500000, 3000000, 8000000};
  hw.maxlat = m[choice(6)];
  if (failures && chance(1, 3)) hw.fail_den = 3 + (int)choice(8);
  g_hsm_hook = hw_sign;
}
// ---- clients that use the plugin interface directly ----
struct Opt { bool order, live, central, timed, failures, thread_fail, races, abrupt, leak, alloc; };
struct Shared { Opt o; int key, hash; bool mixed = false, churn = false; int first_size = 0; int outstanding = 0, peak = 0; uint64_t creation_failures = 0; int fault_den = 0, fired = 0; };
static Shared S;
#define OCHECK(...) do { if (S.o.order) CHECK(__VA_ARGS__); } while (0)   // answers are right
#define LCHECK(...) do { if (S.o.live) CHECK(__VA_ARGS__); } while (0)    // answers come
static void timed(const char *what, uint64_t t0, uint64_t bound) {
  if (!S.o.timed || g_sched.slow_threads) return;
  uint64_t d = sim_now() - t0; st_eval();
  CHECK(d <= bound, "too_slow", "%s took %llu us of simulated time, at most %llu", what, (unsigned long long)d, (unsigned long long)bound);
}
static const uint64_t kCall = 20000;        // a call that waits for nothing: only steps of the scheduler
// Some allocation or crypto call from now on fails, in whichever thread makes it.
static void maybe_arm() {
  S.fired += g_arm.alloc_fired + g_arm.crypto_fired; if (g_arm.alloc_fired) st_fault("alloc_failure"); if (g_arm.crypto_fired) st_fault("crypto_failure"); g_arm.alloc_fired = g_arm.crypto_fired = 0;
  if (!S.fault_den || g_arm.alloc_in >= 0 || g_arm.crypto_in >= 0 || !chance(1, S.fault_den)) return;
  if (choice(4)) g_arm.alloc_in = choice(10); else g_arm.crypto_in = choice(6);
}
static int faults_fired() { return S.fired + g_arm.alloc_fired + g_arm.crypto_fired; }
static bool quiet_verify(const Bytes &x, const Bytes &sig) { FaultArm keep = g_arm; faults_disarm(); bool ok = ref_verify(keys()[S.key].pub, x, sig); g_arm = keep; return ok; }
static Bytes unique_hash(int client, int life, int n, int hash) {
  Bytes h(kHashSizes[hash]); uint64_t x = mix64(run_seed() ^ ((uint64_t)client << 40) ^ ((uint64_t)life << 20) ^ (uint64_t)n);
  for (size_t i = 0; i < h.size(); i++) { if (i % 8 == 0) x = mix64(x); h[i] = (uint8_t)(x >> (8 * (i % 8))); }
  return h;
}
static bool api_sign(void *h, const Bytes &x, std::deque<Bytes> &q, int id) {
  S.outstanding++; S.peak = std::max(S.peak, S.outstanding); int before = S.outstanding;
  q.push_back(x);      // the answer may only be asked for after the call
  uint64_t t0 = sim_now(); Bytes copy = x;
  SignedVideoReturnCode r = sv_signing_plugin_sign(h, copy.data(), copy.size());
  timed("sv_signing_plugin_sign", t0, kCall);
  EV("sign", id, r); st_eval();
  std::fill(copy.begin(), copy.end(), 0xee);
  if (r == SV_OK) return true;
  q.pop_back(); S.outstanding--;
  if (S.mixed && r == SV_NOT_SUPPORTED) { st_probe("refused_hash_size"); return false; }   // one signing thread may handle hashes of one size only
  LCHECK(r == SV_NOT_SUPPORTED && std::max(before, S.peak) > 60, "refused", "session %d: signing refused with %d with %d hashes waiting", id, r, before - 1);
  st_probe("refused_full");
  return false;
}
// One look for a signature. Returns true if the oldest hash is answered.
static bool api_get(void *h, std::deque<Bytes> &q, int id) {
  Bytes sig(600, 0x5a); size_t n = 7777; SignedVideoReturnCode e = SV_UNKNOWN_FAILURE;
  uint64_t t0 = sim_now();
  bool got = sv_signing_plugin_get_signature(h, sig.data(), sig.size(), &n, &e);
  timed("sv_signing_plugin_get_signature", t0, kCall);
  EV("get", id, got, e); st_eval();
  if (!got) { LCHECK(e == SV_OK, "get_error", "session %d: get_signature says error %d and no signature", id, e); return false; }
  OCHECK(!q.empty(), "surplus", "session %d gets a signature although all its hashes are answered", id);
  if (q.empty()) return true;
  Bytes x = q.front(); q.pop_front(); S.outstanding--;
  if (e != SV_OK || n == 0) {
    OCHECK(hw.failed.count(x) || faults_fired(), "false_failure", "session %d is told that signing failed (%d) but the hardware did not fail on that hash", id, e);
    return true;
  }
  OCHECK(n <= sig.size(), "size", "session %d: signature of %zu bytes", id, n);
  sig.resize(n);
  if (!S.o.order) return true;
  bool ok = quiet_verify(x, sig);
  if (!ok) {
    bool later = false; for (auto &y : q) if (quiet_verify(y, sig)) later = true;
    sim_fail("wrong_signature", "session %d gets a signature that is not of its oldest hash%s", id, later ? " but of a later one" : "");
  }
  OCHECK(!hw.failed.count(x), "failed_signed", "session %d gets a signature for a hash the hardware failed on", id);
  return true;
}
static void client(int id) {
  int lives = range(1, 3); bool churn = S.churn;
  if (churn) { lives = range(60, 150); st_probe("many_short_sessions"); }
  for (int life = 0; life < lives; life++) {
    uint64_t t0 = sim_now(); const std::string &pk = keys()[S.key].priv; uint64_t cf = S.creation_failures;
    maybe_arm(); void *h = sv_signing_plugin_session_setup(pk.data(), pk.size());
    timed("sv_signing_plugin_session_setup", t0, kCall);
    EV("open", id, life, h != nullptr);
    if (!h) { LCHECK(g_sched.thread_fail_den && !S.o.central, "setup", "session_setup failed without a reason"); (void)cf; st_probe("setup_failed"); continue; }
    std::deque<Bytes> q; int signedn = 0;
    int hash = S.mixed ? (int)choice(3) : S.hash; int style = (int)choice(4); bool longrun = !churn && chance(1, 25); int ops = longrun ? range(60, 140) : churn && life < lives - 1 ? 2 : range(1, 16);
    if (longrun) st_probe("long_session");
    for (int k = 0; k < ops; k++) {
      uint32_t w = choice(8); maybe_arm();
      if (churn && life < lives - 1) { if (!k) w = 0; else { w = choice(10) ? 7 : 5; sim_sleep(1 + choice((uint32_t)std::min<uint64_t>(hw.maxlat, 200000) + 100)); if (w == 7) break; } }
      if (style == 1 || longrun) { if (w >= 4 && w < 7) w = 0; }     // never fetches while it runs
      if (style == 2 && (k / 4) % 2) w = w < 4 ? 4 : w;                // bursts
      if (w < 4) { if (api_sign(h, unique_hash(id, life, signedn, hash), q, id)) signedn++; }
      else if (w < 7) { while (api_get(h, q, id) && coin()) {} }
      else sim_sleep(1 + choice(style == 3 ? 2000000 : 5000));
    }
    bool drain = !(churn ? life < lives - 1 : S.o.abrupt ? coin() : chance(1, 4));
    if (drain) {
      uint64_t start = sim_now(), step = 500 + hw.maxlat / 4; bool strict = !g_sched.slow_threads;
      uint64_t bound = 62 * (hw.maxlat + 2000) + 1000000;
      while (!q.empty()) {
        if (api_get(h, q, id)) continue;
        sim_sleep(step);
        bool full = S.peak >= 60;      // buffers may have filled: others have to fetch or close first
        if (sim_now() - start > ((strict && !full) || faults_fired() ? bound : 2000 * bound)) {
          if (!S.o.live) break;
          sim_fail("unanswered", "session %d: %zu hashes are not answered %llu us after the last one was handed over", id, q.size(), (unsigned long long)(sim_now() - start));
        }
      }
      if (coin()) { sim_sleep(hw.maxlat + 1000); api_get(h, q, id); }
    } else { st_fault("closed_with_work_pending"); }
    int left = (int)q.size(); if (hw.in_progress) st_probe("closed_while_signing");
    t0 = sim_now();
    sv_signing_plugin_session_teardown(h);
    timed("sv_signing_plugin_session_teardown", t0, 2000000 + hw.longest + kCall);
    S.outstanding -= left;
    EV("close", id, life, left);
  }
}
static void begin(const Opt &o) {
  random_sched(o.races); random_hw(o.failures);
  S = Shared(); S.o = o;
  S.hash = chance(1, 3) ? 1 + (int)choice(2) : 0; uint32_t k = choice(62); S.key = k < 60 ? (int)k % 5 : k == 60 ? 5 : 6;
  if (S.key >= 6) S.hash = 0;
  if (o.central && S.key < 6 && chance(1, 8)) S.mixed = true;
  S.churn = chance(1, 60); if (S.churn) S.key %= 5;
  if (o.thread_fail && chance(1, 3)) g_sched.thread_fail_den = 2 + (int)choice(4);
  alloc_mark(); 
  sched_begin();
}
static bool plugin_start() {
  const KeyPair &k = keys()[S.key];
  std::string priv = k.priv; int r; uint64_t t0 = sim_now(); maybe_arm();
  if (coin()) {
    pem_pkey_t p; memset(&p, 0, sizeof p); p.key = (void *)priv.data(); p.key_size = priv.size();
    r = sv_signing_plugin_init_new(&p);
  } else {
    signature_info_t s; memset(&s, 0, sizeof s); s.private_key = (void *)priv.data(); s.private_key_size = priv.size();
    r = sv_signing_plugin_init(&s);
  }
  timed("sv_signing_plugin_init", t0, kCall);
  EV("init", r);
  std::fill(priv.begin(), priv.end(), 'x');
  if (r) LCHECK(g_sched.thread_fail_den, "init", "sv_signing_plugin_init failed without a reason");
  return r == 0;
}
static void plugin_stop() {
  uint64_t t0 = sim_now();
  sv_signing_plugin_exit(nullptr);
  timed("sv_signing_plugin_exit", t0, 2000000 + hw.longest + kCall);
}
static void finish_run() {
  sched_end();
  std::string who; uint64_t n = alloc_live_since_mark(&who); st_eval();
  if (S.o.leak) CHECK(n == 0, "leak", "%llu allocations are not released after everything was closed: %s", (unsigned long long)n, who.c_str());
}
static void direct(Opt o) {
  o.central = chance(2, 3); const uint64_t crypto0 = crypto_live(); begin(o); if (o.alloc) S.fault_den = 2 + (int)choice(30);
  int rounds = chance(1, 5) ? 2 : 1;
  for (int r = 0; r < rounds; r++) {
    bool up = true;
    if (S.o.central) { up = plugin_start(); if (!up) { st_probe("init_failed"); g_sched.thread_fail_den = 0; faults_disarm(); int den = S.fault_den; S.fault_den = 0; up = plugin_start(); if (o.alloc) CHECK(up, "stuck", "the plugin cannot be initialised though no fault is active any more"); S.fault_den = den; LCHECK(up, "init_again", "the plugin cannot be initialised after a failed attempt"); } }
    std::vector<int> t; int n = range(1, 4);
    for (int i = 0; i < n; i++) t.push_back(sim_spawn("session", [i, r] { client(i + 10 * r); }));
    for (int x : t) sim_join(x);
    if (S.o.central) plugin_stop();
  }
  if (o.alloc) maybe_arm(); faults_disarm();
  finish_run();
  if (o.alloc) { ERR_clear_error(); CHECK(crypto_live() == crypto0, "crypto_leak", "crypto objects are left behind: %s", crypto_live_who().c_str()); }
}
SCENARIO(T01) { Opt o{}; o.order = o.live = true; o.failures = true; direct(o); }
SCENARIO(T02) { Opt o{}; o.live = true; o.failures = true; o.timed = true; o.thread_fail = true; o.abrupt = true; direct(o); }
SCENARIO(T03) { Opt o{}; o.failures = true; o.races = true; o.abrupt = true; o.thread_fail = true; direct(o); }
SCENARIO(F01t) { Opt o{}; o.order = true; o.abrupt = true; o.leak = true; o.alloc = true; o.thread_fail = chance(1, 4); direct(o); }
SCENARIO(T04) { Opt o{}; o.failures = true; o.abrupt = true; o.leak = true; o.thread_fail = true; direct(o); }
// ---- whole cameras, each on a thread of its own, with the real signer and the real threaded plugin ----
static void t_settle(Camera &) { for (int i = 0; i < 70; i++) sim_sleep(hw.maxlat + 2000); }
static uint64_t frame_us;
static void t_frame(Camera &) { if (frame_us) sim_sleep(1 + frame_us / 2 + choice((uint32_t)frame_us)); else sim_yield(); }
static void check_seis(const Camera &c, const Stream &out, bool complete) {
  std::vector<std::vector<const Nal *>> g;
  for (auto &p : c.pics) { if ((int)g.size() <= p.gop) g.resize(p.gop + 1); g[p.gop].push_back(&p); }
  std::vector<Bytes> want; for (auto &x : g) want.push_back(ref_gop(x, c.cfg.hash).gop_hash);
  int last = -1; int n = 0;
  for (auto &s : out) if (s.is_sei()) {
    RefSei r = ref_parse(s.b, c.cfg.codec, kHashSizes[c.cfg.hash]); st_eval();
    OCHECK(r.ok && r.has_sig, "format", "camera %d: SEI %d is not readable: %s", c.id, n, r.err.c_str());
    if (!r.ok || !r.has_sig) { n++; continue; }
    Bytes h = ref_hash(c.cfg.hash, s.b.data() + r.hdr_off, r.sig_off - r.hdr_off);
    OCHECK(ref_verify(keys()[c.cfg.key].pub, h, r.sig), "sei_signature", "camera %d: the signature in SEI %d is not that of the SEI", c.id, n);
    if (r.golden) continue;
    int k = last + 1; while (k < (int)want.size() && want[k] != r.gop_hash) k++;
    OCHECK(k < (int)want.size() && (k == last + 1 || !complete), "sei_order", "camera %d: SEI %d signs group %d after group %d", c.id, n, k, last);
    last = k; n++;
  }
  if (complete) LCHECK(n == (c.gop < 0 ? 0 : c.gop + (c.cfg.eos ? 1 : 0)), "sei_count", "camera %d: %d SEIs for %d closed groups", c.id, n, c.gop);
}
struct CamRun { int id; CamCfg cfg; bool finish; Shape sh; };
static void camera_thread(CamRun cr) {
  Camera *c = new Camera(cr.id, cr.cfg);
  bool faulty = hw.fail_den != 0;
  c->strict_pending = !faulty && S.o.order;
  c->start();
  run_shape(*c, cr.sh);
  if (cr.finish) {
    c->finish();
    if (faulty) { c->settle(); c->fetch_ready(c->out); }
    check_seis(*c, c->out, !faulty);
    for (auto r : c->rcs) if (!faulty) LCHECK(r == SV_OK, "rc", "camera %d: a call returned %d although nothing failed", c->id, r);
    c->close();
    if (!faulty && S.o.order) check_untouched(c->cfg, c->out, chance(1, 4));
  } else { st_fault("closed_with_work_pending"); check_seis(*c, c->out, false); }
  delete c;
}
static void cameras(Opt o) {
  o.central = chance(2, 3); begin(o); S.mixed = false;
  if (S.o.thread_fail) g_sched.thread_fail_den = 0;
  g_settle = t_settle; g_frame_time = t_frame; static const uint64_t ft[] = {0, 20, 2000, 40000}; frame_us = ft[choice(4)];
  g_hsm = Hsm();
  if (S.o.central) plugin_start();
  std::vector<int> t; int n = range(1, 3);
  for (int i = 0; i < n; i++) {
    t.push_back(sim_spawn("camera", [i] {
      for (int life = range(1, 2); life > 0; life--) {
        CamRun r; r.id = i; r.cfg = random_cfg(hw.fail_den == 0); if (S.o.central) { r.cfg.key = S.key; r.cfg.hash = S.hash; }
        if (hw.fail_den) r.cfg.feedback = r.cfg.eos = false;
        r.finish = S.o.abrupt ? coin() : chance(7, 8); r.sh.max_gops = 4; r.sh.max_len = 3; r.sh.long_gops = false;
        camera_thread(r);
      }
    }));
  }
  for (int x : t) sim_join(x);
  if (S.o.central) plugin_stop();
  g_settle = nullptr; g_frame_time = nullptr;
  finish_run();
}
SCENARIO(T01c) { Opt o{}; o.order = o.live = true; o.failures = true; cameras(o); }
SCENARIO(T02c) { Opt o{}; o.live = true; o.failures = true; o.timed = true; o.abrupt = true; cameras(o); }
SCENARIO(T03c) { Opt o{}; o.failures = true; o.races = true; o.abrupt = true; cameras(o); }
SCENARIO(T04c) { Opt o{}; o.failures = true; o.abrupt = true; o.leak = true; cameras(o); }
SCENARIO(S03t) { Opt o{}; o.order = o.live = true; cameras(o); }
