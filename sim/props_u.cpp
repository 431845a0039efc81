// Failing allocations and crypto calls, with the library's own (unthreaded) signing plugin.
#include "world.h"
#include "vendor.h"
#include "legacy.h"
#include "gview.h"
#include <openssl/err.h>
#include <functional>
namespace {
int g_den = 1;               // one call in |g_den| meets a fault
bool g_reported = false;     // a call returned an error
std::string g_first;
// Arms a fault for one call: the n-th allocation or crypto call within it fails (or that one and all later ones).
bool armed(const std::function<void()> &call) {
  faults_disarm(); bool on = g_den && chance(1, g_den);
  if (on) { uint32_t deep = choice(3) == 0 ? 60 : 12; if (choice(3)) g_arm.alloc_in = choice(deep); else g_arm.crypto_in = choice(deep); g_arm.sticky = chance(1, 5); }
  call();
  bool fired = g_arm.alloc_fired || g_arm.crypto_fired;
  if (g_arm.alloc_fired) st_fault(g_arm.sticky ? "alloc_failure_lasting" : "alloc_failure"); if (g_arm.crypto_fired) st_fault(g_arm.sticky ? "crypto_failure_lasting" : "crypto_failure");
  if (fired) { char t[120]; snprintf(t, sizeof t, "%d,%d,%s", g_arm.alloc_fired, g_arm.crypto_fired, g_arm.what.c_str()); note_state(mix64(std::hash<std::string>()(t))); }
  faults_disarm(); ERR_clear_error(); st_step(); st_eval(); return fired;
}
SignedVideoReturnCode call(const char *what, const std::function<SignedVideoReturnCode()> &f) {
  SignedVideoReturnCode r = SV_OK; bool fired = armed([&] { r = f(); }); EV(what, r, fired);
  if (r != SV_OK) { ev_printf("  %s -> rc=%d%s", what, r, fired ? " (fault)" : ""); if (!g_reported) g_first = what; g_reported = true; }
  return r;
}
// A plain stream signed by a session that meets faults. Groups have an even number of pictures, all of them primary slices.
struct FaultyCam {
  CamCfg cfg; signed_video_t *sv = nullptr; Stream out; int pic = 0, gop = -1, last_error_gop = -2; bool again = false; int seis = 0;   // again: an I-frame was added twice, so that a group of its own may be signed
  void apply(int what) {   // settings are repeated until they succeed
    for (int k = 0; k < 8; k++) {
      int den = g_den; if (k == 7) g_den = 0; SignedVideoReturnCode r = SV_OK;
      switch (what) {
        case 0: r = call("key", [&] { return signed_video_set_private_key_new(sv, keys()[cfg.key].priv.c_str(), keys()[cfg.key].priv.size()); }); break;
        case 1: r = call("hash", [&] { return signed_video_set_hash_algo(sv, kHashNames[cfg.hash]); }); break;
        case 2: r = call("prod", [&] { return signed_video_set_product_info(sv, cfg.prod[0].c_str(), cfg.prod[1].c_str(), cfg.prod[2].c_str(), cfg.prod[3].c_str(), cfg.prod[4].c_str()); }); break;
        case 3: r = call("vendor", [&] { return sv_vendor_axis_communications_set_attestation_report(sv, cfg.att.data(), (uint8_t)cfg.att.size(), cfg.chain.c_str()); }); break;
        case 4: r = call("golden", [&] { return signed_video_generate_golden_sei(sv); }); break;
      }
      g_den = den; if (r == SV_OK) { return; }
      CHECK(k < 7, "stuck", "setting %d still fails (rc=%d) though no fault is active any more", what, r);
    }
  }
  bool start() {
    for (int k = 0; k < 4 && !sv; k++) { int den = g_den; if (k == 3) g_den = 0; bool fired = armed([&] { sv = signed_video_create((SignedVideoCodec)cfg.codec); }); g_den = den; CHECK(sv || fired, "create", "no session though nothing failed"); if (!sv) g_reported = false; }
    apply(0); if (cfg.hash) apply(1); if (cfg.set_prod) apply(2); if (!cfg.att.empty()) apply(3);
    signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)cfg.level); signed_video_set_sei_epb(sv, cfg.epb); if (cfg.set_recurrence) signed_video_set_recurrence_interval_frames(sv, cfg.recurrence); if (cfg.max_payload) signed_video_set_max_sei_payload_size(sv, cfg.max_payload);
    g_reported = false; g_first.clear();   // settings that failed were given again
    if (cfg.golden) { signed_video_set_using_golden_sei(sv, true); apply(4); g_reported = false; fetch(nullptr, 0); CHECK(g_reported || !out.empty(), "golden", "no golden SEI though no call failed"); if (out.empty()) { cfg.golden = false; } }
    return true;
  }
  void fetch(const Bytes *peek, int g) {
    for (int guard = 0; guard < 80; guard++) {
      size_t z = 0; unsigned pend = 0; Bytes d; SignedVideoReturnCode r;
      if (cfg.poll == 2) { signed_video_nalu_to_prepend_t np = {}; r = call("prepend", [&] { return signed_video_get_nalu_to_prepend(sv, &np); }); if (r == SV_OK && np.prepend_instruction != SIGNED_VIDEO_PREPEND_NOTHING && np.nalu_data) { d.assign(np.nalu_data, np.nalu_data + np.nalu_data_size); signed_video_nalu_data_free(np.nalu_data); z = d.size(); } else z = 0; }
      else {
        r = call("size", [&] { return signed_video_get_sei(sv, nullptr, &z, nullptr, peek ? peek->data() : nullptr, peek ? peek->size() : 0, &pend); });
        if (r == SV_OK && z) { d.resize(z); r = call("sei", [&] { return signed_video_get_sei(sv, d.data(), &z, nullptr, peek ? peek->data() : nullptr, peek ? peek->size() : 0, &pend); }); }
      }
      if (r != SV_OK) { last_error_gop = gop; break; }
      if (!z) break;
      Nal n; n.b = d; n.kind = gop < 0 ? 'G' : 'S'; n.gop = g; out.push_back(n); seis++;
    }
  }
  void picture(char kind) {
    if (kind == 'I') gop++;
    Nal n; n.kind = kind; n.cam = 0; n.pic = pic++; n.gop = gop; n.b = make_nal(cfg.codec, kind, 0, n.pic, cfg.startcode, false, choice(20)); int64_t ts = 1000000 + 40000ll * n.pic;
    // a call that fails is repeated, as the documentation asks for
    for (int k = 0; k < 6; k++) { SignedVideoReturnCode r = call("add", [&] { return cfg.ts_mode ? signed_video_add_nalu_for_signing_with_timestamp(sv, n.b.data(), n.b.size(), &ts) : signed_video_add_nalu_for_signing(sv, n.b.data(), n.b.size()); }); if (r == SV_OK) break; last_error_gop = gop; if (coin()) break; again |= kind == 'I'; }
    fetch(cfg.poll == 2 ? nullptr : &n.b, gop - 1); out.push_back(n);
  }
  ~FaultyCam() { if (sv) armed([&] { signed_video_free(sv); }); }
};
CamCfg plain_cfg() { CamCfg c = random_cfg(); c.parts = 0; c.feedback = false; c.eos = false; if (c.key < 5 && chance(1, 8)) { genuine_vendor(c); if (coin()) trust_sim_root(); } return c; }
// In a report OK every group counted has the (even) number of pictures the camera made, and none of them is a foreign slice.
void check_ok_report(const Rep &p, bool parity, bool foreign = true) {
  if (foreign) for (size_t i = 0; i < p.vs.size() && i < p.ns.size(); i++) if (p.ns[i] == 'p' || p.ns[i] == 'i') CHECK(p.vs[i] != '.', "foreign_ok", "a foreign picture is reported authentic: %s / %s", p.ns.c_str(), p.vs.c_str());
  if (p.auth != SV_AUTH_RESULT_OK) return;
  st_probe("ok_report"); int n = 0;
  for (size_t i = 0; i <= p.vs.size(); i++) {
    char c = i < p.ns.size() ? p.ns[i] : 'I', v = i < p.vs.size() ? p.vs[i] : '.';
    if (foreign && (c == 'p' || c == 'i')) CHECK(v == 'P' || v == 'U' || v == 'E', "foreign_in_ok", "a report OK covers a foreign picture: %s / %s", p.ns.c_str(), p.vs.c_str());
    CHECK(v != 'N' && v != 'M', "bad_in_ok", "a report OK has items that are not authentic: %s / %s", p.ns.c_str(), p.vs.c_str());
    if (c == 'I') { if (parity && n) CHECK(n % 2 == 0, "hole_in_ok", "a report OK covers a group with a missing picture: %s / %s", p.ns.c_str(), p.vs.c_str()); n = 0; }
    if ((c == 'I' || c == 'P') && v == '.' && i < p.ns.size()) n++;
  }
}
// Feeds a NAL unit to a validating session that meets faults.
SignedVideoReturnCode feed_faulty(signed_video_t *sv, const Nal &n, bool parity, bool foreign, bool trusted, bool *ok = nullptr, bool *bad = nullptr) {
  uint8_t *copy = new uint8_t[n.b.size() ? n.b.size() : 1]; memcpy(copy, n.b.data(), n.b.size()); signed_video_authenticity_t *a = nullptr;
  SignedVideoReturnCode r = call("feed", [&] { return signed_video_add_nalu_and_authenticate(sv, copy, n.b.size(), &a); });
  memset(copy, 0xee, n.b.size()); delete[] copy;
  if (a) {
    Rep p = copy_report(a); signed_video_authenticity_report_free(a); ev_printf("  %s / %s -> %s", p.ns.c_str(), p.vs.c_str(), auth_name(p.auth)); for (char c : p.vs) ev_hash(c); note_state(mix64(std::hash<std::string>()(p.vs) + p.auth));
    check_ok_report(p, parity, foreign); if (!trusted) CHECK(p.pubval != SV_PUBKEY_VALIDATION_OK && p.a_pubval != SV_PUBKEY_VALIDATION_OK, "pubkey_ok", "a public key nobody vouches for is reported validated");
    if (ok && p.auth == SV_AUTH_RESULT_OK) *ok = true; if (bad && (p.auth == SV_AUTH_RESULT_NOT_OK || p.auth == SV_AUTH_RESULT_OK_WITH_MISSING_INFO)) *bad = true;
  }
  return r;
}
void leaks(uint64_t crypto0) {
  ERR_clear_error(); std::string who; CHECK(alloc_live_since_mark(&who) == 0, "leak", "memory is left behind: %s", who.c_str());
  CHECK(crypto_live() == crypto0, "crypto_leak", "crypto objects are left behind: %s", crypto_live_who().c_str());
}
}
// ---- F01s: the signer meets faults ----
SCENARIO(F01s) {
  g_hsm = Hsm(); g_trust_anchor_pem.clear(); const uint64_t crypto0 = crypto_live(); alloc_mark(); g_reported = false; g_first.clear();
  CamCfg cfg = plain_cfg(); Stream st; int err_gop, gops; bool reported; bool golden, again;
  {
    FaultyCam c; c.cfg = cfg; static const int dens[] = {3, 8, 20, 60}; g_den = dens[choice(4)]; ev_printf("camera: %s faults in one of %d calls", cfg.str().c_str(), g_den);
    c.start(); gops = range(2, 7); int stop = range(0, gops);   // the faults stop at some point
    for (int g = 0; g < gops; g++) { if (g == stop) g_den = 0; c.picture('I'); for (int k = 2 * choice(3) + 1; k > 0; k--) c.picture('P'); }
    if (coin()) { call("eos", [&] { return signed_video_set_end_of_stream(c.sv); }); c.fetch(nullptr, c.gop); }
    st = c.out; err_gop = c.last_error_gop; reported = g_reported; golden = cfg.golden; again = c.again;
  }
  g_den = 0; leaks(crypto0);
  // Without a reported error the stream is as good as any.
  Rep last = Rep();
  auto validate = [&](size_t from, bool &ok, bool &bad) { Validator v(cfg.codec, chance(1, 3) ? &keys()[cfg.key].pub : nullptr); for (size_t i = from; i < st.size(); i++) { v.feed(st[i]); } if (v.reps.size()) last = v.reps.back(); for (auto &r : v.reps) { check_ok_report(r, !again); ok |= r.auth == SV_AUTH_RESULT_OK; bad |= r.auth == SV_AUTH_RESULT_NOT_OK || r.auth == SV_AUTH_RESULT_OK_WITH_MISSING_INFO; } };
  bool ok = false, bad = false; validate(0, ok, bad); int seis = 0; for (auto &n : st) seis += n.kind == 'S';
  const bool often = !cfg.set_recurrence || cfg.recurrence == 1;
  if (!reported) { CHECK(!bad, "silent", "no call reported an error but the stream does not validate"); CHECK(seis >= gops - 1, "lost_sei", "no call reported an error but %d SEIs came for %d groups", seis, gops); if (seis >= 3 && often) CHECK(ok, "silent", "no call reported an error but the stream is never reported OK"); st_probe("no_error"); if (cfg.set_prod && ok && !golden) for (int i = 0; i < 5; i++) CHECK(last.prod[i] == cfg.prod[i].substr(0, 254), "metadata", "no call reported an error but product information %d was lost", i); }
  // Once the faults have stopped, groups validate again.
  else if (often && !golden && gops - err_gop >= 5) {
    size_t from = 0; while (from < st.size() && !(st[from].kind == 'I' && st[from].gop == err_gop + 2)) from++;
    bool ok2 = false, bad2 = false; if (from < st.size()) { validate(from, ok2, bad2); CHECK(ok2, "no_recovery", "the last call failed in group %d of %d, but a session that starts with group %d never reports OK", err_gop, gops, err_gop + 2); st_probe("recovered"); }
  }
}
// ---- F01v: the validator meets faults ----
SCENARIO(F01v) {
  g_hsm = Hsm(); g_trust_anchor_pem.clear(); const uint64_t crypto0 = crypto_live(); alloc_mark(); g_reported = false; g_den = 0; g_first.clear();
  Stream st; int codec, key; bool old = chance(1, 4), trusted = false; bool golden = false;
  if (old) { LegacyCfg c = random_legacy_cfg(); codec = c.codec; key = c.key; st = legacy_stream(0, c, range(2, 5), 4); }
  else { FaultyCam c; c.cfg = plain_cfg(); trusted = !g_trust_anchor_pem.empty(); codec = c.cfg.codec; key = c.cfg.key; golden = c.cfg.golden; c.start(); int gops = range(2, 5); for (int g = 0; g < gops; g++) { c.picture('I'); for (int k = 2 * choice(3) + 1; k > 0; k--) c.picture('P'); } c.fetch(nullptr, 0); if (coin()) { signed_video_set_end_of_stream(c.sv); c.fetch(nullptr, 0); } st = c.out; if (!c.cfg.epb && coin()) mux_epb(st); }
  CHECK(!g_reported, "setup", "signing failed: %s", g_first.c_str());
  // The stream is tampered with: a foreign slice is put in or takes the place of a picture, or one picture of a group is taken out.
  Stream bad = st; bool parity = !old;
  const bool forged = !old && chance(1, 6);   // every SEI is altered: nothing can be authentic
  if (forged) { st_fault("forged_seis"); for (auto &n : bad) if (n.kind == 'S' || n.kind == 'G') { size_t at = n.b.size() - 12 - choice(20); while (n.b[at] <= 3 || (n.b[at] ^ 0x54) <= 3) at--; n.b[at] ^= 0x54; n.altered = true; } }   // a byte of the signature
  for (int k = forged ? 0 : choice(3); k > 0; k--) {
    size_t i = choice((uint32_t)bad.size()); Nal f; f.kind = 'p'; f.altered = true; f.b = make_nal(codec, 'p', 3, 900 + k, 0, false, choice(20));
    switch (choice(3)) {
      case 0: bad.insert(bad.begin() + i, f); parity = parity && true; st_fault("inserted"); break;
      case 1: if (bad[i].kind == 'P') { bad[i] = f; st_fault("replaced"); } break;
      case 2: if (bad[i].kind == 'P') { int g = bad[i].gop; bool other = false; for (auto &n : bad) other |= n.altered && n.gop == g; bool once = true; size_t cnt = 0; for (auto &n : bad) cnt += n.is_pic() && n.gop == g && !n.altered; once = cnt % 2 == 0; if (once) { bad.erase(bad.begin() + i); st_fault("taken_out"); } } break;
    }
  }
  {
    static const int dens[] = {2, 5, 12, 40}; g_den = dens[choice(4)]; signed_video_t *sv = nullptr;
    for (int k = 0; k < 4 && !sv; k++) { int den = g_den; if (k == 3) g_den = 0; bool fired = armed([&] { sv = signed_video_create((SignedVideoCodec)codec); }); g_den = den; CHECK(sv || fired, "create", "no session though nothing failed"); }
    bool keyset = chance(1, 3); if (keyset) for (int k = 0; k < 8; k++) { int den = g_den; if (k == 7) g_den = 0; SignedVideoReturnCode r = call("public key", [&] { return signed_video_set_public_key(sv, keys()[key].pub.c_str(), keys()[key].pub.size()); }); g_den = den; if (r == SV_OK) break; CHECK(k < 7, "stuck", "the public key is refused (rc=%d) though no fault is active any more", r); }
    for (auto &n : bad) {
      bool ok = false; feed_faulty(sv, n, false, !old, trusted, &ok);
      if (forged) CHECK(!ok, "forged_ok", "a group is reported OK though no SEI has a valid signature");
      if (chance(1, 60)) { call("reset", [&] { return signed_video_reset(sv); }); st_fault("reset"); }
      if (chance(1, 40)) { signed_video_authenticity_t *a = nullptr; armed([&] { a = signed_video_get_authenticity_report(sv); }); if (a) { check_ok_report(copy_report(a), false, !old); signed_video_authenticity_report_free(a); } }
    }
    // The faults stop: after a reset the session validates the untouched stream.
    g_den = 0; SignedVideoReturnCode r = SV_OK; r = call("reset", [&] { return signed_video_reset(sv); }); CHECK(r == SV_OK, "reset", "the session cannot be reset: rc=%d", r);
    bool ok = false, nok = false; int seis = 0; for (auto &n : st) { if (n.kind == 'G' ) continue; r = feed_faulty(sv, n, parity, !old, trusted, &ok, &nok); seis += n.kind == 'S'; }
    if (!golden && !old) { CHECK(!nok, "no_recovery", "after the faults and a reset the untouched stream is not authentic"); }
    signed_video_free(sv);
  }
  leaks(crypto0);
}

// ---- G02u: failing hardware and SEIs that are not fetched for long, with the library's own plugin ----
static int g_fail_den; static uint64_t g_hw_failed;
static int hw_u(const uint8_t *, size_t) { if (g_fail_den && chance(1, g_fail_den)) { g_hw_failed++; st_fault("hsm_failure"); return 1; } return 0; }
SCENARIO(G02u) {
  CamCfg cfg = random_cfg(); cfg.golden = false; cfg.feedback = false; cfg.parts = 0; cfg.max_payload = 0; cfg.eos = false; g_hsm = Hsm(); g_trust_anchor_pem.clear(); g_fail_den = 0; g_hw_failed = 0; g_hsm_hook = hw_u;
  Camera c(0, cfg); c.strict_pending = false; c.start(); Shape sh; sh.multislice = sh.extras = false; sh.long_gops = false; sh.trailing_zeros = false; sh.repeats = false;
  int phases = range(1, 4), errors = 0, refused = 0, calm = -1; unsigned pending = 0; std::vector<int> lacking; Stream got;
  auto fetch = [&](int most) {
    for (; most > 0; most--) {
      size_t z = 0, z2 = 0; unsigned p = 0, p2 = 0; SignedVideoReturnCode r = signed_video_get_sei(c.sv, nullptr, &z, nullptr, nullptr, 0, &p); st_step(); st_eval();
      CHECK(r == SV_OK, "fetch_rc", "fetching fails with rc=%d though nothing is wrong", r); CHECK(p == pending, "pending", "%u SEIs are said to be pending, %u groups are waiting", p, pending);
      CHECK((z > 0) == (pending > 0), "not_ready", "%u groups are signed but the SEI has size %zu", pending, z); if (!z) return;
      Bytes d(z); r = signed_video_get_sei(c.sv, d.data(), &z2, nullptr, nullptr, 0, &p2); CHECK(r == SV_OK && z2 == z && p2 == p - 1, "fetch", "rc=%d, size %zu then %zu, pending %u then %u", r, z, z2, p, p2);
      pending--; Nal n; n.b = d; n.kind = 'S'; got.push_back(n); EV("sei", (long long)z, p2);
    }
  };
  for (int ph = 0; ph < phases; ph++) {
    g_fail_den = chance(1, 3) ? range(1, 4) : 0; int lazy = (int)choice(3); if (!g_fail_den) calm = c.gop + 1;
    int gops = chance(1, 5) ? range(50, 75) : range(1, 8); if (gops >= 50) st_probe("not_fetched_for_long");
    for (int g = 0; g < gops; g++) for (int k = 0, len = range(1, 2); k < len; k++) {
      Nal n = c.next_pic(k ? 'P' : 'I', sh); uint64_t f0 = g_hw_failed; const int closing = k ? -1 : c.gop - 1;
      SignedVideoReturnCode r = signed_video_add_nalu_for_signing_with_timestamp(c.sv, n.b.data(), n.b.size(), n.has_ts ? &n.ts : nullptr); st_step(); st_eval(); EV("add", k, r, pending);
      const bool failed = g_hw_failed > f0;
      if (r == SV_OK) { CHECK(!failed, "silent_failure", "signing group %d failed but the call returned no error", closing); if (closing >= 0) pending++; }
      else { CHECK(closing >= 0 && (failed || pending >= 60), "error", "adding a picture fails with rc=%d: group being closed %d, hardware failed %d, %u pending", r, closing, failed, pending); CHECK(r != SV_NOT_SUPPORTED, "error_code", "a picture that was taken is reported as to be added again"); errors++; if (!failed) { st_fault("sei_buffer_full"); refused++; } if (closing >= 0) lacking.push_back(closing); }
      if (gops < 50 && lazy != 2 && (lazy == 0 || coin())) fetch(coin() ? 1000 : (lazy = 0, 1000));
    }
    fetch(1000);
  }
  g_hsm_hook = nullptr;
  auto views = gop_views(c.pics, cfg.hash); int last = -1; size_t at = 0;
  for (auto &n : got) {
    RefSei r = parse_or_fail(n, cfg); check_signature(n, r, cfg); st_eval();
    int want = last + 1; while (at < lacking.size() && lacking[at] == want) { at++; want++; }
    CHECK(want + 1 < (int)views.size(), "extra_sei", "a SEI too many"); const GopView &v = views[want];
    CHECK(r.gop_hash == v.ref.gop_hash && r.num == v.pics.size(), "wrong_content", "the SEI does not describe group %d, whose turn it is (%u pictures, the group has %zu)", want, r.num, v.pics.size());
    CHECK(want == 0 || r.linked == views[want - 1].ref.ihash, "linked_hash", "the SEI of group %d is not linked to the previous group", want); note_state(mix64(want * 4 + (want != last + 1) * 2 + r.has_pub)); last = want;
  }
  CHECK(pending == 0, "lost_sei", "%u groups were signed but have no SEI", pending); CHECK(got.size() + lacking.size() + 1 == views.size(), "count", "%zu SEIs and %zu groups reported as failed for %zu groups", got.size(), lacking.size(), views.size());
}
// ---- T01u: the plugin itself, against a queue per session ----
#include <deque>
SCENARIO(T01u) {
  struct Ses { void *h; int key; std::deque<Bytes> q; }; std::vector<Ses> v; g_hsm_hook = hw_u; g_fail_den = chance(1, 3) ? range(2, 12) : 0; g_hw_failed = 0; const uint64_t crypto0 = crypto_live(); alloc_mark();
  const int n = range(10, 260), fetch_in = chance(1, 3) ? 40 : range(2, 5), open_in = range(8, 40); const bool many = coin();
  for (int i = 0; i < n; i++) {
    st_step();
    if (v.empty() || (v.size() < 4 && chance(1, open_in))) { Ses s; s.key = chance(1, 6) ? (int)choice(8) : (int)choice(5); const std::string &k = keys()[s.key].priv; s.h = sv_signing_plugin_session_setup(k.data(), k.size()); CHECK(s.h, "setup", "no session"); v.push_back(s); EV("open", s.key); continue; }
    size_t at = many ? choice((uint32_t)v.size()) : 0; Ses &s = v[at];
    if (chance(1, 60)) { EV("close", (long long)at, (long long)s.q.size()); if (s.q.size()) st_fault("closed_with_signatures"); sv_signing_plugin_session_teardown(s.h); v.erase(v.begin() + at); continue; }
    if (!chance(1, fetch_in)) {
      Bytes h(32); for (auto &b : h) b = (uint8_t)choice(256); uint64_t f0 = g_hw_failed; SignedVideoReturnCode r = sv_signing_plugin_sign(s.h, h.data(), h.size()); EV("sign", (long long)at, r, (long long)s.q.size()); st_eval(); Bytes keep = h; memset(h.data(), 0xcc, h.size());
      if (g_hw_failed > f0) CHECK(r != SV_OK, "silent_failure", "a failed signature is not reported");
      else if (r == SV_OK) s.q.push_back(keep); else { st_fault("plugin_full"); CHECK(s.q.size() >= 60, "refused", "a hash is refused (rc=%d) though only %zu wait", r, s.q.size()); }
    } else {
      uint8_t buf[600]; size_t z = 12345; SignedVideoReturnCode e = SV_UNKNOWN_FAILURE; bool got = sv_signing_plugin_get_signature(s.h, buf, 512, &z, coin() ? &e : nullptr); EV("get", (long long)at, got, (long long)s.q.size()); st_eval();
      CHECK(got == !s.q.empty(), "availability", "%zu signatures wait but the plugin says %d", s.q.size(), got);
      if (got) { CHECK(ref_verify(keys()[s.key].pub, s.q.front(), Bytes(buf, buf + z)), "signature", "the signature handed to session %zu (of %zu) is not that of its oldest hash", at, v.size()); s.q.pop_front(); }
    }
    note_state(mix64(v.size() * 1000 + s.q.size() * 10 + (g_fail_den > 0)));
  }
  for (auto &s : v) sv_signing_plugin_session_teardown(s.h);
  g_hsm_hook = nullptr; leaks(crypto0);
}
