// Long sessions: thousands of groups in one signing and one validation session, so that what is numbered per group, per picture
// or per NAL unit passes the limits of 8 and 16 bits. The content follows a small generator so that a run takes few decisions.
#include "world.h"
#include "mon.h"
#include "gview.h"
enum LongMode { kVerdicts, kSeis, kLoss, kCounts };
static void long_session(LongMode mode) {
  CamCfg cfg = random_cfg(false); g_hsm = Hsm();
  cfg.parts = 0; cfg.poll = 1; cfg.feedback = false; cfg.eos = false; cfg.startcode = 0; cfg.max_payload = 0; cfg.ts_mode = 1; cfg.att.clear(); cfg.chain.clear();
  cfg.key = (int)choice(5); if (cfg.set_recurrence && cfg.recurrence > 50) cfg.recurrence = 50;
  const bool very = choice(8) == 0;      // beyond 16 bits
  const int around = very ? 65536 : 256, total = around + 24 + (int)choice(40), lost = mode == kLoss ? around - 4 + (int)choice(8) : -1, how = (int)choice(3);
  uint64_t rnd = choice(1u << 30) + 1; auto draw = [&](uint32_t n) { rnd = mix64(rnd + 0x9e3779b97f4a7c15ull); return (int)(rnd % n); };
  if (very) { cfg.hash = 0; st_probe("session_beyond_16_bits"); } else st_probe("session_beyond_8_bits");
  sim_cpu_budget(600);
  ev_printf("%d groups, lost %d how %d, %s", total, lost, how, cfg.str().c_str());
  Camera c(0, cfg); c.start();
  signed_video_t *v = signed_video_create(cfg.codec == 0 ? SV_CODEC_H264 : SV_CODEC_H265);
  int64_t ts = 1000000; uint32_t counter = 0; bool first = true; Bytes prev_ihash; std::vector<Nal> group, before;
  unsigned fed = 0; int ok = 0, bad_after = 0, reports_after = 0, decided = 0, since_loss = 0; bool seen_sei = false, ended = false; unsigned last_recv = 0, last_val = 0, last_pend = 0;
  auto validate = [&](const Nal &n, int g) {
    signed_video_authenticity_t *a = nullptr; fed++;
    SignedVideoReturnCode rc = signed_video_add_nalu_and_authenticate(v, n.b.data(), n.b.size(), &a);
    CHECK(rc == SV_OK, "rc", "add_nalu_and_authenticate returned %d in group %d of a long session", rc, g);
    if (n.is_sei()) seen_sei = true;
    if (!a) return;
    const int auth = a->latest_validation.authenticity; const std::string vs = a->latest_validation.validation_str ? a->latest_validation.validation_str : "", ns = a->latest_validation.nalu_str ? a->latest_validation.nalu_str : "";
    last_recv = a->accumulated_validation.number_of_received_nalus; last_val = a->accumulated_validation.number_of_validated_nalus; last_pend = a->accumulated_validation.number_of_pending_nalus;
    const int acc = a->accumulated_validation.authenticity; const int64_t rts = a->latest_validation.timestamp; (void)rts;
    signed_video_authenticity_report_free(a);
    if (!seen_sei) return;
    st_eval(); decided++;
    ev_hash(mix64((uint64_t)g * 16 + (uint64_t)auth));
    if (g % 97 == 0) note_state(mix64(std::hash<std::string>()(ns + vs)));
    if (mode == kLoss) {
      if (g >= lost && lost >= 0) { reports_after++; if (auth != SV_AUTH_RESULT_OK) bad_after++; }
      if (g > lost + 8) CHECK(auth == SV_AUTH_RESULT_OK, "long_recovery", "group %d of a long session reported %s, the last loss was %d: %s / %s", g, auth_name(auth), lost, ns.c_str(), vs.c_str());
    }
    if (mode == kVerdicts) {
      CHECK(auth == SV_AUTH_RESULT_OK || (decided <= 1 && auth == SV_AUTH_RESULT_SIGNATURE_PRESENT), "long_verdict", "group %d of an untouched long session reported %s: %s / %s", g, auth_name(auth), ns.c_str(), vs.c_str());
      CHECK(decided <= 1 || acc == SV_AUTH_RESULT_OK, "long_accumulated", "the accumulated verdict of an untouched long session is %s at group %d", auth_name(acc), g);
      for (char ch : vs) CHECK(strchr("._PU", ch), "long_status", "group %d of an untouched long session has status %c: %s / %s", g, ch, ns.c_str(), vs.c_str());
    }
    if (mode == kCounts) {
      CHECK(last_recv == fed, "long_received", "%u received NAL units reported after %u", last_recv, fed);
      CHECK(last_val + last_pend == last_recv, "long_balance", "%u validated and %u pending of %u received NAL units", last_val, last_pend, last_recv);
    }
  };
  auto check_sei = [&](const Nal &n, int g) {       // the SEI of group |g|, whose pictures are |before|
    RefSei r = parse_or_fail(n, cfg); st_eval();
    CHECK(r.has_general && r.has_sig && !r.golden, "content", "SEI %d lacks general information or signature", g);
    CHECK(first || r.counter == counter + 1, "counter", "SEI %d has counter %u after %u", g, r.counter, counter);
    counter = r.counter; first = false;
    std::vector<const Nal *> ps; for (auto &x : before) ps.push_back(&x);
    RefGop ref = ref_gop(ps, cfg.hash);
    CHECK(r.num == ps.size(), "number", "SEI %d signs %u pictures, the GOP has %zu", g, r.num, ps.size());
    CHECK(r.gop_hash == ref.gop_hash, "gop_hash", "SEI %d: GOP hash is not the hash of the hashes of its pictures", g);
    CHECK(prev_ihash.empty() || r.linked == prev_ihash, "linked_hash", "SEI %d: the linked hash is not the hash of the first picture of the previous GOP", g);
    prev_ihash = ref.ihash;
    CHECK(r.has_ts && r.ts == ts, "timestamp", "SEI %d has timestamp %d %lld, expected %lld", g, r.has_ts, (long long)r.ts, (long long)ts);
    if (g % 64 == 0 || (g & 0xff) >= 0xfe) check_signature(n, r, cfg);
  };
  for (int g = 0; g < total && !ended; g++) {
    const int len = very ? 1 : 1 + draw(3);
    for (int k = 0; k < len; k++) {
      const char kind = k == 0 ? 'I' : 'P'; Nal n; n.kind = kind; n.cam = 0; n.gop = g; ts += 40000; st_simtime(40000);
      n.b = {0, 0, 0, 1};
      if (cfg.codec == 0) n.b.insert(n.b.end(), {(uint8_t)(k ? 0x41 : 0x65), 0x88}); else n.b.insert(n.b.end(), {(uint8_t)(k ? 0x02 : 0x26), 0x01, 0x88});
      for (int q = 0; q < 4; q++) n.b.push_back((uint8_t)(0x11 + ((g >> (4 * q)) & 15)));
      n.b.push_back((uint8_t)(0x21 + k)); n.b.push_back((uint8_t)(0x40 + draw(64))); n.b.push_back(0x80);
      n.ts = ts; n.has_ts = true;
      if (k == 0) { before.swap(group); group.clear(); }
      group.push_back(n);
      SignedVideoReturnCode rc = signed_video_add_nalu_for_signing_with_timestamp(c.sv, n.b.data(), n.b.size(), &ts);
      CHECK(rc == SV_OK, "sign_rc", "adding a picture of group %d for signing returned %d", g, rc);
      g_hsm.clock++;
      int seis = 0;
      for (;;) {
        size_t size = 0; rc = signed_video_get_sei(c.sv, nullptr, &size, nullptr, nullptr, 0, nullptr);
        CHECK(rc == SV_OK, "sei_rc", "signed_video_get_sei returned %d in group %d", rc, g);
        if (!size) break;
        Nal s; s.kind = 'S'; s.gop = g - 1; s.b.resize(size); rc = signed_video_get_sei(c.sv, s.b.data(), &size, nullptr, nullptr, 0, nullptr); s.b.resize(size);
        CHECK(rc == SV_OK && size, "sei_rc", "signed_video_get_sei returned %d in group %d", rc, g);
        seis++;
        if (mode == kSeis) check_sei(s, g - 1);
        else if (lost >= 0 && g - 1 == lost && how != 2) st_fault(how ? "drop_sei" : "drop_gop");       // how: 0 the group with its SEI, 1 only the SEI, 2 only the pictures
        else validate(s, g);
      }
      st_eval();
      CHECK(seis == (k == 0 && g > 0), "count", "%d SEIs at picture %d of group %d", seis, k, g);
      if (mode != kSeis) { if (g == lost && how != 1) { if (how == 2) st_fault("drop_pictures"); } else validate(n, g); }
    }
    (void)since_loss;
  }
  if (mode == kLoss) CHECK(bad_after > 0, "long_loss_hidden", "group %d of a long session was lost (%s) and none of the %d later reports shows it", lost, how == 0 ? "with its SEI" : how == 1 ? "only the SEI" : "without the SEI", reports_after);
  signed_video_free(v); c.close();
}
SCENARIO(S03n) { long_session(kVerdicts); }
SCENARIO(G01n) { long_session(kSeis); }
SCENARIO(S02n) { long_session(kLoss); }
SCENARIO(S08n) { long_session(kCounts); }
