// Streams in the format of older library versions.
#include "legacy.h"
#include "mon.h"
#include "channel.h"
#include <algorithm>
SCENARIO(Lcal) {   // the signer of the simulator against the recorded streams
  for (int i = 0; i < 8; i++) { Stream s = legacy_recorded(i); std::string why; CHECK(legacy_verify_stream(s, kLegacyRec[i].codec, &why), "calibration", "recorded stream %d: %s", i, why.c_str()); }
  LegacyCfg c = random_legacy_cfg(); Stream s = legacy_stream(0, c, range(1, 5), 5); std::string why; CHECK(legacy_verify_stream(s, c.codec, &why), "calibration", "simulated stream: %s", why.c_str());
}
static Stream any_legacy(LegacyCfg &c, int gmin, int gmax, bool vary = false) {
  if (chance(1, 6)) { int i = choice(8); c = LegacyCfg(); c.codec = kLegacyRec[i].codec; c.level = kLegacyRec[i].level; c.key = -1; ev_printf("recorded stream %d", i); return legacy_recorded(i); }
  c = random_legacy_cfg();
  if (vary && chance(1, 3)) for (int i = 0; i < 3; i++) { static const int e[] = {0, 1, 9, 10, 127, 128, 255}; c.ver[i] = choice(4) ? std::min(255, std::max(0, c.ver[i] + (int)choice(3) - 1)) : e[choice(7)]; }
  return legacy_stream(0, c, range(gmin, gmax), chance(1, 6) ? 12 : 5);
}
// Untouched streams of old cameras, from their beginning or joined at some I-frame.
SCENARIO(L01) {
  LegacyCfg c; Stream s = any_legacy(c, 2, 8, true);
  char version[32]; snprintf(version, sizeof version, "v%d.%d.%d", c.ver[0], c.ver[1], c.ver[2]); int here[3] = {0, 0, 0}; sscanf(signed_video_get_version(), "v%d.%d.%d", &here[0], &here[1], &here[2]);
  bool newer = std::lexicographical_compare(here, here + 3, c.ver, c.ver + 3); if (newer) st_probe("newer_version");
  ev_printf("stream %s of version %s", stream_str(s).c_str(), version);
  Validator v(c.codec, nullptr); bool seen = false; int last_sei = -2;
  for (size_t i = 0; i < s.size(); i++) {
    SignedVideoReturnCode rc; const Rep *r = v.feed(s[i], &rc);
    CHECK(rc == SV_OK, "rc", "add_nalu_and_authenticate returned %d for an untouched NAL unit %zu", rc, i);
    if (s[i].is_sei()) { seen = true; last_sei = s[i].gop; }
    if (r) {
      st_eval();
      bool ok = !seen ? r->auth == SV_AUTH_RESULT_NOT_SIGNED : r->auth == (newer ? SV_AUTH_RESULT_VERSION_MISMATCH : SV_AUTH_RESULT_OK) || (v.reps.size() <= 2 && r->auth == SV_AUTH_RESULT_SIGNATURE_PRESENT);
      if (r->auth >= SV_AUTH_RESULT_OK) CHECK(r->sign_v == version, "version", "version_on_signing_side is '%s', the stream was signed with %s", r->sign_v.c_str(), version);
      CHECK(ok, "verdict", "untouched stream of version %s reported %s: %s / %s of %s", version, auth_name(r->auth), r->ns.c_str(), r->vs.c_str(), stream_str(s).c_str());
      for (char ch : r->vs) CHECK(ch == '.' || ch == '_' || ch == 'P' || ch == 'U', "status", "untouched stream has status %c: %s / %s (%s)", ch, r->ns.c_str(), r->vs.c_str(), stream_str(s).c_str());
      CHECK(!r->keychg && !r->a_keychg, "key_changed", "untouched stream is reported with a changed key");
    }
    if (last_sei >= 0 && s[i].is_pic() && !s[i].b.empty()) {   // the SEI and one more picture have arrived: the group is decided
      for (size_t k = 0; k <= i; k++) if (s[k].is_pic() && s[k].gop <= last_sei) { st_eval(); CHECK(v.verdict[k] == '.', "undecided", "group %d: NAL unit %zu has verdict %c after its SEI and the next picture: %s", s[k].gop, k, v.verdict[k] ? v.verdict[k] : '-', stream_str(s).c_str()); }
      last_sei = -2;
    }
  }
}

// Whatever happens to the stream: altered pictures are never marked valid and an OK report decides complete groups only.
static void alter_legacy_sei(Channel &ch, size_t sigsz) {
  int i = ch.at_sei(); if (i < 0) return; Nal &n = ch.s[i]; Bytes old = n.b; const size_t lo = 6; if (n.b.size() < 120) return;
  switch (choice(4)) {
    case 0: n.b[lo + choice((uint32_t)(n.b.size() - lo))] ^= (uint8_t)(1 + choice(255)); break;
    case 1: n.b[lo + choice(60)] ^= (uint8_t)(1 << choice(8)); break;
    case 2: n.b[n.b.size() - 1 - choice(80)] ^= (uint8_t)(1 << choice(8)); break;
    case 3: n.b.resize(lo + choice((uint32_t)(n.b.size() - lo))); break;
  }
  // the signed content and the signature, without the header of the signature tag, its padding and the stop bit
  size_t same = 0; while (same < n.b.size() && same < old.size() && n.b[same] == old[same]) same++;
  if (n.b != old) { n.altered = true; n.sig_altered = same + 1 + sigsz + 12 < old.size() || (same + 1 + sigsz >= old.size() && same + 40 < old.size()); ev_printf("byte %zu of %zu: %02x -> %02x", same, old.size(), same < old.size() ? old[same] : 0, same < n.b.size() ? n.b[same] : 0); ch.note("alter_sei", i); }
}
SCENARIO(L01f) {
  LegacyCfg c; Stream s = any_legacy(c, 3, 8), other; if (c.key >= 0 && coin()) { LegacyCfg c2 = c; if (coin()) c2.key = c.key == 0 ? 1 : 0; other = legacy_stream(1, c2, range(3, 7), 5); }
  else if (c.key >= 0 && chance(1, 3)) {   // a forger without the key: everything fits but the signatures
    LegacyCfg c2 = c; c2.sign_key = c.key >= 6 ? 13 - c.key : (c.key + 1) % 3; other = legacy_stream(1, c2, range(3, 7), 5); st_fault("forged_stream");
    for (auto &n : other) { if (n.is_pic()) n.altered = true; if (n.is_sei()) n.altered = n.sig_altered = true; }
  }
  Channel ch(s, c.codec); if (!other.empty()) ch.other = &other;
  static const Channel::Op ops[] = {&Channel::alter_pic, &Channel::alter_any, &Channel::insert_fake, &Channel::dup, &Channel::swap, &Channel::move, &Channel::drop_pic, &Channel::drop_run, &Channel::drop_sei, &Channel::delay_sei, &Channel::dup_sei, &Channel::foreign_pic, &Channel::foreign_gop, &Channel::splice, &Channel::replay_run, &Channel::replace_gop, &Channel::join_recording, &Channel::swap_sei, &Channel::foreign_sei, &Channel::extras};
  for (int k = range(1, chance(1, 4) ? 4 : 1); k > 0; k--) { int w = choice(sizeof ops / sizeof *ops + 4); if (w < (int)(sizeof ops / sizeof *ops)) (ch.*ops[w])(); else if (w & 1) { bool g = coin(); ch.drop_gop(g); } else alter_legacy_sei(ch, c.key < 0 ? (s[0].b.size() > 600 ? 256 : 72) : c.key >= 6 ? 256 : 72); }
  for (auto &n : ch.s) if (n.altered && n.is_pic()) for (auto &o : s) if (o.is_pic() && o.b == n.b) n = o;   // turned into another genuine picture (the recorded ones are almost equal)
  ev_printf("stream  %s\narrives %s", stream_str(s).c_str(), stream_str(ch.s).c_str());
  Validator v(c.codec, nullptr); Mon m(v); m.camera(0, s); m.camera(1, other); m.legacy = true;
  bool bad = false, chg = false;
  for (auto &n : ch.s) {
    const Rep *r = v.feed(n); m.check(); if (!r) continue;
    if (r->keychg) { st_probe("key_change_reported"); CHECK(r->auth == SV_AUTH_RESULT_NOT_OK, "key_change_ok", "the key has changed but the report says %s", auth_name(r->auth)); }
    bad |= r->auth == SV_AUTH_RESULT_NOT_OK; chg |= r->keychg;
    CHECK(!bad || r->a_auth == SV_AUTH_RESULT_NOT_OK, "accumulated", "a report said NOT_OK but the accumulated verdict is %s", auth_name(r->a_auth));
    CHECK(!chg || r->a_keychg, "accumulated_key", "a report said that the key has changed, the accumulated one does not");
  }
}

// Untouched parts of a stream, joined at any I-frame, with resets in between: never NOT_OK, and back to OK soon.
SCENARIO(L01r) {
  LegacyCfg c; Stream s = any_legacy(c, 5, 10);
  Validator v(c.codec, nullptr); int sessions = range(1, 3);
  for (int k = 0; k < sessions; k++) {
    std::vector<size_t> st; for (size_t i = 0; i + 1 < s.size(); i++) if (s[i].is_sei() && s[i + 1].kind == 'I' && s[i].gop + 1 == s[i + 1].gop) st.push_back(i);
    if (st.empty()) return;
    size_t from = pick(st), to = from + range(1, (uint32_t)(s.size() - from)); if (k) { v.reset(); st_fault("reset"); } if (from) st_fault("start_midway");
    ev_printf("session %d: %s", k, stream_str(Stream(s.begin() + from, s.begin() + to)).c_str());
    size_t r0 = v.reps.size(); int seis = 0, ok = 0;
    for (size_t i = from; i < to; i++) {
      SignedVideoReturnCode rc; const Rep *r = v.feed(s[i], &rc);
      CHECK(rc == SV_OK, "rc", "add_nalu_and_authenticate returned %d for an untouched NAL unit", rc);
      if (s[i].is_sei()) seis++;
      if (!r) continue;
      st_eval(); if (r->auth == SV_AUTH_RESULT_OK) ok++;
      CHECK(r->auth != SV_AUTH_RESULT_NOT_OK && r->auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "verdict", "untouched part reported %s in session %d: %s / %s of %s", auth_name(r->auth), k, r->ns.c_str(), r->vs.c_str(), stream_str(Stream(s.begin() + from, s.begin() + to)).c_str());
    }
    (void)r0; if (c.maxdelay == 0 && c.recurrence == 1 && seis >= 4) CHECK(ok > 0, "no_sync", "%d SEIs arrived, but no group was reported OK in session %d: %s", seis, k, stream_str(Stream(s.begin() + from, s.begin() + to)).c_str());
  }
}
// One validation session, used for recordings of old and new cameras in turn: a reset starts over whatever came before.
SCENARIO(L01x) {
  int codec = choice(2), key = choice(3); Validator v(codec, nullptr); std::string hist;
  for (int k = 0, n = range(2, 4); k < n; k++) {
    Stream s; bool old = coin();
    if (old) { LegacyCfg c = random_legacy_cfg(); c.codec = codec; c.key = key; c.maxdelay = 0; c.recurrence = 1; s = legacy_stream(0, c, range(2, 6), 4); }
    else { CamCfg c = random_cfg(false); c.codec = codec; c.key = key; c.hash = 0; c.recurrence = 1; c.att.clear(); c.chain.clear(); c.prod[3] = "Sim"; c.pub_in_sei = true; c.startcode = 0; g_hsm = Hsm(); Shape sh; sh.min_gops = 3; sh.max_gops = 6; sh.max_len = 4; s = sign_stream(0, c, sh); }
    hist += old ? "old " : "new "; if (k) { v.reset(); st_fault("reset"); }
    ev_printf("%s: %s", old ? "old format" : "new format", stream_str(s).c_str());
    size_t to = chance(1, 3) ? range(1, (uint32_t)s.size()) : s.size(); int seis = 0, ok = 0; bool seen = false;
    for (size_t i = 0; i < to; i++) {
      SignedVideoReturnCode rc; const Rep *r = v.feed(s[i], &rc); CHECK(rc == SV_OK, "rc", "add_nalu_and_authenticate returned %d for an untouched NAL unit after %s", rc, hist.c_str());
      if (s[i].is_sei()) { seis++; seen = true; } if (!r) continue;
      st_eval(); ok += r->auth == SV_AUTH_RESULT_OK;
      CHECK(seen ? r->auth == SV_AUTH_RESULT_OK || r->auth == SV_AUTH_RESULT_SIGNATURE_PRESENT : r->auth == SV_AUTH_RESULT_NOT_SIGNED, "verdict", "untouched stream reported %s after %s: %s / %s", auth_name(r->auth), hist.c_str(), r->ns.c_str(), r->vs.c_str());
      CHECK(!r->keychg, "key_changed", "the same key is reported as changed");
    }
    if (seis >= 3) CHECK(ok > 0, "no_sync", "%d SEIs arrived, but nothing was reported OK after %s", seis, hist.c_str());
  }
}
