// Stream properties: cameras -> channel -> validators.
#include <array>
#include "world.h"
#include "mon.h"
#include "channel.h"
#include "legacy.h"

static Shape wide_shape() { Shape sh; sh.max_gops = chance(1, 6) ? 14 : 6; sh.max_len = chance(1, 8) ? 14 : 5; sh.repeats = chance(1, 3); return sh; }
static void feed_all(Validator &v, const Stream &s) { for (auto &n : s) v.feed(n); }

// ---- S03: the expected verdict of an untouched stream ----
SCENARIO(S03) {
  CamCfg cfg = random_cfg(); random_hsm();
  Stream s = sign_stream(0, cfg, wide_shape());
  if (!cfg.epb && coin()) mux_epb(s);
  ev_printf("stream %s", stream_str(s).c_str());
  bool reg = chance(1, 4);
  check_untouched(cfg, s, reg);
}

static CamCfg attack_cfg() { CamCfg c = random_cfg(false); c.parts = 0; if (!chance(1, 8)) c.startcode = 0; if (c.max_payload && c.level && coin()) c.max_payload = range(200, 900); if (chance(1, 8)) { c.level = 1; c.max_payload = range(230, 520); }   // the hash list fits in some SEIs only
  return c; }
static Shape attack_shape() { Shape sh; sh.min_gops = 2; sh.max_gops = chance(1, 6) ? 10 : 6; sh.max_len = 5; sh.trailing_zeros = chance(1, 8); return sh; }

SCENARIO(S01) {
  CamCfg cfg = attack_cfg(); random_hsm();
  Stream s = sign_stream(0, cfg, attack_shape());
  Stream other;
  if (chance(1, 2)) { CamCfg c2 = cfg; if (coin()) c2.key = (cfg.key + 1) % 5; if (c2.hash && c2.key >= 6) c2.key = 0; other = sign_stream(1, c2, attack_shape()); }
  Channel ch(s, cfg.codec); if (!other.empty()) ch.other = &other;
  static const Channel::Op ops[] = {&Channel::alter_pic, &Channel::alter_any, &Channel::insert_fake, &Channel::dup, &Channel::swap, &Channel::move, &Channel::alter_sei, &Channel::foreign_pic, &Channel::foreign_gop, &Channel::splice, &Channel::replay_run, &Channel::replace_gop, &Channel::join_recording, &Channel::join_recording, &Channel::swap_sei, &Channel::foreign_sei, &Channel::extras};
  for (int k = range(1, chance(1, 4) ? 4 : 1); k > 0; k--) (ch.*ops[choice(sizeof ops / sizeof *ops)])();
  ev_printf("stream  %s\narrives %s", stream_str(s).c_str(), stream_str(ch.s).c_str());
  Validator v(cfg.codec, chance(1, 6) ? &keys()[cfg.key].pub : nullptr);
  Mon m(v); m.camera(0, s); m.camera(1, other);
  for (auto &n : ch.s) { v.feed(n); m.check(); }
}
SCENARIO(S02) {
  CamCfg cfg = attack_cfg(); random_hsm();
  const bool join = chance(1, 4); Shape sh = attack_shape();   // joined midway with metadata that comes seldom: several groups are decided in one report
  if (join) { cfg.set_recurrence = true; cfg.recurrence = range(3, 16); sh.min_gops = 5; sh.max_gops = std::max(sh.max_gops, 8); if (coin()) g_hsm.latency_mode = 0; }
  Stream s = sign_stream(0, cfg, sh);
  Channel ch(s, cfg.codec);
  if (join) { std::vector<size_t> st; for (size_t i = 0; i < ch.s.size(); i++) if (ch.s[i].kind == 'I' && ch.s[i].gop < 4) st.push_back(i); if (!st.empty()) { ch.s.erase(ch.s.begin(), ch.s.begin() + pick(st)); st_fault("start_midway"); } }
  for (int k = range(1, chance(1, 4) ? 5 : 2); k > 0; k--) switch (choice(6)) {
    case 0: ch.drop_pic(); break; case 1: ch.drop_run(); break; case 2: ch.drop_sei(); break; case 3: ch.drop_gop(true); break; case 4: ch.drop_gop(false); break; case 5: ch.delay_sei(); break;
  }
  ev_printf("stream  %s\narrives %s", stream_str(s).c_str(), stream_str(ch.s).c_str());
  Validator v(cfg.codec, chance(1, 6) ? &keys()[cfg.key].pub : nullptr);
  Mon m(v); m.strict = true; m.camera(0, s);
  for (auto &n : ch.s) { v.feed(n); m.check(); }
}

// ---- S06: start anywhere, seek, reset ----
static bool complete_from(const Stream &s, size_t from, size_t to, int g, const Stream &orig) {   // all pictures of g and its SEI within [from,to)
  int want = 0, have = 0; bool sei = false;
  for (auto &n : orig) if (n.is_pic() && n.gop == g) want++;
  for (size_t i = from; i < to; i++) { if (s[i].is_pic() && s[i].gop == g) have++; if (s[i].kind == 'S' && s[i].gop == g) sei = true; }
  return want == have && sei && want > 0;
}
SCENARIO(S06) {
  CamCfg cfg = random_cfg(false); random_hsm(); if (cfg.set_recurrence && !chance(1, 3)) cfg.recurrence = 1;
  if (g_hsm.latency_mode && !chance(1, 8)) { g_hsm.latency_mode = 2; g_hsm.maxlat = range(1, 4); }   // mostly signing that keeps up
  Shape sh = wide_shape(); sh.min_gops = 6; sh.max_gops = 12; sh.repeats = false;   // identical I-frames: the first SEI of a session can be taken for the SEI of another group
  Stream s = sign_stream(0, cfg, sh);
  if (!cfg.epb && coin()) mux_epb(s);
  ev_printf("stream %s", stream_str(s).c_str());
  // Another recording of the same camera, made with other settings, may follow after a reset.
  CamCfg cfg2 = cfg; Stream s2;
  if (chance(1, 3)) { cfg2 = random_cfg(false); cfg2.codec = cfg.codec; cfg2.key = cfg.key; cfg2.att = cfg.att; cfg2.chain = cfg.chain; for (int i = 0; i < 5; i++) cfg2.prod[i] = cfg.prod[i]; if (cfg2.key >= 5) cfg2.hash = cfg.hash; if (cfg2.set_recurrence && !chance(1, 3)) cfg2.recurrence = 1; g_hsm = Hsm(); s2 = sign_stream(1, cfg2, sh); if (!cfg2.epb && coin()) mux_epb(s2); ev_printf("other  %s", stream_str(s2).c_str()); st_fault("other_recording"); }
  Validator v(cfg.codec, chance(1, 4) ? &keys()[cfg.key].pub : nullptr);
  int sessions = range(1, 3);
  for (int k = 0; k < sessions; k++) {
    if (k && !s2.empty() && coin()) { std::swap(s, s2); std::swap(cfg, cfg2); }
    std::vector<size_t> starts; for (size_t i = 0; i < s.size(); i++) if (s[i].kind == 'I') starts.push_back(i);
    size_t a = pick(starts), b = k + 1 < sessions ? a + choice((uint32_t)(s.size() - a) + 1) : s.size();
    if (k) v.reset();
    int ok_groups = 0; bool ok_seen = false; (void)ok_groups;
    // A session joined while the SEIs lag two groups or more: the first SEI belongs to a group well before the start
    int first_sei = -1; for (size_t i = a; i < b && first_sei < 0; i++) if (s[i].kind == 'S') first_sei = s[i].gop;
    const bool late = first_sei >= 0 && first_sei < s[a].gop - 1; if (late) st_probe("late_join");
    ev_printf("session %d: from %zu to %zu", k, a, b);
    st_fault("start_midway");
    for (size_t i = a; i < b; i++) {
      SignedVideoReturnCode rc; const Rep *r = v.feed(s[i], &rc);
      CHECK(rc == SV_OK, "rc", "add_nalu_and_authenticate returned %d for an untouched NAL unit", rc);
      if (r) {
        st_eval();
        CHECK(r->auth != SV_AUTH_RESULT_NOT_OK && r->auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO && r->auth != SV_AUTH_RESULT_VERSION_MISMATCH, late ? "late_join" : "verdict", "untouched stream joined at %zu reported %s: %s / %s of %s", a, auth_name(r->auth), r->ns.c_str(), r->vs.c_str(), stream_str(s).c_str());
        CHECK(!r->keychg, "key_changed", "changed key after joining");
        if (r->auth == SV_AUTH_RESULT_OK) ok_seen = true;
        CHECK((int)r->vs.size() <= (int)(i - a + 1), "old_items", "the report lists NAL units from before the start");
      }
    }
    int complete = 0; for (int g = 0; g < 40; g++) if (complete_from(s, a, b, g, s)) complete++;
    // with a longer recurrence the metadata may come late
    if (complete >= 3 && (!cfg.set_recurrence || cfg.recurrence == 1)) { st_eval(); CHECK(ok_seen, late ? "late_join" : "not_synced", "%d complete groups with SEIs since the start at %zu but never OK: %s", complete, a, stream_str(Stream(s.begin() + a, s.begin() + b)).c_str()); }
  }
}

// How many groups later a SEI arrives, at most: 0 = before the next but one I-frame
static int sei_lag(const Stream &s) { int g = -1, lag = 0; for (auto &n : s) { if (n.kind == 'I') g = n.gop; if (n.kind == 'S') lag = std::max(lag, g - n.gop - 1); } return lag; }
// ---- S07: a burst of channel faults, then intact delivery ----
SCENARIO(S07) {
  CamCfg cfg = attack_cfg(); random_hsm(); if (cfg.set_recurrence) cfg.recurrence = 1; cfg.eos = false;
  if (g_hsm.latency_mode && !chance(1, 4)) { g_hsm.latency_mode = 2; g_hsm.maxlat = range(1, 4); }
  Shape sh = attack_shape(); sh.min_gops = 10; sh.max_gops = 16; sh.max_len = 4;
  Stream s = sign_stream(0, cfg, sh);
  int gops = 0; for (auto &n : s) if (n.is_pic()) gops = std::max(gops, n.gop + 1);
  // the burst hits the first part of the stream only
  size_t cut = 0; int cutg = (int)range(1, 4); while (cut < s.size() && !(s[cut].kind == 'I' && s[cut].gop >= cutg + 1)) cut++;
  Stream head(s.begin(), s.begin() + cut), tail(s.begin() + cut, s.end());
  Channel ch(head, cfg.codec);
  static const Channel::Op ops[] = {&Channel::alter_pic, &Channel::drop_pic, &Channel::drop_run, &Channel::dup, &Channel::drop_sei, &Channel::insert_fake, &Channel::swap, &Channel::move, &Channel::dup_sei, &Channel::alter_sei};
  for (int k = range(1, chance(1, 4) ? 4 : 1); k > 0 && !ch.s.empty(); k--) (ch.*ops[choice(sizeof ops / sizeof *ops)])();
  Stream in = ch.s; size_t first_intact = in.size(); in.insert(in.end(), tail.begin(), tail.end());
  ev_printf("stream  %s\narrives %s", stream_str(s).c_str(), stream_str(in).c_str());
  int lag = sei_lag(s);
  // Did the burst change which I-frames and SEIs arrive, or their order? Only then does the pairing of groups and SEIs depend on the lag.
  auto skeleton = [](const Stream &x) { std::string r; for (auto &n : x) if (n.kind == 'I' || n.kind == 'S') { r += n.kind; r += std::to_string(n.gop); if (n.kind == 'S' && n.altered) r += '!'; } return r; };
  const bool pairing = skeleton(ch.s) != skeleton(head);
  // An altered first SEI without the two version bits looks like one of an old signer: the session is handed to the legacy code for good.
  bool legacy_switch = false;
  for (auto &n : in) if (n.kind == 'S') { if (n.altered) for (auto &x : s) if (x.kind == 'S' && x.gop == n.gop) { RefSei q = ref_parse(x.b, cfg.codec, kHashSizes[cfg.hash]); if (q.ok && q.payload_off + 16 < n.b.size()) legacy_switch = !(n.b[q.payload_off + 16] & 0x30); } if (legacy_switch) { st_probe("legacy_switch"); } break; }
  Validator v(cfg.codec, chance(1, 6) ? &keys()[cfg.key].pub : nullptr);
  size_t longest = 0;
  for (size_t i = 0; i < in.size(); i++) { const Rep *r = v.feed(in[i]); if (r) longest = std::max(longest, r->vs.size()); }
  // groups that arrive completely after the burst
  std::vector<int> intact; for (int g = 0; g < gops; g++) if (complete_from(in, first_intact, in.size(), g, s)) intact.push_back(g);
  for (size_t k = 3; k < intact.size(); k++) for (size_t i = first_intact; i < in.size(); i++) if (in[i].is_pic() && in[i].gop == intact[k]) {
    st_eval();
    char c = v.verdict[i];
    // the last group may still wait for the next NAL unit
    if (!c && k + 2 >= intact.size()) continue;
    // with lag 0 a group with pictures behind the SEI of the previous group brings the pairing back in step
    bool realigned = false; for (size_t q = first_intact; q + 1 < i; q++) if (in[q].kind == 'S' && in[q].gop < intact[k] - 1) for (size_t z = q + 1; z < i && in[z].kind != 'I'; z++) if (in[z].is_pic()) realigned = true;
    CHECK(c == '.', legacy_switch ? "legacy_switch" : (lag > 0 || !realigned) && pairing ? "no_recovery_lag" : "no_recovery", "group %d, the %zuth intact one after the burst [%s], has a NAL unit with verdict %c (lag %d): %s", intact[k], k + 1, ch.log.c_str(), c ? c : '-', lag, stream_str(in).c_str());
  }
}

// ---- S08: report accounting over arbitrary histories ----
static char nalu_char(const Nal &n) { switch (n.kind) { case 'a': return '_'; default: return n.kind; } }
struct Account {
  Validator &v; int start = 0, next = 0; size_t done = 0; int acc = -1, left = 0; bool silent = false;   // silent: a call failed since the last report, it hands out none although it may have decided something; left: NAL units that left the list before a signature was seen (they are not counted as validated)
  explicit Account(Validator &v_) : v(v_) {}
  void reset() { start = next = v.base; acc = -1; left = 0; silent = false; }
  void call(SignedVideoReturnCode rc) { if (rc != SV_OK) silent = true; }
  void check() {
    for (; done < v.reps.size(); done++) {
      const Rep &r = v.reps[done];
      st_eval();
      auto ctx = [&]() { return r.ns + " / " + r.vs + " " + auth_name(r.auth) + " acc " + auth_name(r.a_auth) + " fed " + stream_str(Stream(v.fed.begin() + start, v.fed.begin() + r.after)); };
      CHECK(r.vs.size() == r.ns.size(), "strings", "the strings differ in length: %s", ctx().c_str());
      int items = 0, pend = 0; for (char c : r.vs) { items += c != 'M'; pend += c == 'P'; CHECK(strchr(".NMPUE_", c), "status", "unknown status %c", c); }
      if (silent && r.after - items > next) next = r.after - items;
      CHECK(r.after - items == next, "items", "the report lists %d NAL units, %d have been fed since the last one that left the list: %s", items, r.after - next, ctx().c_str());
      for (size_t i = 0; i < r.vs.size(); i++) {
        if (r.vs[i] == 'M') { CHECK(r.ns[i] == ' ', "missing_char", "a missing NAL unit is shown as %c", r.ns[i]); continue; }
        int x = r.at[i]; const Nal &n = v.fed[x];
        if (!n.altered) CHECK(r.ns[i] == nalu_char(n) || (n.kind == 'a' && r.ns[i] == 'o'), "nalu_char", "NAL unit %d (%c) is shown as %c: %s", x, n.kind, r.ns[i], ctx().c_str());
        if (n.is_pic() && !n.altered) CHECK(r.vs[i] != '_', "picture_ignored", "a picture is shown as not part of the validation: %s", ctx().c_str());
        // first decided by an earlier report: must not have changed
        // (a SEI already verified may lose its verdict when the very first validation is undone)
        CHECK(!v.verdict[x] || v.verdict[x] == r.vs[i] || (!n.is_pic() && r.vs[i] == 'U'), "verdict_changed", "NAL unit %d was %c and is now %c: %s", x, v.verdict[x], r.vs[i], ctx().c_str());
      }
      CHECK(r.pend < 0 || r.pend == pend, "pending", "%d pending NAL units reported, %d shown: %s", r.pend, pend, ctx().c_str());
      // what stays in the list: from the first pending one on
      size_t k = 0; while (k < r.vs.size() && r.vs[k] != 'P') k++;
      int stay = (int)(r.vs.size() - k), gone = 0; for (size_t i = 0; i < k; i++) gone += r.vs[i] != 'M';
      if (r.a_auth == SV_AUTH_RESULT_NOT_SIGNED) left += gone;
      next = r.after; for (size_t i = k; i < r.vs.size(); i++) if (r.at[i] >= 0) { next = r.at[i]; break; }
      CHECK((int)r.a_recv == r.after - start, "received", "%u received NAL units reported, %d fed: %s", r.a_recv, r.after - start, ctx().c_str());
      if (r.a_auth != SV_AUTH_RESULT_NOT_SIGNED) {
        CHECK((int)r.a_pend == stay, "acc_pending", "%u accumulated pending, %d shown: %s", r.a_pend, stay, ctx().c_str());
        int missing = 0; for (size_t i = k; i < r.vs.size(); i++) missing += r.vs[i] == 'M';
        CHECK((int)(r.a_val + r.a_pend) - missing + left == (int)r.a_recv, "balance", "%u validated + %u pending (%d of them missing) is not %u received: %s", r.a_val, r.a_pend, missing, r.a_recv, ctx().c_str());
      }
      int rank = r.auth == SV_AUTH_RESULT_VERSION_MISMATCH ? 9 : r.auth;
      if (rank >= SV_AUTH_RESULT_NOT_OK) { if (acc < 0 || rank < acc) acc = rank; }
      if (acc >= 0) CHECK((r.a_auth == SV_AUTH_RESULT_VERSION_MISMATCH ? 9 : r.a_auth) <= acc, "improved", "the accumulated verdict is better than the worst one reported: %s", ctx().c_str());
      if (rank >= SV_AUTH_RESULT_NOT_OK && silent) { int x = r.a_auth == SV_AUTH_RESULT_VERSION_MISMATCH ? 9 : r.a_auth; if (x >= SV_AUTH_RESULT_NOT_OK && x < acc) acc = x; }
      silent = false;
      if (rank >= SV_AUTH_RESULT_NOT_OK) CHECK((r.a_auth == SV_AUTH_RESULT_VERSION_MISMATCH ? 9 : r.a_auth) >= acc, "acc_too_bad", "the accumulated verdict is worse than the worst one reported: %s", ctx().c_str());
      bool plain = r.exp >= 0 && r.vs.find('U') == std::string::npos;
      for (int x : r.at) if (x >= 0 && v.fed[x].altered) plain = false;
      if (r.auth == SV_AUTH_RESULT_OK && plain) {
        int pics = 0; for (size_t i = 0; i < r.vs.size(); i++) if (r.at[i] >= 0 && v.fed[r.at[i]].is_pic() && v.verdict_rep[r.at[i]] == (int)done) pics++;
        CHECK(r.exp == r.recv && r.recv == pics, "ok_counts", "OK with %d expected, %d received, %d decided pictures: %s", r.exp, r.recv, pics, ctx().c_str());
      }
    }
  }
};
SCENARIO(S08) {
  CamCfg cfg = attack_cfg(); random_hsm(); if (chance(1, 10)) cfg.golden = true;
  Stream s = sign_stream(0, cfg, attack_shape()), other;
  if (chance(1, 4)) { CamCfg c2 = cfg; c2.golden = false; if (coin()) c2.key = (cfg.key + 1) % 5; other = sign_stream(1, c2, attack_shape()); }
  Channel ch(s, cfg.codec); if (!other.empty()) ch.other = &other;
  static const Channel::Op ops[] = {&Channel::alter_pic, &Channel::alter_any, &Channel::insert_fake, &Channel::dup, &Channel::swap, &Channel::move, &Channel::alter_sei, &Channel::foreign_pic, &Channel::foreign_gop, &Channel::splice, &Channel::replay_run, &Channel::replace_gop, &Channel::join_recording, &Channel::join_recording, &Channel::swap_sei, &Channel::foreign_sei, &Channel::extras, &Channel::drop_pic, &Channel::drop_run, &Channel::drop_sei, &Channel::delay_sei, &Channel::dup_sei};
  for (int k = choice(chance(1, 4) ? 6 : 3); k > 0 && !ch.s.empty(); k--) (ch.*ops[choice(sizeof ops / sizeof *ops)])();
  ev_printf("stream  %s\narrives %s", stream_str(s).c_str(), stream_str(ch.s).c_str());
  Validator v(cfg.codec, chance(1, 6) ? &keys()[cfg.key].pub : nullptr);
  Account a(v);
  for (auto &n : ch.s) {
    if (!v.fed.empty() && chance(1, 60)) { st_fault("reset"); v.reset(); a.reset(); }
    SignedVideoReturnCode rc; v.feed(n, &rc);
    a.call(rc); a.check();
    if (v.fed.size() > 0 && chance(1, 12)) {
      Rep f = v.final_report(); st_eval();
      CHECK((int)f.a_recv == (int)v.fed.size() - a.start, "final_received", "final report: %u received, %d fed", f.a_recv, (int)v.fed.size() - a.start);
      if (!a.silent && !v.reps.empty() && (int)v.reps.back().after > a.start) CHECK(f.a_auth == v.reps.back().a_auth, "final_verdict", "the final report says %s, the last one %s", auth_name(f.a_auth), auth_name(v.reps.back().a_auth));
    }
  }
}

// ---- S04: the signing key must not change within a session ----
static int other_key(const CamCfg &c) { int n = c.hash == 0 ? 8 : 6, k = (c.key + 1 + (int)choice((uint32_t)n - 1)) % n; return k == c.key ? (k + 1) % n : k; }   // EC P-256, P-384 and, with SHA-256, RSA
SCENARIO(S04) {
  CamCfg cfg = attack_cfg(); random_hsm(); if (chance(1, 6)) cfg.golden = true;
  Shape sh = attack_shape(); sh.max_gops = chance(1, 4) ? 9 : 5;
  Stream s = sign_stream(0, cfg, sh), other, in = s;
  int mode = choice(4), registered = chance(1, 3) ? cfg.key : -1, key_of[2] = {cfg.key, -1}; bool in_sei2 = false;   // 0: one key; 1: another key registered; 2, 3: streams of two cameras joined
  if (chance(1, 8)) { cfg.pub_in_sei = false; in = s = sign_stream(0, cfg, sh); if (!cfg.golden) registered = cfg.key; }
  if (mode == 1) { registered = other_key(cfg); st_fault("wrong_registered_key"); }
  if (mode >= 2) {
    CamCfg c2 = random_cfg(false); c2.parts = 0; c2.codec = cfg.codec; c2.hash = cfg.hash; c2.key = other_key(cfg); c2.golden = chance(1, 6); c2.startcode = 0; if (chance(1, 6)) c2.pub_in_sei = false;
    if (coin()) { c2.level = cfg.level; c2.epb = cfg.epb; c2.set_recurrence = false; }
    key_of[1] = c2.key; in_sei2 = c2.pub_in_sei && !c2.golden && !c2.set_recurrence;
    other = sign_stream(1, c2, sh);
    std::vector<size_t> a, b; for (size_t i = 0; i < s.size(); i++) if (s[i].kind == 'I' || chance(1, 4)) a.push_back(i); for (size_t i = 0; i < other.size(); i++) if (other[i].kind == 'I' || i == 0) b.push_back(i);
    size_t i = a.empty() ? 0 : pick(a), j = pick(b);
    in.assign(s.begin(), s.begin() + i); in.insert(in.end(), other.begin() + j, other.end());
    if (mode == 3 && coin()) { size_t k = i + choice((uint32_t)(in.size() - i) + 1); in.resize(k); in.insert(in.end(), s.begin() + i, s.end()); }   // and back again
    st_fault("key_change");
  }
  Channel ch(in, cfg.codec); bool intact = !chance(1, 3);
  if (!intact) for (int k = range(1, 2); k > 0 && !ch.s.empty(); k--) switch (choice(3)) { case 0: ch.drop_pic(); break; case 1: ch.drop_run(); break; case 2: ch.drop_sei(); break; }
  ev_printf("mode %d registered %d keys %d %d\narrives %s", mode, registered, key_of[0], key_of[1], stream_str(ch.s).c_str());
  Validator v(cfg.codec, registered >= 0 ? &keys()[registered].pub : nullptr);
  bool decided = false; int groups = 0;
  for (auto &n : ch.s) {
    const Rep *r = v.feed(n);
    if (mode == 2 && intact && n.kind == 'S' && n.cam == 1) groups++;
    if (!r) continue;
    st_eval();
    auto ctx = [&]() { return r->ns + " / " + r->vs + " " + auth_name(r->auth) + " acc " + auth_name(r->a_auth) + " fed " + stream_str(v.fed); };
    CHECK(!r->a_keychg || r->a_auth == SV_AUTH_RESULT_NOT_OK, "flag_without_verdict", "the key is reported as changed but the accumulated verdict is %s: %s", auth_name(r->a_auth), ctx().c_str());
    CHECK(!r->keychg || r->auth == SV_AUTH_RESULT_NOT_OK, "flag_with_ok", "the key is reported as changed with verdict %s: %s", auth_name(r->auth), ctx().c_str());
    if (mode == 0) CHECK(!r->keychg && !r->a_keychg, "false_flag", "one key throughout but flagged as changed: %s", ctx().c_str());
    std::set<int> ks; if (registered >= 0) ks.insert(registered);
    for (size_t i = 0; i < v.fed.size(); i++) if (v.verdict[i] == '.' && v.fed[i].is_pic()) ks.insert(key_of[v.fed[i].cam]);
    if (ks.size() > 1) { decided = true; st_probe("two_keys_decided"); CHECK(r->a_auth == SV_AUTH_RESULT_NOT_OK, "change_missed", "video signed with %zu different keys is valid and the accumulated verdict is %s (registered key %d): %s", ks.size(), auth_name(r->a_auth), registered, ctx().c_str()); }
  }
  // Video of another key that follows intact has to be decided, one way or the other.
  bool ok_before = false; for (size_t i = 0; i < v.fed.size(); i++) if (v.verdict[i] == '.' && v.fed[i].is_pic() && v.fed[i].cam == 0) ok_before = true;
  if (ok_before && groups >= 5 && in_sei2) { st_eval(); st_probe("long_second_key"); const Rep &l = v.reps.back(); CHECK(l.a_auth == SV_AUTH_RESULT_NOT_OK, "change_ignored", "%d SEIs made with another key have arrived, the accumulated verdict is still %s: %s / %s fed %s", groups, auth_name(l.a_auth), l.ns.c_str(), l.vs.c_str(), stream_str(v.fed).c_str()); }
  (void)decided;
}

// ---- S05: nothing is authentic without a genuine SEI ----
static void forge(Nal &n, int codec) {
  Bytes old = n.b; RefSei r; for (int h : {32, 48, 64}) { r = ref_parse(n.b, codec, h); if (r.ok) break; }
  if (!r.ok) return;
  n.altered = n.sig_altered = true;
  switch (choice(7)) {
    case 0: for (int k = range(1, 3); k > 0; k--) n.b[r.hdr_off + choice((uint32_t)(r.doc_end - r.hdr_off))] ^= (uint8_t)(1 + choice(255)); st_fault("forge_content"); break;
    case 1: for (size_t i = r.sig_off + 8; i + 1 < n.b.size(); i++) n.b[i] = (uint8_t)(4 + choice(250)); st_fault("forge_signature"); break;
    case 2: { size_t k = r.payload_off + choice((uint32_t)(r.sig_off + 8 + r.sig.size() / 2 - r.payload_off)); n.b.resize(std::max(k, r.hdr_off + 8)); st_fault("forge_truncated"); break; }
    case 3: n.b.resize(r.payload_off + 17); for (uint32_t k = choice(200); k > 0; k--) n.b.push_back((uint8_t)choice(256)); n.b.push_back(0x80); st_fault("forge_random"); break;
    case 4: n.b[r.payload_off + 16] ^= (uint8_t)(1u << choice(8)); st_fault("forge_reserved_byte"); break;
    case 5: n.b[r.sig_off] = (uint8_t)choice(256); st_fault("forge_signature_tag"); if (n.b == old) n.b[r.sig_off] ^= 0x08; break;
    case 6: { size_t i = r.payload_off + 17 + choice((uint32_t)(r.doc_end - r.payload_off - 17)); n.b.erase(n.b.begin() + i, n.b.begin() + std::min(i + 1 + choice(20), r.doc_end)); st_fault("forge_cut_out"); break; }
  }
  if (n.b == old) n.b[r.payload_off + 18] ^= 1;
  if (ev_verbose()) { std::string d = "forged:"; for (size_t i = 0; i < n.b.size() && i < old.size(); i++) if (n.b[i] != old[i]) { char t[64]; snprintf(t, sizeof t, " %zu:%02x->%02x", i, old[i], n.b[i]); d += t; } ev_printf("%s (size %zu was %zu, doc_end %zu sig_off %zu off %zu)", d.c_str(), n.b.size(), old.size(), r.doc_end, r.sig_off, r.payload_off); }
}
SCENARIO(S05) {
  CamCfg cfg = random_cfg(true); random_hsm(); cfg.parts = 0;
  int mode = choice(4);   // 0: no SEIs at all, 1: forged ones, 2: genuine ones whose key is unknown, 3: both forged and none
  if (mode == 2) { cfg.pub_in_sei = false; }
  Stream s = sign_stream(0, cfg, wide_shape()), in;
  for (auto &n : s) {
    Nal x = n;
    if (n.is_sei()) {
      if (mode == 0 || (mode == 3 && coin())) continue;
      if (mode != 2) { forge(x, cfg.codec); if (!x.altered) continue; }
    }
    in.push_back(x);
    if (chance(1, 12)) { Nal y; y.kind = "vza"[choice(3)]; y.b = make_nal(cfg.codec, y.kind, 0, 7, 0, false, 2); in.push_back(y); }
    if (mode != 2 && mode != 0 && n.is_sei() && chance(1, 3)) { Nal y = n; forge(y, cfg.codec); if (y.altered) in.push_back(y); }
  }
  ev_printf("arrives %s", stream_str(in).c_str());
  bool known = mode != 2 && chance(1, 3);
  Validator v(cfg.codec, known ? &keys()[cfg.key].pub : nullptr);
  bool any = false;
  for (auto &n : in) {
    if (!v.fed.empty() && chance(1, 80)) { v.reset(); any = false; }
    const Rep *r = v.feed(n); if (n.is_sei()) any = true;
    if (!r) continue;
    st_eval();
    auto ctx = [&]() { return r->ns + " / " + r->vs + " " + auth_name(r->auth) + " acc " + auth_name(r->a_auth) + " fed " + stream_str(v.fed); };
    for (int a : {r->auth, r->a_auth}) {
      CHECK(a != SV_AUTH_RESULT_OK && a != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "authentic", "no genuine SEI has arrived, yet the verdict is %s: %s", auth_name(a), ctx().c_str());
      if (!any) CHECK(a == SV_AUTH_RESULT_NOT_SIGNED, "not_signed", "no SEI has arrived, yet the verdict is %s: %s", auth_name(a), ctx().c_str());
    }
    for (size_t i = 0; i < r->vs.size(); i++) { int x = r->at[i]; CHECK(r->vs[i] != '.' || mode == 2, "marked_valid", "NAL unit %d is marked valid without a genuine SEI: %s", x, ctx().c_str()); CHECK(r->vs[i] != '.' || v.fed[x].kind == 'S' || v.fed[x].kind == 'G' , "marked_valid", "picture %d is marked valid though the key is unknown: %s", x, ctx().c_str()); }
  }
}

// ---- G05: golden SEIs ----
SCENARIO(G05) {
  CamCfg cfg = random_cfg(); cfg.golden = true; cfg.parts = 0; random_hsm();
  if (chance(1, 2)) for (int i = 0; i < 5; i++) if (cfg.prod[i].size() < 240) cfg.prod[i] += std::string(1 + choice(3), (char)('A' + choice(20)));
  Stream s = sign_stream(0, cfg, wide_shape()), in;
  if (!cfg.epb && coin()) mux_epb(s);
  CHECK(!s.empty() && s[0].kind == 'G', "setup", "no golden SEI");
  Nal golden = s[0]; in.assign(s.begin() + 1, s.end());
  size_t first = 0; while (first < in.size() && in[first].kind != 'S') first++;
  int mode = choice(4);    // 0, 1: intact; 2: lost; 3: altered
  bool reg = chance(1, 3);
  if (mode == 2) st_fault("lose_golden"); else {
    if (mode == 3) { forge(golden, cfg.codec); if (!golden.altered) return; }
    size_t at = coin() ? 0 : choice((uint32_t)first + 1); in.insert(in.begin() + at, golden); if (at) st_fault("late_golden");
  }
  ev_printf("mode %d arrives %s", mode, stream_str(in).c_str());
  Validator v(cfg.codec, reg ? &keys()[cfg.key].pub : nullptr);
  // With the golden mark itself removed it is an ordinary SEI, altered; its key is used as that of any SEI.
  const bool unmarked = mode == 3 && !signed_video_is_golden_sei(v.sv, golden.b.data(), golden.b.size()); if (unmarked) st_probe("golden_mark_removed");
  bool seen_sei = false, seen_golden = false; int waiting = -1; bool ok_seen = false;
  for (size_t i = 0; i < in.size(); i++) {
    const Nal &n = in[i]; SignedVideoReturnCode rc;
    st_eval();
    if (!n.altered) CHECK(signed_video_is_golden_sei(v.sv, n.b.data(), n.b.size()) == (n.kind == 'G'), "is_golden", "signed_video_is_golden_sei is wrong about NAL unit %zu (%c)", i, n.kind);
    const Rep *r = v.feed(n, &rc);
    if (n.is_sei()) seen_sei = true; if (n.kind == 'G') seen_golden = true;
    auto ctx = [&]() { return (r ? r->ns + " / " + r->vs + " " + auth_name(r->auth) : std::string()) + " fed " + stream_str(v.fed); };
    if (mode >= 2) {
      if (r) { if (!reg && !unmarked) CHECK(r->auth != SV_AUTH_RESULT_OK && r->auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "ok_without_golden", "reported %s without an intact golden SEI: %s", auth_name(r->auth), ctx().c_str());
        for (size_t k = 0; k < r->vs.size(); k++) if (r->at[k] >= 0) { const Nal &m = v.fed[r->at[k]]; CHECK(r->vs[k] != '.' || !m.altered, "altered_valid", "the altered golden SEI is marked valid: %s", ctx().c_str()); if (!reg && !unmarked && m.is_pic()) CHECK(r->vs[k] != '.', "valid_without_golden", "a picture is marked valid without an intact golden SEI: %s", ctx().c_str()); } }
      continue;
    }
    CHECK(rc == SV_OK, "rc", "add_nalu_and_authenticate returned %d for an untouched NAL unit (%c)", rc, n.kind);
    if (r) {
      bool ok = !seen_sei ? r->auth == SV_AUTH_RESULT_NOT_SIGNED : n.kind == 'G' ? r->auth == SV_AUTH_RESULT_SIGNATURE_PRESENT : r->auth == SV_AUTH_RESULT_OK;
      CHECK(ok, "verdict", "untouched stream with golden SEI reported %s: %s", auth_name(r->auth), ctx().c_str());
      for (char c : r->vs) CHECK(c == '.' || c == '_' || c == 'P', "status", "untouched stream has status %c: %s", c, ctx().c_str());
      CHECK(!r->keychg && !r->a_keychg, "key_changed", "untouched stream is reported with a changed key");
      if (seen_golden && cfg.set_prod) for (int k = 0; k < 5; k++) CHECK(r->prod[k] == cfg.prod[k], "metadata", "product info %d is '%s' instead of '%s'", k, r->prod[k].c_str(), cfg.prod[k].c_str());
      if (r->auth == SV_AUTH_RESULT_OK) ok_seen = true;
    }
    if (n.kind == 'G') CHECK(r && v.verdict[i] == '.', "golden_verdict", "the golden SEI has verdict %c", r ? v.verdict[i] : '-');
    if (waiting >= 0 && n.is_pic()) { for (size_t k = 0; k <= i; k++) if (in[k].gop >= 0 && in[k].gop <= waiting && (in[k].is_pic() || in[k].kind == 'S')) CHECK(v.verdict[k] == '.', "undecided", "GOP %d: NAL unit %zu has verdict %c after its SEI and the next NAL unit: %s", waiting, k, v.verdict[k] ? v.verdict[k] : '-', ctx().c_str()); waiting = -1; }
    if (n.kind == 'S') waiting = n.gop;
  }
  if (ok_seen) st_probe("golden_stream_ok");
}

// ---- S09: metadata and timestamps ----
SCENARIO(S09) {
  CamCfg cfg = random_cfg(); random_hsm(); cfg.parts = 0;
  if (chance(1, 2)) cfg.ts_mode = 2 + choice(3);
  if (cfg.set_prod && chance(1, 2)) for (int i = 0; i < 5; i++) { cfg.prod[i].clear(); for (uint32_t k = chance(1, 6) ? 254 : choice(12); k > 0; k--) cfg.prod[i] += (char)(chance(1, 6) ? 1 + choice(255) : 'a' + choice(26)); }
  static const int64_t starts[] = {1000000, 0, -1, -5000000, 1700000000000000, INT64_MAX - 100000000, INT64_MIN, 0x0000000300000000, 0x0000010000030000, -80000};
  Camera c(0, cfg); c.ts = starts[choice(10)]; c.start(); run_shape(c, wide_shape()); c.finish();
  Stream s = c.out; if (!cfg.epb && coin()) mux_epb(s);
  std::map<int, const Nal *> iframe; for (auto &n : c.pics) if (n.kind == 'I') iframe[n.gop] = &n;
  Channel ch(s, cfg.codec);
  bool lossy = chance(1, 2);
  if (lossy) for (int k = range(1, 3); k > 0 && !ch.s.empty(); k--) switch (choice(4)) { case 0: ch.drop_pic(); break; case 1: ch.drop_run(); break; case 2: ch.drop_sei(); break; case 3: ch.delay_sei(); break; }
  ev_printf("arrives %s", stream_str(ch.s).c_str());
  Validator v(cfg.codec, chance(1, 4) ? &keys()[cfg.key].pub : nullptr);
  bool have = false; int64_t first = 0, last = 0; bool meta = false;
  for (size_t i = 0; i < ch.s.size(); i++) {
    const Rep *r = v.feed(ch.s[i]);
    if (!r) continue;
    auto ctx = [&]() { return r->ns + " / " + r->vs + " " + auth_name(r->auth) + " fed " + stream_str(v.fed); };
    st_eval();
    CHECK(r->this_v == signed_video_get_version(), "version", "this_version is '%s'", r->this_v.c_str());
    if (r->hts) { if (!have) first = r->ts; last = r->ts; have = true; }
    CHECK(r->a_hts == have && (!have || (r->a_first == first && r->a_last == last)), "accumulated_time", "accumulated timestamps %d %lld %lld, expected %d %lld %lld: %s", r->a_hts, (long long)r->a_first, (long long)r->a_last, have, (long long)first, (long long)last, ctx().c_str());
    if (r->auth != SV_AUTH_RESULT_OK) continue;
    CHECK(r->sign_v == signed_video_get_version(), "version", "version_on_signing_side is '%s'", r->sign_v.c_str());
    // (with a registered key the metadata may come with a later SEI)
    for (auto &n : v.fed) if (n.is_sei()) { RefSei q = ref_parse(n.b, cfg.codec, kHashSizes[cfg.hash]); if (!q.ok || q.has_prod) meta = true; }
    if (cfg.set_prod && meta && !lossy) for (int k = 0; k < 5; k++) CHECK(r->prod[k] == cfg.prod[k], "product_info", "product info %d is '%s' instead of '%s'", k, r->prod[k].c_str(), cfg.prod[k].c_str());
    else for (int k = 0; k < 5; k++) CHECK(r->prod[k].empty() || (cfg.set_prod && r->prod[k] == cfg.prod[k]), "product_info", "product info %d is '%s' instead of '%s'", k, r->prod[k].c_str(), cfg.prod[k].c_str());
    int g = -1; for (size_t k = 0; k < r->vs.size(); k++) { int x = r->at[k]; if (x >= 0 && v.fed[x].kind == 'S' && v.verdict_rep[x] == (int)v.reps.size() - 1 && r->vs[k] == '.') g = v.fed[x].gop; }
    CHECK(g >= 0, "ok_without_sei", "OK without a SEI: %s", ctx().c_str());
    const Nal *nx = iframe.count(g + 1) ? iframe[g + 1] : nullptr; bool want = nx && nx->has_ts; if (nx) st_probe(want ? "with_timestamp" : "without_timestamp");
    CHECK(r->hts == want && (!want || r->ts == nx->ts), "timestamp", "the report on group %d has timestamp %d %lld, provided were %d %lld: %s", g, r->hts, (long long)r->ts, want, nx ? (long long)nx->ts : 0ll, ctx().c_str());
  }
}

// ---- S09p: settings that may be changed while signing ----
namespace { struct { std::string prod[5]; int n = 0, gop = -1; bool prodonly = false; std::map<int, std::array<std::string, 5>> at; } g_chg; }
static void change_one(Camera &c);
static void change_settings(Camera &c) {   // called before each NAL unit; the first of a group closes the one before
  bool first = c.gop != g_chg.gop; g_chg.gop = c.gop; if (chance(1, 6)) change_one(c);
  if (first) g_chg.at[c.gop - 1] = {g_chg.prod[0], g_chg.prod[1], g_chg.prod[2], g_chg.prod[3], g_chg.prod[4]};
}
static void change_one(Camera &c) {
  SignedVideoReturnCode r = SV_OK; int what = g_chg.prodonly ? 0 : (int)choice(5);
  switch (what) {
    case 0: case 1: { int mask = range(1, 31); for (int i = 0; i < 5; i++) if (mask >> i & 1) { g_chg.prod[i].clear(); if (i == 3) g_chg.prod[i] = "M"; for (uint32_t k = chance(1, 8) ? 250 : choice(14); k > 0; k--) g_chg.prod[i] += (char)('a' + choice(26)); }
      r = signed_video_set_product_info(c.sv, g_chg.prod[0].c_str(), g_chg.prod[1].c_str(), g_chg.prod[2].c_str(), g_chg.prod[3].c_str(), g_chg.prod[4].c_str()); c.cfg.set_prod = true; ev_printf("product info changed, serial '%s'", g_chg.prod[2].c_str()); break; }
    case 2: { int l = choice(2); r = signed_video_set_authenticity_level(c.sv, (SignedVideoAuthenticityLevel)l); ev_printf("level %d", l); break; }
    case 3: { size_t m = coin() ? 0 : 200 + choice(600); r = signed_video_set_max_sei_payload_size(c.sv, m); ev_printf("max payload %zu", m); break; }
    case 4: { bool e = coin(); r = signed_video_set_sei_epb(c.sv, e); ev_printf("epb %d", e); break; }
  }
  st_fault(what <= 1 ? "product_info_changed" : what == 2 ? "level_changed" : what == 3 ? "max_payload_changed" : "epb_changed"); g_chg.n++;
  CHECK(r == SV_OK, "refused", "a setting (%d) was refused while signing: %d", what, r);
}
SCENARIO(S09p) {
  CamCfg cfg = random_cfg(false); random_hsm(); cfg.parts = 0; cfg.att.clear(); cfg.chain.clear(); cfg.set_recurrence = false; cfg.recurrence = 1; cfg.prod[3] = "Sim";
  g_chg = {}; g_chg.prodonly = coin(); if (cfg.set_prod) { for (int i = 0; i < 5; i++) g_chg.prod[i] = cfg.prod[i]; }
  Camera c(0, cfg); c.start(); g_frame_time = change_settings; Shape sh = wide_shape(); sh.repeats = false; run_shape(c, sh); g_frame_time = nullptr; c.finish();
  g_chg.at[c.gop] = {g_chg.prod[0], g_chg.prod[1], g_chg.prod[2], g_chg.prod[3], g_chg.prod[4]};
  Stream &s = c.out; ev_printf("stream %s", stream_str(s).c_str());
  Validator v(cfg.codec, chance(1, 4) ? &keys()[cfg.key].pub : nullptr); bool seen = false; std::array<std::string, 5> *told = nullptr; int from = -1;
  for (size_t i = 0; i < s.size(); i++) {
    SignedVideoReturnCode rc; const Rep *r = v.feed(s[i], &rc); st_eval(); if (s[i].is_sei()) seen = true;
    CHECK(rc == SV_OK, "rc", "add_nalu_and_authenticate returned %d for a stream whose settings changed", rc);
    if (!r) continue;
    auto ctx = [&]() { return r->ns + " / " + r->vs + " " + auth_name(r->auth) + " fed " + stream_str(v.fed); };
    CHECK(r->auth == (seen ? SV_AUTH_RESULT_OK : SV_AUTH_RESULT_NOT_SIGNED), "verdict", "settings changed while signing: reported %s: %s", auth_name(r->auth), ctx().c_str());
    for (char q : r->vs) CHECK(q == '.' || q == '_' || q == 'P', "status", "settings changed while signing: status %c: %s", q, ctx().c_str());
    if (r->auth != SV_AUTH_RESULT_OK) continue;
    // the information is that of the last SEI decided
    const Nal *sei = nullptr; for (size_t k = 0; k < r->vs.size(); k++) { int x = r->at[k]; if (x >= 0 && v.fed[x].kind == 'S' && v.verdict_rep[x] == (int)v.reps.size() - 1 && r->vs[k] == '.') sei = &v.fed[x]; }
    if (!sei) continue;
    RefSei q = ref_parse(sei->b, cfg.codec, kHashSizes[cfg.hash]); CHECK(q.ok, "unreadable", "a SEI of a stream whose settings changed cannot be read: %s", q.err.c_str());
    if (q.has_prod) { CHECK(g_chg.at.count(sei->gop), "group", "no group %d", sei->gop); told = &g_chg.at[sei->gop]; from = sei->gop; }   // the SEI at the end of the stream may lack it
    for (int k = 0; k < 5; k++) {
      if (q.has_prod) CHECK(q.prod[k] == (*told)[k], "product_info_signed", "product info %d signed with group %d is '%s', set was '%s'", k, sei->gop, q.prod[k].c_str(), (*told)[k].c_str());
      if (told) CHECK(r->prod[k] == (*told)[k], "product_info", "product info %d reported with group %d is '%s', signed with group %d was '%s': %s", k, sei->gop, r->prod[k].c_str(), from, (*told)[k].c_str(), ctx().c_str());
    }
    note_state(mix64(g_chg.n * 131 + r->vs.size()));
  }
}

// ---- S08r: reports fetched afterwards are those handed out with the NAL unit ----
static std::string rep_text(const Rep &r, bool pending) {
  char b[400]; snprintf(b, sizeof b, "%s / %s %s expected %d received %d pending %d key %d/%d time %d %lld; total %s key %d/%d received %u validated %u", r.ns.c_str(), r.vs.c_str(), auth_name(r.auth), r.exp, r.recv, r.pend, r.pubval, r.keychg, r.hts, r.hts ? (long long)r.ts : 0ll, auth_name(r.a_auth), r.a_pubval, r.a_keychg, r.a_recv, r.a_val);
  std::string t = b; if (pending) t += " pending " + std::to_string(r.a_pend); t += r.a_hts ? " from " + std::to_string(r.a_first) + " to " + std::to_string(r.a_last) : ""; t += " versions " + r.this_v + " " + r.sign_v; for (auto &p : r.prod) t += " '" + p + "'"; return t;
}
SCENARIO(S08r) {
  CamCfg cfg = attack_cfg(); random_hsm(); int codec = cfg.codec; Stream s;
  if (chance(1, 4)) { LegacyCfg c = random_legacy_cfg(); codec = c.codec; s = legacy_stream(0, c, range(2, 6), 5); st_probe("old_format"); } else s = sign_stream(0, cfg, attack_shape());
  Channel ch(s, codec); for (int k = choice(4); k > 0; k--) switch (choice(6)) { case 0: ch.drop_pic(); break; case 1: ch.drop_sei(); break; case 2: ch.alter_pic(); break; case 3: ch.delay_sei(); break; case 4: ch.dup(); break; case 5: ch.alter_sei(); break; }
  Validator v(codec); signed_video_t *quiet = signed_video_create((SignedVideoCodec)codec); CHECK(quiet, "setup", "signed_video_create failed");
  std::string last;
  for (auto &n : ch.s) {
    if (chance(1, 60)) { v.reset(); signed_video_reset(quiet); last.clear(); st_fault("reset"); }
    SignedVideoReturnCode rc, rq; const Rep *r = v.feed(n, &rc); rq = signed_video_add_nalu_and_authenticate(quiet, n.b.data(), n.b.size(), nullptr); st_eval();
    CHECK(rc == rq, "rc", "add_nalu_and_authenticate returned %d with and %d without asking for a report", rc, rq);
    if (!r) continue;
    const std::string want = rep_text(*r, true);
    for (int k = 0; k < 2; k++) {
      signed_video_authenticity_t *a = signed_video_get_authenticity_report(k ? quiet : v.sv); CHECK(a, "report", "get_authenticity_report returned nothing");
      std::string got = rep_text(copy_report(a), true); signed_video_authenticity_report_free(a); st_probe(r->hts ? "fetched_with_time" : "fetched");
      CHECK(got == want, "fetched_report", "the report handed out: %s; the report fetched afterwards%s: %s", want.c_str(), k ? " from a session that was not asked" : "", got.c_str());
    }
    note_state(mix64(std::hash<std::string>()(r->vs)));
  }
  signed_video_free(quiet);
}

// ---- S03h: every hash algorithm the crypto library offers ----
namespace { const char *g_any_hash; bool g_any_ok; }
static void any_hash(Camera &c, int phase) { if (phase != 1) return; SignedVideoReturnCode r = signed_video_set_hash_algo(c.sv, g_any_hash); EV("hash_algo", r); g_any_ok = r == SV_OK; st_probe(g_any_ok ? "hash_accepted" : "hash_refused"); ev_printf("hash %s: %d", g_any_hash, r); }
SCENARIO(S03h) {
  static const char *names[] = {"sha1", "SHA224", "sha224", "sha512-256", "sha512-224", "sha3-224", "sha3-384", "sha3-512", "ripemd160", "md5", "blake2b512", "blake2s256", "sm3", "SHA2-384", "1.3.14.3.2.26", "2.16.840.1.101.3.4.2.4", "2.16.840.1.101.3.4.2.10", "shake128", "shake256", "md4", "whirlpool", "md5-sha1", "null"};
  CamCfg cfg = attack_cfg(); random_hsm(); if (cfg.key >= 6) cfg.key = choice(3); g_any_hash = names[choice(sizeof names / sizeof *names)]; g_configure = any_hash; Shape sh = attack_shape(); sh.long_gops = false; Stream s = sign_stream(0, cfg, sh); g_configure = nullptr;
  if (!cfg.epb && coin()) mux_epb(s);
  if (coin()) { check_untouched(cfg, s, chance(1, 4)); return; }
  Channel ch(s, cfg.codec); static const Channel::Op ops[] = {&Channel::alter_pic, &Channel::insert_fake, &Channel::dup, &Channel::swap, &Channel::move, &Channel::alter_sei}; (ch.*ops[choice(6)])();
  Validator v(cfg.codec); Mon m(v); m.camera(0, s); for (auto &n : ch.s) { v.feed(n); m.check(); }
}
