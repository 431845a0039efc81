// Independence of sessions: what a session gets alone is what it gets among others.
#include "world.h"
#include "mon.h"
#include "vendor.h"
#include "legacy.h"
#ifdef SIM_THREADS
#include "simsched.h"
extern "C" {
#include "includes/signed_video_openssl.h"
}
#endif
struct Op { Nal n; bool fetch; std::vector<size_t> cuts; bool reset = false; };
struct Sess5 {
  bool signer; CamCfg cfg; std::vector<Op> ops; bool reg = false, early_close = false;
  signed_video_t *sv = nullptr; size_t pos = 0; bool sync = true;
  std::vector<uint64_t> tr, seis; std::vector<std::string> text;
  void note(const char *what, const uint8_t *p, size_t n, std::vector<uint64_t> &v) {
    uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull;
    v.push_back(mix64(h ^ n ^ (uint64_t)(unsigned char)what[0] << 56)); if (ev_verbose() && &v == &tr) text.push_back(std::string(what) + " " + std::string((const char *)p, n > 200 ? 200 : n));
  }
  void num(const char *what, long long x) { std::string s = std::to_string(x); note(what, (const uint8_t *)s.data(), s.size(), tr); }
  void open() {
    sv = signed_video_create((SignedVideoCodec)cfg.codec); CHECK(sv, "setup", "signed_video_create failed");
    if (signer) {
      const KeyPair &k = keys()[cfg.key];
      num("key", signed_video_set_private_key_new(sv, k.priv.c_str(), k.priv.size()));
      if (cfg.hash) num("hash", signed_video_set_hash_algo(sv, kHashNames[cfg.hash]));
      num("lvl", signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)cfg.level));
      if (cfg.set_recurrence) num("rec", signed_video_set_recurrence_interval_frames(sv, cfg.recurrence));
      num("epb", signed_video_set_sei_epb(sv, cfg.epb));
      if (cfg.max_payload) num("max", signed_video_set_max_sei_payload_size(sv, cfg.max_payload));
      if (cfg.set_prod) num("prod", signed_video_set_product_info(sv, cfg.prod[0].c_str(), cfg.prod[1].c_str(), cfg.prod[2].c_str(), cfg.prod[3].c_str(), cfg.prod[4].c_str()));
      if (!cfg.att.empty()) num("att", sv_vendor_axis_communications_set_attestation_report(sv, cfg.att.data(), (uint8_t)cfg.att.size(), cfg.chain.c_str()));
    } else if (reg) num("pub", signed_video_set_public_key(sv, keys()[cfg.key].pub.data(), keys()[cfg.key].pub.size()));
  }
  void fetch() {
    for (int guard = 0; guard < 200; guard++) {
      size_t n = 0; int off = 0; unsigned pend = 0;
      SignedVideoReturnCode r = signed_video_get_sei(sv, nullptr, &n, &off, nullptr, 0, &pend);
      if (sync) { num("g", r); num("pend", pend); }
      if (r != SV_OK || !n) break;
      Bytes b(n); r = signed_video_get_sei(sv, b.data(), &n, &off, nullptr, 0, &pend);
      if (sync) { num("g", r); num("off", off); note("sei", b.data(), b.size(), tr); }
      note("sei", b.data(), b.size(), seis);
    }
  }
  void step() {
    Op &o = ops[pos++]; st_step();
    const int64_t *t = o.n.has_ts ? &o.n.ts : nullptr;
    if (signer) {
      size_t p = 0; SignedVideoReturnCode r = SV_OK;
      for (size_t c : o.cuts) { Bytes part(o.n.b.begin() + p, o.n.b.begin() + c); r = signed_video_add_nalu_part_for_signing_with_timestamp(sv, part.data(), part.size(), t, false); num("part", r); p = c; }
      Bytes part(o.n.b.begin() + p, o.n.b.end());
      r = o.cuts.empty() ? signed_video_add_nalu_for_signing_with_timestamp(sv, part.data(), part.size(), t) : signed_video_add_nalu_part_for_signing_with_timestamp(sv, part.data(), part.size(), t, true);
      num("add", r);
      if (o.fetch) fetch();
    } else {
      if (o.reset) num("reset", signed_video_reset(sv));
      Bytes b = o.n.b; signed_video_authenticity_t *rep = nullptr;
      num("auth", signed_video_add_nalu_and_authenticate(sv, b.data(), b.size(), &rep));
      if (rep) { report(copy_report(rep)); signed_video_authenticity_report_free(rep); }
    }
  }
  void report(const Rep &r) {
    std::string s = r.ns + "/" + r.vs + "/" + std::to_string(r.auth) + "/" + std::to_string(r.exp) + "/" + std::to_string(r.recv) + "/" + std::to_string(r.pend) + "/" + std::to_string(r.pubval) + "/" + std::to_string(r.keychg) + "/" + std::to_string(r.hts) + "/" + std::to_string(r.ts) + "/" + r.this_v + "/" + r.sign_v;
    for (int i = 0; i < 5; i++) s += "/" + r.prod[i];
    s += "/" + std::to_string(r.a_auth) + "/" + std::to_string(r.a_recv) + "/" + std::to_string(r.a_val) + "/" + std::to_string(r.a_pend) + "/" + std::to_string(r.a_first) + "/" + std::to_string(r.a_last) + "/" + std::to_string(r.a_keychg);
    note("report", (const uint8_t *)s.data(), s.size(), tr); note_state(mix64(tr.back()));
  }
  bool done() { return pos >= ops.size(); }
  void close() {
    if (!signer && !early_close) { signed_video_authenticity_t *rep = signed_video_get_authenticity_report(sv); if (rep) { report(copy_report(rep)); signed_video_authenticity_report_free(rep); } }
    signed_video_free(sv); sv = nullptr;
  }
  void restart() { tr.clear(); seis.clear(); text.clear(); pos = 0; }
};
static Sess5 random_session(int id, int key, int hash) {
  Sess5 s; s.cfg = random_cfg(false); s.cfg.poll = 0; if (key >= 0) { s.cfg.key = key; s.cfg.hash = hash; }
  s.signer = coin(); Shape sh; if (s.cfg.key < 5 && chance(1, 6)) genuine_vendor(s.cfg); sh.max_gops = 5; sh.max_len = 4; sh.long_gops = false; sh.repeats = chance(1, 3);
  if (s.signer) {
    Camera c(id, s.cfg); int gops = range(1, 5);
    for (int g = 0; g < gops; g++) for (int f = range(1, 4), k = 0; k < f; k++) {
      Op o; o.n = c.next_pic(k ? 'P' : 'I', sh); o.fetch = chance(2, 3);
      if (s.cfg.parts && coin()) { size_t N = o.n.b.size(), e = N; while (e > 0 && !o.n.b[e - 1]) e--; if (e > 10) { size_t at = 8 + choice((uint32_t)(e - 9)); if (at < e) o.cuts.push_back(at); } }
      s.ops.push_back(o);
    }
    s.early_close = chance(1, 6);
  } else {
    // made by a camera beforehand; losses and alterations on the way
    static Stream (*make)(int, const CamCfg &, const Shape &, Camera **) = sign_stream;
    Stream st;
    if (chance(1, 5)) { LegacyCfg lc = random_legacy_cfg(); CamCfg nc = s.cfg; nc.codec = lc.codec; s.cfg.codec = lc.codec; s.cfg.key = lc.key; st = legacy_stream(id, lc, range(2, 4), 4); st_probe("old_camera"); if (chance(1, 3)) { Stream more = make(id + 10, nc, sh, nullptr); st.insert(st.end(), more.begin(), more.end()); } }
    else st = make(id, s.cfg, sh, nullptr);
    for (auto &n : st) {
      if (chance(1, 25)) continue;
      Op o; o.n = n; o.fetch = false; o.reset = chance(1, 60);
      if (chance(1, 25)) alter_bytes(o.n, true);
      s.ops.push_back(o);
    }
    s.reg = chance(1, 4); s.early_close = chance(1, 4); s.cfg.codec = chance(1, 40) ? 1 - s.cfg.codec : s.cfg.codec;
  }
  return s;
}
static void compare(const char *how, const Sess5 &s, size_t i, const std::vector<uint64_t> &tr, const std::vector<uint64_t> &seis, const std::vector<std::string> &text) {
  st_eval();
  size_t k = 0; while (k < tr.size() && k < s.tr.size() && tr[k] == s.tr[k]) k++;
  if (ev_verbose() && (k < tr.size() || k < s.tr.size())) ev_printf("alone: %s\namong others: %s", k < text.size() ? text[k].c_str() : "-", k < s.text.size() ? s.text[k].c_str() : "-");
  CHECK(tr == s.tr, "differs", "session %zu (%s) gets something else %s: entry %zu of %zu", i, s.signer ? "signer" : "validator", how, k, tr.size());
  CHECK(seis == s.seis, "seis_differ", "session %zu gets other SEIs %s (%zu, alone %zu)", i, how, s.seis.size(), seis.size());
}
static void solo(Sess5 &s) { s.restart(); s.open(); while (!s.done()) s.step(); s.close(); }
#ifndef SIM_THREADS
static void independent() {
  g_hsm = Hsm(); std::vector<Sess5> v; int n = range(2, 5);
  for (int i = 0; i < n; i++) { v.push_back(random_session(i, -1, 0)); if (chance(1, 4)) { Sess5 twin = v.back(); v.push_back(twin); i++; } }
  std::vector<std::vector<uint64_t>> tr, se; std::vector<std::vector<std::string>> tx;
  for (auto &s : v) { solo(s); tr.push_back(s.tr); se.push_back(s.seis); tx.push_back(s.text); }
  // interleaved, opened and closed at any time
  for (auto &s : v) s.restart();
  std::vector<int> live; for (size_t i = 0; i < v.size(); i++) live.push_back((int)i);
  int burst = 1 + (int)choice(4);
  while (!live.empty()) {
    size_t k = choice((uint32_t)live.size()); Sess5 &s = v[live[k]];
    if (!s.sv) { s.open(); continue; }
    for (int b = 1 + (int)choice(burst); b > 0 && !s.done(); b--) s.step();
    EV("turn", live[k], (long long)s.pos);
    if (s.done()) { s.close(); live.erase(live.begin() + k); }
  }
  for (size_t i = 0; i < v.size(); i++) compare("when interleaved with others", v[i], i, tr[i], se[i], tx[i]);
}
#else
static int hw5(const uint8_t *, size_t) { uint32_t k = choice(4); if (k) { st_fault("hsm_latency"); sim_sleep(1 + choice(k == 1 ? 50 : k == 2 ? 2000 : 100000)); } else sim_yield(); return 0; }
SCENARIO(T05t) {
  bool central = coin(); int key = central ? (int)choice(5) : -1, hash = central ? (int)choice(3) : 0;
  random_sched(false); if (chance(1, 2)) g_sched.mode = 2;
  auto up = [&] { if (!central) return; std::string pk = keys()[key].priv; pem_pkey_t p; memset(&p, 0, sizeof p); p.key = (void *)pk.data(); p.key_size = pk.size(); CHECK(!sv_signing_plugin_init_new(&p), "init", "init failed"); };
  auto down = [&] { if (central) sv_signing_plugin_exit(nullptr); };
  sched_begin(); up();
  std::vector<Sess5> v; int n = range(2, 4);
  static void (*wait)(Camera &) = [](Camera &) { for (int i = 0; i < 20; i++) sim_sleep(5000); };
  g_settle = wait; g_hsm = Hsm();
  for (int i = 0; i < n; i++) v.push_back(random_session(i, key, hash));
  g_settle = nullptr;
  std::vector<std::vector<uint64_t>> tr, se; std::vector<std::vector<std::string>> tx;
  auto body = [](Sess5 &s) { s.open(); while (!s.done()) { s.step(); if (chance(1, 3)) sim_sleep(1 + choice(3000)); } if (s.signer && !s.early_close) { for (int i = 0; i < 60; i++) sim_sleep(110000); s.fetch(); } s.close(); };
  for (auto &s : v) { s.sync = false; s.restart(); body(s); tr.push_back(s.tr); se.push_back(s.seis); tx.push_back(s.text); }
  for (auto &s : v) s.restart();
  g_hsm_hook = hw5;
  std::vector<int> t;
  for (auto &s : v) t.push_back(sim_spawn("session", [&s, body] { body(s); }));
  for (int x : t) sim_join(x);
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i].signer && v[i].early_close) { auto a = v[i].seis, b = se[i]; size_t m = std::min(a.size(), b.size()); a.resize(m); b.resize(m); v[i].seis = a; se[i] = b; }
    compare("on a thread among others", v[i], i, tr[i], se[i], tx[i]);
  }
  down(); sched_end();
}
#endif
#ifndef SIM_THREADS
// ---- T04s: sessions closed anywhere, without threads ----
static void closed_anywhere() {
  g_hsm = Hsm(); const uint64_t crypto0 = crypto_live(); std::vector<Sess5> plan; int n = range(1, 5);
  for (int i = 0; i < n; i++) { plan.push_back(random_session(i, -1, 0)); if (plan.back().signer && chance(1, 4)) { for (auto &o : plan.back().ops) o.fetch = false; if (chance(1, 4)) { auto ops = plan.back().ops; while (plan.back().ops.size() < 130) for (auto &o : ops) plan.back().ops.push_back(o); st_probe("never_fetched_long"); } } }
  random_hsm(); if (coin()) g_hsm.latency_mode = 1 + (int)choice(3);
  alloc_mark();
  struct Left { std::vector<signed_video_authenticity_t *> reps; std::vector<signed_video_nalu_to_prepend_t> sei; };
  {
    std::vector<int> live; std::vector<Left> left(plan.size()); for (size_t i = 0; i < plan.size(); i++) live.push_back((int)i);
    std::vector<int> turns(plan.size(), 0);
    auto close = [&](size_t k) {
      Sess5 &s = plan[live[k]]; EV("close", live[k], (long long)s.pos); st_fault(s.pos == 0 ? "closed_unused" : s.done() ? "closed_at_end" : "closed_early");
      signed_video_free(s.sv); s.sv = nullptr; st_eval();
      // what the session handed out stays usable
      for (auto *r : left[live[k]].reps) { Rep p = copy_report(r); note_state(mix64(std::hash<std::string>()(p.vs) + p.auth + 77)); signed_video_authenticity_report_free(r); }
      left[live[k]].reps.clear();
      if (turns[live[k]]++ < 1 && coin()) { s.restart(); s.ops.erase(s.ops.begin(), s.ops.begin() + choice((uint32_t)s.ops.size() + 1)); return; }   // another session on the same camera or recording
      live.erase(live.begin() + k);
    };
    while (!live.empty()) {
      size_t k = choice((uint32_t)live.size()); Sess5 &s = plan[live[k]];
      if (!s.sv) { s.open(); g_hsm.clock++; if (chance(1, 20)) close(k); continue; }
      if (s.done() || chance(1, s.ops.size() > 100 ? 150 : 25)) { close(k); continue; }
      g_hsm.clock += choice(3);
      if (s.signer) {
        switch (choice(12)) {
          case 0: { Op &o = s.ops[s.pos]; if (o.n.b.size() > 14) { size_t z = 8 + choice((uint32_t)o.n.b.size() - 12); while (z > 8 && !o.n.b[z - 1]) z--; Bytes part(o.n.b.begin(), o.n.b.begin() + z); signed_video_add_nalu_part_for_signing_with_timestamp(s.sv, part.data(), part.size(), nullptr, false); st_fault("half_fed"); if (coin()) { close(k); continue; } s.pos++; break; } s.step(); break; }
          case 1: signed_video_set_end_of_stream(s.sv); st_fault("end_of_stream"); break;
          case 2: { const KeyPair &kp = keys()[s.cfg.key]; signed_video_set_private_key_new(s.sv, kp.priv.c_str(), kp.priv.size()); st_fault("key_again"); break; }
          case 3: if (coin()) signed_video_set_product_info(s.sv, "h", "f", "s", "m", "a"); else signed_video_set_hash_algo(s.sv, kHashNames[s.cfg.hash]); break;
          case 4: { size_t z = 0; unsigned pend = 0; signed_video_get_sei(s.sv, nullptr, &z, nullptr, nullptr, 0, &pend); break; }   // asked for the size only
          case 5: if (chance(1, 3)) signed_video_reset(s.sv); else { signed_video_nalu_to_prepend_t p = {}; if (signed_video_get_nalu_to_prepend(s.sv, &p) == SV_OK && p.nalu_data) signed_video_nalu_data_free(p.nalu_data); } break;
          default: s.step();
        }
      } else {
        switch (choice(12)) {
          case 0: { signed_video_authenticity_t *r = signed_video_get_authenticity_report(s.sv); if (r) left[live[k]].reps.push_back(r); break; }
          case 1: { Bytes b = s.ops[s.pos++].n.b; signed_video_authenticity_t *r = nullptr; signed_video_add_nalu_and_authenticate(s.sv, b.data(), b.size(), &r); if (r) left[live[k]].reps.push_back(r); break; }
          case 2: { Bytes b = s.ops[s.pos++].n.b; signed_video_add_nalu_and_authenticate(s.sv, b.data(), b.size(), nullptr); break; }
          case 3: if (chance(1, 4)) signed_video_set_public_key(s.sv, keys()[s.cfg.key].pub.data(), keys()[s.cfg.key].pub.size()); else s.step(); break;
          default: s.step();
        }
      }
    }
  }
  std::string who; CHECK(alloc_live_since_mark(&who) == 0, "leak", "closed sessions leave memory behind: %s", who.c_str());
  CHECK(crypto_live() == crypto0, "crypto_leak", "closed sessions leave crypto objects behind: %s", crypto_live_who().c_str());
}
SCENARIO(T05) { independent(); }
SCENARIO(T05u) { independent(); }      // with the library's unthreaded plugin
SCENARIO(T04s) { closed_anywhere(); }
SCENARIO(T04u) { closed_anywhere(); }
#endif
