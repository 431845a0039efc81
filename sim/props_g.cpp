// Signer properties: what the real signer hands out, read by an independent reader of the format.
#include "world.h"
#include "mon.h"
#include <algorithm>
#include "gview.h"

static Shape g_shape() {
  Shape sh; sh.max_gops = chance(1, 6) ? 14 : 6; sh.max_len = chance(1, 8) ? 14 : 5;
  if (chance(1, 300)) { sh.max_gops = 3; sh.max_len = 700; st_probe("very_long_gop"); }
  return sh;
}
// ---- G01 ----
SCENARIO(G01) {
  CamCfg cfg = random_cfg(); random_hsm();
  Camera *c; Stream s = sign_stream(0, cfg, g_shape(), &c);
  auto views = gop_views(c->pics, cfg.hash);
  auto seis = seis_of(s);
  size_t want = (views.empty() ? 0 : views.size() - 1) + (cfg.golden ? 1 : 0) + (cfg.eos && !views.empty() ? 1 : 0);
  st_eval();
  CHECK(seis.size() == want, "count", "%zu SEIs for %zu GOPs (golden %d, end of stream %d)", seis.size(), views.size(), cfg.golden, cfg.eos);
  size_t k = 0; uint32_t counter = 0; bool first = true;
  int hs = kHashSizes[cfg.hash];
  if (cfg.golden) {
    RefSei r = parse_or_fail(seis[0], cfg); check_signature(seis[0], r, cfg); k = 1;
    CHECK(r.golden && r.has_pub == cfg.pub_in_sei && (r.has_prod || !cfg.set_prod) && !r.has_general && !r.has_list, "golden_content", "content of the golden SEI: golden %d pub %d prod %d general %d list %d", r.golden, r.has_pub, r.has_prod, r.has_general, r.has_list);
  }
  for (int g = 0; k < seis.size(); k++, g++) {
    const Nal &n = seis[k]; RefSei r = parse_or_fail(n, cfg); const GopView &v = views[g];
    st_eval();
    CHECK(!r.golden, "golden_flag", "SEI %d is marked golden", g);
    CHECK(r.has_general && r.has_sig, "content", "SEI %d lacks general information or signature", g);
    CHECK(first || r.counter == counter + 1, "counter", "SEI %d has counter %u after %u", g, r.counter, counter);
    counter = r.counter; first = false;
    CHECK(r.num == v.pics.size(), "number", "SEI %d signs %u pictures, the GOP has %zu", g, r.num, v.pics.size());
    CHECK(r.gop_hash == v.ref.gop_hash, "gop_hash", "SEI %d: GOP hash is not the hash of the hashes of its pictures", g);
    Bytes link = g ? views[g - 1].ref.ihash : Bytes(hs, 0);
    CHECK(r.linked == link, "linked_hash", "SEI %d: the linked hash is not the hash of the first picture of the previous GOP", g);
    if (r.has_list) {
      Bytes all; for (auto &h : v.ref.hashes) all.insert(all.end(), h.begin(), h.end());
      CHECK(cfg.level == 1 || cfg.golden, "list_at_gop_level", "SEI %d has a hash list at GOP level", g);
      CHECK(r.list == all, "hash_list", "SEI %d: hash list (%zu) differs from the hashes of the pictures (%zu)", g, r.list.size() / hs, v.ref.hashes.size());
    } else CHECK(cfg.level == 0 || cfg.max_payload || (int)v.pics.size() > hash_list_max(cfg.hash), "no_hash_list", "SEI %d at frame level has no hash list", g);
    const Nal *closer = g + 1 < (int)views.size() ? views[g + 1].pics[0] : nullptr;
    CHECK(r.has_ts == (closer && closer->has_ts) && (!r.has_ts || r.ts == closer->ts), "timestamp", "SEI %d has timestamp %d %lld, expected %d %lld", g, r.has_ts, (long long)r.ts, closer && closer->has_ts, closer ? (long long)closer->ts : 0);
    // metadata at least as often as asked for
    int lo = g ? views[g].frames_begin + 1 : 0, hi = closer ? views[g + 1].frames_begin : v.frames_end - 1; bool due = false;
    unsigned rec = cfg.set_recurrence ? cfg.recurrence : 1;
    for (int f = lo; f <= hi; f++) if (f % rec == 0) due = true;
    if (cfg.golden) due = false;
    if (due) CHECK((r.has_prod || !cfg.set_prod) && r.has_pub == cfg.pub_in_sei, "metadata_missing", "SEI %d lacks product information or public key although due every %u frames", g, rec);
    if (r.has_pub) CHECK(r.pub == keys()[cfg.key].pub, "public_key", "SEI %d carries another public key", g);
    if (r.has_prod && cfg.set_prod) for (int i = 0; i < 5; i++) CHECK(r.prod[i] == cfg.prod[i], "product_info", "SEI %d: product info %d is '%s'", g, i, r.prod[i].c_str());
    check_signature(n, r, cfg);
  }
  delete c;
}
// ---- G01r: the signing session is reset and signs the next stream ----
SCENARIO(G01r) {
  CamCfg cfg = random_cfg(false); random_hsm(); cfg.set_recurrence = false; cfg.recurrence = 1; Camera c(0, cfg); c.strict_pending = false; c.start(); const int n = range(2, 4); Validator *same = coin() ? new Validator(cfg.codec) : nullptr;
  for (int k = 0; k < n; k++) {
    if (k) {
      if (c.gop >= 0 && chance(1, 4)) { Nal half = c.next_pic('P', Shape()); c.pics.pop_back(); size_t z = half.b.size() - 2; SignedVideoReturnCode r = signed_video_add_nalu_part_for_signing_with_timestamp(c.sv, half.b.data(), z, nullptr, false); CHECK(r == SV_OK, "part", "rc=%d for a part", r); st_fault("reset_inside_nal"); }
      SignedVideoReturnCode r = signed_video_reset(c.sv); EV("signer_reset", r); CHECK(r == SV_OK, "reset", "the signing session cannot be reset: %d", r); st_fault("signer_reset");
      if (c.cfg.key < 6 && coin()) { c.cfg.hash = choice(3); r = signed_video_set_hash_algo(c.sv, kHashNames[c.cfg.hash]); CHECK(r == SV_OK, "hash_after_reset", "set_hash_algo after a reset gives %d", r); st_fault("hash_changed_after_reset"); }
      if (coin()) { c.cfg.level = choice(2); r = signed_video_set_authenticity_level(c.sv, (SignedVideoAuthenticityLevel)c.cfg.level); CHECK(r == SV_OK, "level", "set_authenticity_level gives %d", r); }
    }
    const size_t from = c.out.size(), pic0 = c.pics.size(); const int g0 = c.gop + 1; c.next_sei_gop = g0; c.cfg.eos = coin();
    Shape sh = g_shape(); sh.max_gops = std::min(sh.max_gops, 5); sh.long_gops = false; run_shape(c, sh); c.finish();
    Stream part(c.out.begin() + from, c.out.end()); std::vector<Nal> pics(c.pics.begin() + pic0, c.pics.end());
    for (auto &x : part) if (x.gop >= g0) x.gop -= g0; for (auto &x : pics) x.gop -= g0;
    auto views = gop_views(pics, c.cfg.hash); auto seis = seis_of(part); ev_printf("session %d: %s", k, stream_str(part).c_str());
    size_t want = (views.empty() ? 0 : views.size() - 1) + (c.cfg.eos && !views.empty() ? 1 : 0); st_eval(); st_probe(k ? "session_after_reset" : "first_session");
    CHECK(seis.size() == want, "count", "%zu SEIs for %zu GOPs after %d resets (end of stream %d)", seis.size(), views.size(), k, c.cfg.eos);
    uint32_t counter = 0; const int hs = kHashSizes[c.cfg.hash];
    for (size_t g = 0; g < seis.size(); g++) {
      RefSei r = parse_or_fail(seis[g], c.cfg); const GopView &v = views[g]; st_eval();
      CHECK(r.has_general && r.has_sig && !r.golden, "content", "SEI %zu after %d resets lacks general information or signature", g, k); CHECK(!g || r.counter == counter + 1, "counter", "SEI %zu has counter %u after %u", g, r.counter, counter); counter = r.counter;
      CHECK(r.num == v.pics.size(), "number", "SEI %zu after %d resets signs %u pictures, the GOP has %zu", g, k, r.num, v.pics.size());
      CHECK(r.gop_hash == v.ref.gop_hash, "gop_hash", "SEI %zu after %d resets: GOP hash is not the hash of the hashes of its pictures", g, k);
      CHECK(r.linked == (g ? views[g - 1].ref.ihash : Bytes(hs, 0)), "linked_hash", "SEI %zu after %d resets: the linked hash is not that of the previous GOP", g, k);
      check_signature(seis[g], r, c.cfg);
    }
    if (!c.cfg.epb && coin()) mux_epb(part);
    check_untouched(c.cfg, part, chance(1, 4));
    if (same) { if (k) same->reset(); for (auto &x : part) { const Rep *r = same->feed(x); if (r) CHECK(r->auth != SV_AUTH_RESULT_NOT_OK && r->auth != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "verdict", "session %d is reported %s: %s / %s", k, auth_name(r->auth), r->ns.c_str(), r->vs.c_str()); } }
    note_state(mix64(k * 7 + views.size() * 131 + c.cfg.hash));
  }
  delete same;
}
// ---- G04 ----
SCENARIO(G04) {
  CamCfg cfg = random_cfg(); random_hsm();
  if (chance(1, 2)) cfg.max_payload = choice(2) ? range(1, 2000) : range(250, 700);
  Camera *c; Stream s = sign_stream(0, cfg, g_shape(), &c);
  auto seis = seis_of(s);
  for (auto &n : seis) {
    const Bytes &b = n.b; st_eval();
    CHECK(b.size() > 30 && !b[0] && !b[1] && !b[2] && b[3] == 1, "start_code", "SEI %d does not start with a start code", n.gop);
    if (cfg.epb) for (size_t i = 4; i + 2 < b.size(); i++)
      CHECK(!(b[i] == 0 && b[i + 1] == 0 && b[i + 2] < 3), "emulation", "SEI %d has 00 00 %02x at %zu of %zu", n.gop, b[i + 2], i, b.size());
    if (cfg.epb) for (size_t i = 4; i + 2 < b.size(); i++) if (b[i] == 0 && b[i + 1] == 0 && b[i + 2] == 3) {
      st_probe("emulation_prevention_byte");
      CHECK(i + 3 < b.size() && b[i + 3] <= 3, "emulation_needless", "SEI %d has an emulation prevention byte in front of %02x", n.gop, i + 3 < b.size() ? b[i + 3] : 0);
    }
    CHECK(b.back() == 0x80, "stop_bit", "SEI %d does not end in a stop bit", n.gop);
    RefSei r = parse_or_fail(n, cfg);
    CHECK(r.epb == cfg.epb, "epb_flag", "SEI %d: emulation prevention flag %d, configured %d", n.gop, r.epb, cfg.epb);
    if (n.off >= 0) CHECK(n.off == (int)r.payload_off, "payload_offset", "SEI %d: payload offset %d, payload starts at %zu", n.gop, n.off, r.payload_off);
    if (cfg.max_payload && r.has_list && !r.golden)
      CHECK(r.payload_size <= cfg.max_payload, "max_size", "SEI %d: payload of %zu bytes with hash list, maximum %zu", n.gop, r.payload_size, cfg.max_payload);
    if (cfg.max_payload && !r.has_list && !r.golden && cfg.level == 1 && (int)r.num <= hash_list_max(cfg.hash)) {
      size_t with = r.payload_size + 1 + 2 + 1 + (size_t)r.num * kHashSizes[cfg.hash];
      CHECK(with > cfg.max_payload, "list_dropped", "SEI %d: hash list left out although %zu bytes fit in %zu", n.gop, with, cfg.max_payload);
      st_probe("hash_list_dropped_for_size");
    }
    CHECK(signed_video_is_golden_sei(c->sv, b.data(), b.size()) == r.golden, "is_golden", "signed_video_is_golden_sei is wrong for SEI %d", n.gop);
  }
  delete c;
}
// ---- G03: the same stream, fed in other portions ----
struct Doc { RefSei r; Bytes signed_part; };
static std::vector<Doc> docs(const Stream &s, const CamCfg &cfg) {
  std::vector<Doc> d;
  for (auto &n : s) if (n.is_sei()) { Doc x; x.r = parse_or_fail(n, cfg); x.signed_part.assign(n.b.begin() + x.r.hdr_off, n.b.begin() + x.r.sig_off); check_signature(n, x.r, cfg); d.push_back(x); }
  return d;
}
static std::vector<Nal> plan_stream(const CamCfg &cfg, const Shape &sh) {
  Camera gen(0, cfg); std::vector<Nal> v;
  int gops = range(sh.min_gops, sh.max_gops);
  for (int g = 0; g < gops; g++) {
    if (sh.extras && chance(1, 4)) v.push_back(gen.next_pic('v', sh));
    int frames = range(1, sh.max_len);
    for (int f = 0; f < frames; f++) {
      if (sh.extras && chance(1, 10)) v.push_back(gen.next_pic(coin() ? 'z' : 'a', sh));
      v.push_back(gen.next_pic(f ? 'P' : 'I', sh));
      if (sh.multislice && chance(1, 5)) for (int k = range(1, 2); k > 0; k--) v.push_back(gen.next_pic(f ? 'p' : 'i', sh));
    }
  }
  return v;
}
static void drain(Camera &c) { Stream s; int k, guard = 0; do { k = c.fetch_all(nullptr, s); } while ((k > 0 || c.rcs.size() > 100000) && ++guard < 1000); for (auto &x : s) c.out.push_back(x); }
// Hands one part to the signer. A refusal because of waiting SEIs is provoked now and then; it must have no effect.
static void put_part(Camera &c, const uint8_t *p, size_t n, const int64_t *t, bool last, bool tease) {
  for (int round = 0;; round++) {
    bool ready = false;
    if (tease && round == 0 && chance(1, 3)) { size_t z = 0; signed_video_get_sei(c.sv, nullptr, &z, nullptr, nullptr, 0, nullptr); ready = z > 0; }   // completes finished SEIs without fetching them
    uint8_t *copy = new uint8_t[n]; memcpy(copy, p, n);
    SignedVideoReturnCode r = last && coin() && round == 0 && false ? SV_OK : signed_video_add_nalu_part_for_signing_with_timestamp(c.sv, copy, n, t, last);
    memset(copy, 0xdd, n); delete[] copy;
    EV("put", (long long)n, last, r);
    if (ready) { st_fault("add_refused"); CHECK(r == SV_NOT_SUPPORTED, "not_refused", "NAL unit accepted (rc %d) while finished SEIs wait to be fetched", r); }
    if (r == SV_NOT_SUPPORTED) { CHECK(round < 3, "refused", "refused again after fetching all SEIs"); drain(c); continue; }
    CHECK(r == SV_OK, "rc", "add_nalu_part rc=%d", r);
    break;
  }
  g_hsm.clock++;
}
static void put(Camera &c, const Nal &n, bool split, bool tease) {
  size_t N = n.b.size(), hdr = (c.cfg.startcode == 0 ? 4 : c.cfg.startcode == 1 ? 3 : 0) + 4;
  size_t lastnz = N; while (lastnz > 0 && n.b[lastnz - 1] == 0) lastnz--;
  std::set<size_t> cuts;
  if (split && n.is_pic() && N > hdr + 1 && chance(1, 2)) for (int k = range(1, chance(1, 10) ? 20 : 4); k > 0; k--) { size_t x = hdr + choice((uint32_t)(N - hdr)); if (x > hdr && x < lastnz) cuts.insert(x); }
  if (!cuts.empty()) st_fault("split_nal");
  const int64_t *t = n.has_ts ? &n.ts : nullptr; size_t p = 0;
  for (size_t x : cuts) { put_part(c, &n.b[p], x - p, t, false, tease); p = x; }
  put_part(c, &n.b[p], N - p, t, true, tease);
}
SCENARIO(G03) {
  CamCfg cfg = random_cfg(); cfg.parts = 0; cfg.feedback = false; cfg.poll = 1; cfg.eos = false;
  Shape sh; sh.max_gops = 6; sh.max_len = 6; sh.min_gops = 2;
  auto plan = plan_stream(cfg, sh);
  auto run = [&](bool whole) {
    g_hsm = Hsm(); if (!whole) random_hsm();
    Camera c(0, cfg); c.strict_pending = false; c.start();
    for (auto &n : plan) {
      put(c, n, !whole, !whole);
      if (whole || chance(3, 4)) { if (!whole && chance(1, 3)) c.cfg.poll = 2; drain(c); c.cfg.poll = 1; }
    }
    if (!whole && chance(1, 8)) { Bytes b = plan.back().b; signed_video_add_nalu_part_for_signing_with_timestamp(c.sv, b.data(), b.size() - 1, nullptr, false); }
    g_hsm.clock += 1000000; g_hsm.stalled_until = 0; drain(c);
    Stream o = c.out; return docs(o, cfg);
  };
  auto a = run(true), b = run(false);
  st_eval();
  CHECK(a.size() == b.size(), "count", "%zu SEIs when fed whole, %zu when fed in parts", a.size(), b.size());
    for (size_t i = 0; i < a.size(); i++) {
    const RefSei &x = a[i].r, &y = b[i].r; st_eval();
    CHECK(x.num == y.num && x.gop_hash == y.gop_hash && x.linked == y.linked && x.list == y.list && x.has_list == y.has_list && x.counter == y.counter && x.has_ts == y.has_ts && x.ts == y.ts, "differs", "SEI %zu differs between feeding whole and in parts: num %u/%u list %zu/%zu ts %lld/%lld", i, x.num, y.num, x.list.size(), y.list.size(), (long long)x.ts, (long long)y.ts);
    CHECK(a[i].signed_part == b[i].signed_part, "bytes_differ", "SEI %zu: signed bytes differ between feeding whole and in parts", i);
  }
}
// ---- G02: the signing hardware fails, refuses, stalls and fills up ----
SCENARIO(G02) {
  CamCfg cfg = random_cfg(false); cfg.eos = false; cfg.golden = false; if (cfg.poll == 3) cfg.poll = 0; cfg.max_payload = 0;
  const bool rare = chance(1, 5); if (rare) { cfg.set_recurrence = true; cfg.recurrence = range(20, 200); }   // the metadata comes once: with the first SEI that can be signed
  random_hsm();
  Shape sh; sh.min_gops = 4; sh.max_gops = 10; sh.max_len = 3;
  bool longstall = chance(1, 12);
  g_hsm.fail_style = 1;
  Camera c(0, cfg); c.strict_pending = false; c.start();
  int calm = -1;
  auto phase = [&](Shape s) { run_shape(c, s); };
  int rounds = range(1, 3);
  for (int i = 0; i < rounds; i++) {
    g_hsm.fail_den = chance(2, 3) ? range(1, 4) : 0; g_hsm.refuse_den = chance(1, 3) ? range(1, 4) : 0; g_hsm.capacity = chance(1, 4) ? (int)range(1, 4) : 1000;
    if (longstall && i == 0) { g_hsm.stalled_until = g_hsm.clock + 400; g_hsm.fail_den = 0; Shape l = sh; l.min_gops = 55; l.max_gops = 80; l.max_len = 2; l.multislice = false; l.extras = false; phase(l); g_hsm.stalled_until = 0; st_fault("hsm_long_stall"); }
    else phase(sh);
    g_hsm.fail_den = g_hsm.refuse_den = 0; g_hsm.capacity = 1000;
    if (coin()) { g_hsm.clock += 1000; g_hsm.stalled_until = 0; calm = c.gop + 1; Shape q = sh; q.min_gops = 6; q.max_gops = 8; phase(q); }
  }
  g_hsm.clock += 1000000; g_hsm.stalled_until = 0;
  { Stream s; size_t e; int k, guard = 0; do { e = c.rcs.size(); k = c.fetch_all(nullptr, s); } while ((k > 0 || c.rcs.size() > e) && ++guard < 1000); for (auto &x : s) c.out.push_back(x); }
  // Metadata that was lost with a failed signature comes again once the failure is known.
  if (rare) {
    g_hsm.latency_mode = 0; g_hsm.tick_in_call = false; calm = c.gop + 1; Shape q = sh; q.min_gops = 6; q.max_gops = 8; phase(q);
    Stream s; while (c.fetch_all(nullptr, s) > 0) {} for (auto &x : s) c.out.push_back(x);
  }
  // every SEI belongs to one group, in order, and its signature is its own
  auto views = gop_views(c.pics, cfg.hash);
  std::vector<int> of_gop(views.size(), -1); int last = -1; int n_sei = 0;
  for (auto &n : c.out) if (n.is_sei()) {
    RefSei r = parse_or_fail(n, cfg); check_signature(n, r, cfg);
    int g = -1; for (size_t k = 0; k < views.size(); k++) if (views[k].ref.gop_hash == r.gop_hash) g = (int)k;
    st_eval(); n_sei++;
    CHECK(g >= 0 && r.num == views[g].pics.size(), "wrong_content", "a SEI (number %d, %u pictures, counter %u) does not describe any group the camera closed (group %d has %zu)", n_sei, r.num, r.counter, g, g >= 0 ? views[g].pics.size() : 0);
    CHECK(g > last, "order", "SEI of group %d comes after that of group %d", g, last);
    CHECK(g == 0 || r.linked == views[g - 1].ref.ihash, "linked_hash", "SEI of group %d is not linked to the previous group", g);
    last = g; of_gop[g] = 1; n.gop = g;
  }
  int missing = 0;
  for (int g = 0; g + 1 < (int)views.size(); g++) {
    int o = g_hsm.outcome.count(g) ? g_hsm.outcome[g] : 3;      // 0 refused 1 good 2 failed 3 never asked
    st_eval();
    CHECK(o != 1 || of_gop[g] == 1, "lost_sei", "group %d was signed without failure but its SEI was not handed out", g);
    CHECK(o == 1 || of_gop[g] != 1, "invented_sei", "group %d has a SEI although its signing failed", g);
    if (o != 1) missing++;
    if (o == 3) { st_probe("sei_buffer_full"); CHECK(longstall, "not_asked", "group %d was never handed to the signing hardware", g); }
  }
  int errs = 0; for (auto r : c.rcs) if (r != SV_OK) errs++;
  CHECK(errs == missing, "silent_failure", "%d groups lack a SEI but %d calls returned an error", missing, errs);
  // and the validator recovers
  if (calm >= 0 && c.gop >= calm + 5 && !longstall) {
    Validator v(cfg.codec); for (auto &n : c.out) v.feed(n);
    int tail = 0; for (int g = c.gop - 1; g >= 0 && of_gop[g] == 1; g--) tail++;
    bool any = false; for (int i = (int)v.reps.size() - 1; i >= 0; i--) if (v.fed[v.reps[i].after - 1].gop >= 0) { any = true; if (tail >= 5) { st_eval(); CHECK(v.reps[i].auth == SV_AUTH_RESULT_OK, "no_recovery", "last report is %s although the last %d groups are signed: %s / %s", auth_name(v.reps[i].auth), tail, v.reps[i].ns.c_str(), v.reps[i].vs.c_str()); } break; }
    (void)any;
  }
}
