#include "world.h"
#include "vendor.h"
extern "C" {
#include "includes/sv_vendor_axis_communications.h"
}
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/err.h>

extern "C" EVP_PKEY *__real_PEM_read_bio_PUBKEY(BIO *, EVP_PKEY **, pem_password_cb *, void *);

const char *kHashNames[] = {"sha256", "sha384", "sha512", "sha3-256"};
const int kHashSizes[] = {32, 48, 64, 32};
Hsm g_hsm;
uint64_t g_hsm_failed, g_hsm_refused, g_hsm_signed;
static struct HsmInit { HsmInit() { at_run_start([] { g_hsm = Hsm(); g_hsm_failed = g_hsm_refused = g_hsm_signed = 0; }); } } hsm_init;

std::string CamCfg::str() const {
  char b[256];
  snprintf(b, sizeof b, "codec=%d level=%d hash=%d key=%d rec=%u epb=%d golden=%d pub=%d max=%zu ts=%d poll=%d fb=%d parts=%d sc=%d eos=%d", codec, level, hash, key,
           recurrence, epb, golden, pub_in_sei, max_payload, ts_mode, poll, feedback, parts, startcode, eos);
  return b;
}
static std::string rnd_text(int maxlen) {
  int n = (int)choice(maxlen + 1); std::string s;
  for (int i = 0; i < n; i++) s += (char)('a' + (i * 7 + n) % 26);
  return s;
}
CamCfg random_cfg(bool allow_golden) {
  CamCfg c;
  c.codec = choice(2);
  c.level = coin() ? 0 : 1;
  if (chance(1, 4)) c.hash = 1 + choice(2);
  uint32_t k = choice(42);
  c.key = k < 40 ? k % 5 : k == 40 ? 5 : 6 + choice(2);
  if (c.key >= 6) c.hash = 0;       // RSA keys are used with SHA-256 only
  if (chance(1, 3)) { c.set_recurrence = true; c.recurrence = range(1, 12); }
  if (chance(1, 4)) c.epb = false;
  if (allow_golden && chance(1, 8)) c.golden = true;
  if (chance(1, 5)) c.max_payload = choice(3) == 0 ? range(1, 300) : range(300, 2000);
  c.ts_mode = choice(4) == 0 ? choice(5) : 1;
  if (chance(1, 6)) for (int i = 0; i < 5; i++) c.prod[i] = rnd_text(chance(1, 4) ? 254 : 30);
  else if (chance(1, 10)) c.set_prod = false;
  c.poll = choice(4);
  c.feedback = chance(1, 4);
  c.parts = choice(5) < 3 ? 0 : 1 + choice(2);
  c.startcode = chance(1, 6) ? 1 + choice(2) : 0;
  c.eos = chance(1, 8);
  // A camera of the vendor with its own section in the SEIs, trusted by the validator or not.
  if (c.key < 5 && chance(1, 20)) {
    const uint32_t mode = choice(4);
    if (mode == 0) { c.set_prod = true; c.prod[3] = AXIS_NAME; }
    else { genuine_vendor(c); if (mode > 1) trust_sim_root(); }
    st_probe("vendor_camera");
  }
  return c;
}
void random_hsm() {
  g_hsm = Hsm();
  switch (choice(5)) {
    case 0: break;
    case 1: g_hsm.latency_mode = 1; g_hsm.fixed = range(1, 12); break;
    case 2: g_hsm.latency_mode = 2; g_hsm.maxlat = range(1, 10); break;
    case 3: g_hsm.latency_mode = 2; g_hsm.maxlat = range(10, 40); break;
    case 4: g_hsm.latency_mode = 3; g_hsm.maxlat = range(2, 30); break;
  }
  g_hsm.tick_in_call = g_hsm.latency_mode && chance(1, 4);
}

// Header variants real encoders use: reference importance, picture types, temporal layers, first bits of the slice header.
static void header(Bytes &b, int codec, char kind) {
  const bool var = chance(1, 4); auto v = [&](std::initializer_list<int> l) { std::vector<int> x(l); return (uint8_t)(var ? x[choice((uint32_t)x.size())] : x[0]); };
  const uint8_t prim = v({0x80, 0x88, 0xb8, 0xff, 0x81}), sec = v({0x00, 0x40, 0x7f, 0x0a, 0x01});
  if (codec == 0) {
    switch (kind) {
      case 'I': b.insert(b.end(), {v({0x65, 0x25, 0x45}), prim}); break;
      case 'i': b.insert(b.end(), {v({0x65, 0x25, 0x45}), sec}); break;
      case 'P': b.insert(b.end(), {v({0x01, 0x21, 0x41, 0x61}), prim}); break;
      case 'p': b.insert(b.end(), {v({0x01, 0x21, 0x41, 0x61}), sec}); break;
      case 'v': b.push_back((uint8_t)(choice(2) ? v({0x68, 0x28}) : v({0x67, 0x27, 0x6d, 0x6f}))); break;
      case 'a': b.push_back(v({0x09, 0x0c})); break;
      case 'z': b.insert(b.end(), {0x06, 0x05}); break;
    }
  } else {
    switch (kind) {
      case 'I': b.insert(b.end(), {v({0x26, 0x28, 0x2a, 0x20, 0x22, 0x24}), 0x01, prim}); break;
      case 'i': b.insert(b.end(), {v({0x26, 0x28, 0x2a, 0x20, 0x22, 0x24}), 0x01, sec}); break;
      case 'P': b.insert(b.end(), {v({0x02, 0x00}), v({0x01, 0x02, 0x03}), prim}); break;
      case 'p': b.insert(b.end(), {v({0x02, 0x00}), v({0x01, 0x02, 0x03}), sec}); break;
      case 'v': b.insert(b.end(), {(uint8_t)(choice(2) ? 0x44 : v({0x42, 0x40})), 0x01}); break;
      case 'a': b.insert(b.end(), {v({0x46, 0x4c}), 0x01}); break;
      case 'z': b.insert(b.end(), {v({0x4e, 0x50}), 0x01, 0x05}); break;
    }
  }
}
Bytes make_nal(int codec, char kind, int cam, int pic, int startcode, bool trailing, int extra) {
  Bytes b;
  if (startcode == 0) b = {0, 0, 0, 1}; else if (startcode == 1) b = {0, 0, 1};
  header(b, codec, kind);
  if (kind == 'z') {   // user data unregistered of another kind
    b.push_back(18);
    if (chance(1, 6)) {   // of a kind that differs in one byte only
      static const uint8_t u[16] = {0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x20, 0x56, 0x69, 0x64, 0x65, 0x6f, 0x2e, 0x2e, 0x2e, 0x30}; size_t at = b.size();
      b.insert(b.end(), u, u + 16); const uint32_t k = choice(24); b[at + (k > 15 ? 15 : k)] ^= (uint8_t)(1 + choice(0x0f)); b.push_back((uint8_t)(choice(2) ? 0xa0 : 0x21)); b.push_back((uint8_t)(1 + choice(7))); st_probe("similar_uuid");
    } else
    for (int i = 0; i < 18; i++) b.push_back((uint8_t)(0x40 + i + (pic & 15)));
  } else {
    for (uint32_t v : {(uint32_t)cam + 1, (uint32_t)pic + 1}) for (int s = 0; s < 3; s++) b.push_back((uint8_t)(1 + ((v >> (5 * s)) & 31)));
    for (int i = 0; i < extra; i++) b.push_back((uint8_t)(mix64((uint64_t)pic * 977 + i) % 255 + (i % 5 == 4 ? 0 : 1)));
  }
  b.push_back(0x80);
  if (trailing) for (uint32_t i = choice(3); i > 0; i--) b.push_back(0);
  return b;
}
bool codec_is_primary(int codec, const Bytes &b) {
  size_t i = 0;
  if (b.size() >= 4 && !b[0] && !b[1] && !b[2] && b[3] == 1) i = 4; else if (b.size() >= 3 && !b[0] && !b[1] && b[2] == 1) i = 3;
  i += codec ? 2 : 1;
  return i < b.size() && (b[i] & 0x80);
}

Camera::Camera(int id_, const CamCfg &c) : id(id_), cfg(c) {}
Camera::~Camera() { close(); }
void (*g_settle)(Camera &);
void (*g_frame_time)(Camera &);
void (*g_configure)(Camera &, int);
void Camera::settle() { g_hsm.clock += 100000; if (g_settle) g_settle(*this); }
void Camera::close() { if (sv) { signed_video_free(sv); sv = nullptr; } }
void Camera::start() {
  ev_printf("camera %d: %s", id, cfg.str().c_str());
  if (cfg.ts_mode == 4) { static const int64_t t0[] = {-40000, -80000, -1000000, 0x100000000ll - 80000, 0x7fffffff00000000ll, -0x7fffffff00000000ll, 0x0001000000000000ll - 40000}; ts = t0[choice(7)]; }
  sv = signed_video_create((SignedVideoCodec)cfg.codec);
  CHECK(sv, "setup", "signed_video_create failed");
  if (g_configure) g_configure(*this, 0);
  const KeyPair &k = keys()[cfg.key];
  const std::string &priv = cfg.priv.empty() ? k.priv : cfg.priv;
  SignedVideoReturnCode r = signed_video_set_private_key_new(sv, priv.c_str(), priv.size());
  CHECK(r == SV_OK, "setup", "set_private_key_new rc=%d", r);
  if (cfg.hash) { r = signed_video_set_hash_algo(sv, kHashNames[cfg.hash]); CHECK(r == SV_OK, "setup", "set_hash_algo rc=%d", r); }
  r = signed_video_set_authenticity_level(sv, (SignedVideoAuthenticityLevel)cfg.level); CHECK(r == SV_OK, "setup", "set_authenticity_level rc=%d", r);
  if (cfg.set_recurrence) { r = signed_video_set_recurrence_interval_frames(sv, cfg.recurrence); CHECK(r == SV_OK, "setup", "recurrence rc=%d", r); }
  r = signed_video_set_sei_epb(sv, cfg.epb); CHECK(r == SV_OK, "setup", "epb rc=%d", r);
  r = signed_video_add_public_key_to_sei(sv, cfg.pub_in_sei); CHECK(r == SV_OK, "setup", "pubkey rc=%d", r);
  if (cfg.max_payload) { r = signed_video_set_max_sei_payload_size(sv, cfg.max_payload); CHECK(r == SV_OK, "setup", "max payload rc=%d", r); }
  if (cfg.set_prod) {
    r = signed_video_set_product_info(sv, cfg.prod[0].c_str(), cfg.prod[1].c_str(), cfg.prod[2].c_str(), cfg.prod[3].c_str(), cfg.prod[4].c_str());
    CHECK(r == SV_OK, "setup", "product info rc=%d", r);
  }
  if (!cfg.att.empty() || !cfg.chain.empty()) {
    r = sv_vendor_axis_communications_set_attestation_report(sv, cfg.att.empty() ? nullptr : cfg.att.data(), (uint8_t)cfg.att.size(), cfg.chain.empty() ? nullptr : cfg.chain.c_str());
    CHECK(r == SV_OK, "setup", "set_attestation_report rc=%d", r);
  }
  if (g_configure) g_configure(*this, 1);
  if (cfg.golden) {
    r = signed_video_set_using_golden_sei(sv, true); CHECK(r == SV_OK, "setup", "using golden rc=%d", r);
    r = signed_video_generate_golden_sei(sv); closed++; CHECK(r == SV_OK, "setup", "generate golden rc=%d", r);
    next_sei_gop = -1;   // the golden SEI comes first: the camera waits for it before it streams
    settle();
    int old = cfg.poll; if (old == 2 && coin()) cfg.poll = 0;
    Stream s; while (fetch_all(nullptr, s) > 0) {}
    cfg.poll = old;
    CHECK(s.size() == 1, "golden", "%zu SEIs after generate_golden_sei", s.size());
    out.push_back(s[0]);
  }
}
SignedVideoReturnCode Camera::add(const Nal &n) {
  const int64_t *t = n.has_ts ? &n.ts : nullptr;
  size_t N = n.b.size();
  std::vector<size_t> cuts;
  if (cfg.parts && n.is_pic() && chance(1, cfg.parts == 1 ? 4 : 2)) {
    size_t hdr = (cfg.startcode == 0 ? 4 : cfg.startcode == 1 ? 3 : 0) + 3 + 1;   // the header must be in the first part
    int k = range(1, cfg.parts == 1 ? 1 : 4);
    for (int i = 0; i < k; i++) if (N > hdr + 1) cuts.push_back(hdr + choice((uint32_t)(N - hdr)));
    // the stop bit has to be in the last part: no cut inside the trailing zeros
    size_t lastnz = N; while (lastnz > 0 && n.b[lastnz - 1] == 0) lastnz--;
    std::set<size_t> s; for (size_t c : cuts) if (c < lastnz && c > hdr) s.insert(c);
    cuts.assign(s.begin(), s.end());
    if (!cuts.empty()) st_fault("split_nal");
  }
  size_t p = 0; SignedVideoReturnCode r = SV_OK;
  for (size_t c : cuts) {
    Bytes part(n.b.begin() + p, n.b.begin() + c);
    r = signed_video_add_nalu_part_for_signing_with_timestamp(sv, part.data(), part.size(), t, false);
    EV("part", id, (long long)part.size(), r);
    if (r != SV_OK) { last_err = r; return r; }
    p = c;
  }
  Bytes part(n.b.begin() + p, n.b.end());
  g_hsm.closing = n.kind == 'I' ? n.gop - 1 : -1;
  if (cuts.empty() && !t && coin()) r = signed_video_add_nalu_for_signing(sv, part.data(), part.size());
  else if (cuts.empty()) r = signed_video_add_nalu_for_signing_with_timestamp(sv, part.data(), part.size(), t);
  else r = signed_video_add_nalu_part_for_signing_with_timestamp(sv, part.data(), part.size(), t, true);
  CHECK(std::equal(part.begin(), part.end(), n.b.begin() + p), "input_changed", "adding a NAL unit (%c) for signing changed the caller's data", n.kind);
  EV("add", id, n.kind, n.pic, n.gop, r);
  if (n.kind == 'I' && n.gop > 0 && r == SV_OK) closed++;
  g_hsm.clock++; st_step();
  if (r != SV_OK) last_err = r;
  return r;
}
int Camera::fetch_all(const Nal *peek, Stream &dst) {
  int got = 0;
  if (cfg.poll == 2) {
    Stream tmp;
    for (;;) {
      signed_video_nalu_to_prepend_t np; memset(&np, 0, sizeof np);
      SignedVideoReturnCode r = signed_video_get_nalu_to_prepend(sv, &np);
      if (r != SV_OK) { last_err = r; rcs.push_back(r); EV("fetch_err", id, r); break; }
      if (np.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING) break;
      Nal s; s.b.assign(np.nalu_data, np.nalu_data + np.nalu_data_size); signed_video_nalu_data_free(np.nalu_data);
      s.cam = id; s.kind = 'S'; fetched++;
      tmp.insert(tmp.begin(), s); got++;
    }
    for (auto &s : tmp) { s.gop = next_sei_gop++; if (s.gop < 0) s.kind = 'G'; ev_bytes("sei", s.b.data(), s.b.size()); dst.push_back(s); }
    return got;
  }
  for (;;) {
    size_t n = 0; int off = 0; unsigned pend = 0;
    SignedVideoReturnCode r = signed_video_get_sei(sv, nullptr, &n, &off, peek ? peek->b.data() : nullptr, peek ? peek->b.size() : 0, &pend);
    if (r != SV_OK) { last_err = r; rcs.push_back(r); EV("fetch_err", id, r); break; }
    if (strict_pending) CHECK(pend == (unsigned)(closed - fetched), "pending_seis", "get_sei says %u SEIs are pending, there are %d", pend, closed - fetched);
    if (n == 0) break;
    if (peek) CHECK(codec_is_primary(cfg.codec, peek->b) && peek->is_pic(), "peek", "a SEI is handed out in front of a %c NAL unit that does not start a picture", peek->kind);
    Nal s; s.b.resize(n);
    r = signed_video_get_sei(sv, s.b.data(), &n, &off, peek ? peek->b.data() : nullptr, peek ? peek->b.size() : 0, &pend);
    if (r != SV_OK) { last_err = r; rcs.push_back(r); EV("fetch_err", id, r); break; }
    fetched++;
    if (strict_pending) CHECK(pend == (unsigned)(closed - fetched), "pending_seis", "get_sei says %u SEIs are pending after fetching one, there are %d", pend, closed - fetched);
    CHECK(n == s.b.size(), "sei_size", "get_sei announced %zu bytes and delivered %zu", s.b.size(), n);
    s.cam = id; s.gop = next_sei_gop++; s.kind = s.gop < 0 ? 'G' : 'S'; s.off = off;
    ev_bytes("sei", s.b.data(), s.b.size());
    dst.push_back(s); got++;
    if (chance(1, 50)) break;   // the application may fetch them one at a time
  }
  return got;
}
// Fetches until nothing is left; a failed signature is reported by one call, the next one goes on.
void Camera::fetch_ready(Stream &dst) {
  for (int guard = 0; guard < 1000; guard++) { size_t e = rcs.size(); if (fetch_all(nullptr, dst) == 0 && rcs.size() == e) break; }
}
void Camera::feed(Nal n) {
  if (g_frame_time) g_frame_time(*this);
  if (cfg.poll == 0 || cfg.poll == 3) {
    if (cfg.poll == 0 || chance(2, 3)) {
      Stream s; int k;
      do { k = fetch_all(&n, s); } while (k > 0 && chance(1, 2));
      if (cfg.feedback) for (auto &x : s) { signed_video_add_nalu_for_signing(sv, x.b.data(), x.b.size()); g_hsm.clock++; }
      for (auto &x : s) out.push_back(x);
    }
    SignedVideoReturnCode r = add(n);
    if (r == SV_NOT_SUPPORTED) {   // finished SEIs wait: fetch and repeat, as the documentation says
      st_probe("refused_then_retried");
      Stream s; fetch_ready(s);
      for (auto &x : s) out.push_back(x);
      r = add(n);
    }
    rcs.push_back(r);
    out.push_back(n);
  } else {
    SignedVideoReturnCode r = add(n);
    if (r == SV_NOT_SUPPORTED) {
      Stream s; fetch_ready(s);
      for (auto &x : s) out.push_back(x);
      r = add(n);
    }
    rcs.push_back(r);
    Stream s; int k; do { k = fetch_all(nullptr, s); } while (k > 0 && cfg.poll != 2);
    if (cfg.feedback) for (auto &x : s) { signed_video_add_nalu_for_signing(sv, x.b.data(), x.b.size()); g_hsm.clock++; }
    for (auto &x : s) out.push_back(x);
    out.push_back(n);
  }
}
Nal Camera::next_pic(char kind, const Shape &sh) {
  Nal n; n.kind = kind; n.cam = id;
  if (kind == 'I') { gop++; }
  if (n.is_pic()) { n.gop = gop; n.pic = (int)pics.size(); }
  if (kind == 'I' || kind == 'P') ts = cfg.ts_mode == 2 ? ts + 1 + choice(100000) : cfg.ts_mode == 4 ? (int64_t)((uint64_t)ts + 40000) : ts + 40000;
  if (kind == 'I' || kind == 'P') st_simtime(40000);
  n.ts = ts; n.has_ts = cfg.ts_mode == 3 ? coin() : cfg.ts_mode != 0;
  n.b = make_nal(cfg.codec, kind, id, n.is_pic() ? n.pic : (int)out.size(), cfg.startcode, sh.trailing_zeros && chance(1, 6), chance(1, 3) ? (chance(1, 60) ? (chance(1, 40) ? 65500 + (int)choice(90000) : (int)choice(9000)) : (int)choice(60)) : 3);
  // Rare hashes: the content is varied until the hash starts (or ends) with a zero byte.
  if (kind == 'I' && chance(1, 12)) {
    bool front = coin(); size_t at = n.b.size(); while (at > 0 && n.b[at - 1] == 0) at--; at--;   // in front of the stop bit
    for (uint32_t t = 1; t < 4000; t++) {
      Bytes x = n.b; const uint8_t add[3] = {(uint8_t)(1 + t % 63), (uint8_t)(1 + t / 63), 0x11}; x.insert(x.begin() + at, add, add + 3);
      size_t o, l; ref_strip(x, o, l); Bytes h = ref_hash(cfg.hash, x.data() + o, l);
      if ((front ? h[0] : h.back()) == 0) { n.b = x; st_probe("rare_hash"); break; }
    }
  }
  // Identical pictures, as a still scene gives
  if (sh.repeats && n.is_pic() && chance(1, 8)) { std::vector<int> c; for (size_t i = 0; i < pics.size(); i++) if (pics[i].kind == kind) c.push_back((int)i); if (!c.empty()) { n.b = pics[c[c.size() - 1 - choice((uint32_t)std::min<size_t>(c.size(), 4))]].b; st_probe("identical_picture"); } }
  if (n.is_pic()) pics.push_back(n);
  return n;
}
void run_shape(Camera &c, const Shape &sh) {
  int gops = range(sh.min_gops, sh.max_gops);
  for (int g = 0; g < gops; g++) {
    if (sh.extras && chance(1, 4)) c.feed(c.next_pic('v', sh));
    int frames = range(1, sh.max_len); bool multislice = sh.multislice, extras = sh.extras;
    // rarely a group around the length of the list of hashes a SEI may hold
    if (sh.long_gops && chance(1, 2500)) { frames = 64 * 300 / kHashSizes[c.cfg.hash] - 6 + (int)choice(12); multislice = extras = false; st_probe("long_group"); }
    for (int f = 0; f < frames; f++) {
      if (extras && chance(1, 10)) c.feed(c.next_pic(coin() ? 'z' : 'a', sh));
      c.feed(c.next_pic(f ? 'P' : 'I', sh));
      if (multislice && chance(1, 5)) for (int k = range(1, 2); k > 0; k--) c.feed(c.next_pic(f ? 'p' : 'i', sh));
    }
  }
}
void Camera::finish() {
  if (cfg.eos && gop >= 0) {
    Stream s; while (fetch_all(nullptr, s) > 0) {}
    for (auto &x : s) out.push_back(x);
    SignedVideoReturnCode r = signed_video_set_end_of_stream(sv);
    EV("eos", r);
    CHECK(r == SV_OK, "eos", "signed_video_set_end_of_stream rc=%d", r);
    closed++;
  }
  settle(); g_hsm.stalled_until = 0;
  Stream s; int k; do { k = fetch_all(nullptr, s); } while (k > 0);
  for (auto &x : s) out.push_back(x);
}
Stream sign_stream(int id, const CamCfg &cfg, const Shape &shape, Camera **keep) {
  Camera *c = new Camera(id, cfg);
  c->start();
  run_shape(*c, shape);
  c->finish();
  Stream s = c->out;
  if (keep) *keep = c; else delete c;
  return s;
}
std::string stream_str(const Stream &s) {
  std::string r;
  for (auto &n : s) { r += n.kind; if (n.is_sei()) r += std::to_string(n.gop); else if (n.kind == 'I') r += "(" + std::to_string(n.gop) + ")"; if (n.altered) r += '!'; if (n.cam > 0) r += '\''; }
  return r;
}

// ---- validator ----
const char *auth_name(int a) {
  static const char *n[] = {"NOT_SIGNED", "SIGNATURE_PRESENT", "NOT_OK", "OK_WITH_MISSING_INFO", "OK", "VERSION_MISMATCH"};
  return a >= 0 && a < 6 ? n[a] : "?";
}
static std::string sstr(const char *p) { return p ? p : ""; }
Rep copy_report(const signed_video_authenticity_t *r) {
  Rep o; const signed_video_latest_validation_t &l = r->latest_validation; const signed_video_accumulated_validation_t &a = r->accumulated_validation;
  o.auth = l.authenticity; o.exp = l.number_of_expected_picture_nalus; o.recv = l.number_of_received_picture_nalus; o.pend = l.number_of_pending_picture_nalus;
  o.pubval = l.public_key_validation; o.keychg = l.public_key_has_changed; o.hts = l.has_timestamp; o.ts = l.has_timestamp ? l.timestamp : 0;
  o.vs = sstr(l.validation_str); o.ns = sstr(l.nalu_str); o.this_v = sstr(r->this_version); o.sign_v = sstr(r->version_on_signing_side);
  const char *p[5] = {r->product_info.hardware_id, r->product_info.firmware_version, r->product_info.serial_number, r->product_info.manufacturer, r->product_info.address};
  for (int i = 0; i < 5; i++) { o.prod[i] = sstr(p[i]); o.prod_null[i] = !p[i]; }
  o.a_auth = a.authenticity; o.a_pubval = a.public_key_validation; o.a_keychg = a.public_key_has_changed; o.a_hts = a.has_timestamp;
  o.a_recv = a.number_of_received_nalus; o.a_val = a.number_of_validated_nalus; o.a_pend = a.number_of_pending_nalus;
  o.a_first = a.has_timestamp ? a.first_timestamp : 0; o.a_last = a.has_timestamp ? a.last_timestamp : 0; o.after = 0;
  return o;
}
Validator::Validator(int codec_, const std::string *pub) : codec(codec_) {
  sv = signed_video_create((SignedVideoCodec)codec);
  CHECK(sv, "setup", "signed_video_create failed");
  if (pub) { SignedVideoReturnCode r = signed_video_set_public_key(sv, pub->data(), pub->size()); CHECK(r == SV_OK, "setup", "set_public_key rc=%d", r); }
}
Validator::~Validator() { if (sv) signed_video_free(sv); }
void Validator::reset() {
  SignedVideoReturnCode r = signed_video_reset(sv); EV("reset", r); CHECK(r == SV_OK, "setup", "signed_video_reset rc=%d", r);
  base = (int)fed.size();
}
const Rep *Validator::feed(const Nal &n, SignedVideoReturnCode *rc) {
  signed_video_authenticity_t *a = nullptr;
  fed.push_back(n); verdict.push_back(0); verdict_rep.push_back(-1);
  uint8_t *copy = new uint8_t[n.b.size() ? n.b.size() : 1]; memcpy(copy, n.b.data(), n.b.size());   // exact-size buffer
  SignedVideoReturnCode r = signed_video_add_nalu_and_authenticate(sv, copy, n.b.size(), &a);
  bool same = !memcmp(copy, n.b.data(), n.b.size());
  memset(copy, 0xee, n.b.size());   // the caller's buffer may be reused right away
  delete[] copy;
  CHECK(same, "input_changed", "add_nalu_and_authenticate changed the NAL unit (%c) of the caller", n.kind);
  rcs.push_back(r); if (rc) *rc = r;
  st_step();
  EV("feed", n.kind, n.gop, n.pic, n.altered, r);
  if (ev_verbose() && n.is_sei()) for (int h : {32, 48, 64}) { RefSei q = ref_parse(n.b, codec, h); if (q.ok) ev_printf("  SEI counter %u signs %u NAL units, hash list %zu, key %d, product info %d, crypto %d, epb %d golden %d", q.counter, q.num, q.list.size() / h, q.has_pub, q.has_prod, q.has_crypto, q.epb, q.golden); }
  if (!a) return nullptr;
  Rep p = copy_report(a);
  signed_video_authenticity_report_free(a);
  p.after = (int)fed.size();
  int m = 0; for (char ch : p.vs) if (ch != 'M') m++;
  int f = (int)fed.size() - m;
  if (f < base) { map_ok = false; f = base > (int)fed.size() - m ? (int)fed.size() - m : base; }
  for (char ch : p.vs) p.at.push_back(ch == 'M' ? -1 : f++);
  for (size_t i = 0; i < p.vs.size(); i++) {
    int x = p.at[i]; if (x < 0 || x >= (int)fed.size()) continue;
    if (p.vs[i] != 'P' && !verdict[x]) { verdict[x] = p.vs[i]; verdict_rep[x] = (int)reps.size(); }
  }
  for (char ch : p.vs) ev_hash(ch);
  EV("report", p.auth, p.a_auth, p.keychg, p.exp, p.recv, p.pend);
  if (ev_verbose()) ev_printf("  nalu_str       %s\n  validation_str %s  -> %s acc=%s", p.ns.c_str(), p.vs.c_str(), auth_name(p.auth), auth_name(p.a_auth));
  note_state(mix64(std::hash<std::string>()(p.vs + p.ns) + p.auth * 77 + p.a_auth));
  reps.push_back(p);
  return &reps.back();
}
Rep Validator::final_report() {
  signed_video_authenticity_t *a = signed_video_get_authenticity_report(sv);
  CHECK(a, "report", "get_authenticity_report returned nothing");
  Rep p = copy_report(a);
  signed_video_authenticity_report_free(a);
  p.after = (int)fed.size();
  return p;
}

// ---- reference reader ----
static const uint8_t kUuid[16] = {0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x20, 0x56, 0x69, 0x64, 0x65, 0x6f, 0x2e, 0x2e, 0x2e, 0x30};
RefSei ref_parse(const Bytes &b, int codec, int hs) {
  RefSei r; r.hash_size = hs;
  auto bad = [&](const char *e) { r.ok = false; r.err = e; return r; };
  size_t i = 0;
  if (b.size() >= 4 && !b[0] && !b[1] && !b[2] && b[3] == 1) i = 4; else if (b.size() >= 3 && !b[0] && !b[1] && b[2] == 1) i = 3; else return bad("no start code");
  r.hdr_off = i;
  if (codec == 0) { if (i >= b.size() || b[i] != 6) return bad("not a H.264 SEI"); i += 1; }
  else { if (i + 1 >= b.size() || b[i] != 0x4e || b[i + 1] != 1) return bad("not a H.265 prefix SEI"); i += 2; }
  if (i >= b.size() || b[i++] != 5) return bad("payload type is not user data unregistered");
  size_t ps = 0; while (i < b.size() && b[i] == 0xff) { ps += 255; i++; }
  if (i >= b.size()) return bad("truncated size"); ps += b[i++];
  r.payload_size = ps; r.payload_off = i;
  if (i + 17 > b.size()) return bad("truncated");
  if (memcmp(&b[i], kUuid, 16)) return bad("uuid");
  r.is_sv = true;
  uint8_t res = b[i + 16];
  r.epb = res & 0x80; r.golden = res & 0x40; r.reserved_linked = res & 0x20; r.reserved_gophash = res & 0x10;
  // strip emulation prevention while remembering raw offsets
  std::vector<uint8_t> p; std::vector<size_t> off; int zeros = 0;
  for (size_t k = i; k < b.size(); k++) {
    if (r.epb && zeros >= 2 && b[k] == 3) { zeros = 0; continue; }
    p.push_back(b[k]); off.push_back(k);
    zeros = b[k] == 0 ? zeros + 1 : 0;
  }
  if (p.size() != ps + 1) { r.actual_payload = p.size() - 1; return bad("payload size field does not match the payload"); }
  if (p.back() != 0x80) return bad("no rbsp stop bit");
  r.actual_payload = ps;
  size_t q = 17;
  while (q < ps) {
    int tag = p[q]; size_t start = q; q++;
    size_t len; bool two = tag == 2 || tag == 3 || tag == 4 || tag == 5 || tag == 6 || (tag >= 128);
    if (two) { if (q + 2 > ps) return bad("tlv header"); len = p[q] << 8 | p[q + 1]; q += 2; } else { if (q + 1 > ps) return bad("tlv header"); len = p[q]; q++; }
    if (q + len > ps) return bad("tlv length beyond payload");
    const uint8_t *v = &p[q]; r.order.push_back(tag);
    switch (tag) {
      case 1: {
        r.has_general = true; if (len < 12) return bad("general too short");
        if (v[0] != 3) return bad("general version");
        r.counter = (uint32_t)v[1] << 24 | v[2] << 16 | v[3] << 8 | v[4]; r.num = v[5] << 8 | v[6];
        for (int k = 0; k < 3; k++) r.ver[k] = v[7 + k];
        r.has_ts = v[10] & 1; size_t z = 11;
        if (r.has_ts) { uint64_t t = 0; for (int k = 0; k < 8; k++) t = t << 8 | v[z++]; r.ts = (int64_t)t; }
        if (len != z + 2 * (size_t)hs) return bad("general has wrong length");
        r.linked.assign(v + z, v + z + hs); r.gop_hash.assign(v + z + hs, v + z + 2 * hs);
        break;
      }
      case 2: r.has_pub = true; if (len < 2 || v[0] != 2) return bad("public key version"); r.pub.assign((const char *)v + 1, len - 1); break;
      case 3: {
        r.has_prod = true; size_t z = 0; if (len < 1 || v[z++] != 1) return bad("product info version");
        for (int k = 0; k < 5; k++) { if (z >= len) return bad("product info"); size_t l = v[z++]; if (z + l > len) return bad("product info string"); r.prod[k].assign((const char *)v + z, l); size_t c = r.prod[k].find('\0'); if (c != std::string::npos) r.prod[k].resize(c); z += l; }
        if (z != len) return bad("product info trailing"); break;
      }
      case 4: r.has_list = true; if (len < 1 || v[0] != 1 || (len - 1) % hs) return bad("hash list"); r.list.assign(v + 1, v + len); break;
      case 5: {
        r.has_sig = true; r.sig_off = off[start]; r.doc_end = off[start];
        if (len < 5 || v[0] != 1) return bad("signature"); if (v[2] != 1) { /* hash type: document */ }
        unsigned sl = v[3] << 8 | v[4]; r.sig_field = (unsigned)len - 5; if (sl > len - 5) return bad("signature size"); r.sig.assign(v + 5, v + 5 + sl);
        if (q + len != ps) return bad("signature is not last");
        break;
      }
      case 7: r.has_crypto = true; { if (len < 2 || v[0] != 1 || (size_t)v[1] + 2 != len) return bad("crypto info"); r.oid.assign(v + 2, v + len); } break;
      case 129: r.has_vendor = true; r.vendor.assign(v, v + len); break;
      default: return bad("unknown tag");
    }
    q += len;
  }
  if (q != ps) return bad("trailing bytes");
  r.ok = true;
  return r;
}
Bytes ref_hash(int hi, const uint8_t *p, size_t n) {
  Bytes o(64); unsigned l = 0;
  static std::map<int, EVP_MD *> mds;
  EVP_MD *&md = mds[hi]; if (!md) md = EVP_MD_fetch(nullptr, kHashNames[hi], nullptr);
  if (EVP_Digest(p, n, o.data(), &l, md, nullptr) != 1) sim_internal_error("reference hash failed");
  o.resize(l); return o;
}
extern "C" { BIO *__real_BIO_new_mem_buf(const void *, int); EVP_PKEY *__real_PEM_read_bio_PUBKEY(BIO *, EVP_PKEY **, pem_password_cb *, void *); int __real_BIO_free(BIO *); }
bool ref_verify(const std::string &pub, const Bytes &hash, const Bytes &sig) {
  static std::map<std::string, EVP_PKEY *> cache;
  EVP_PKEY *&k = cache[pub];
  if (!k) { BIO *b = __real_BIO_new_mem_buf(pub.data(), (int)pub.size()); k = __real_PEM_read_bio_PUBKEY(b, nullptr, nullptr, nullptr); __real_BIO_free(b); if (cache.size() > 200) { cache.clear(); return ref_verify(pub, hash, sig); } }
  if (!k) { ERR_clear_error(); return false; }
  EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, nullptr); EVP_PKEY_verify_init(c);
  if (EVP_PKEY_get_base_id(k) == EVP_PKEY_RSA) { EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING); EVP_PKEY_CTX_set_signature_md(c, EVP_sha256()); }
  int r = EVP_PKEY_verify(c, sig.data(), sig.size(), hash.data(), hash.size());
  EVP_PKEY_CTX_free(c); ERR_clear_error();
  return r == 1;
}
void ref_strip(const Bytes &b, size_t &off, size_t &len) {
  off = 0;
  if (b.size() >= 4 && !b[0] && !b[1] && !b[2] && b[3] == 1) off = 4; else if (b.size() >= 3 && !b[0] && !b[1] && b[2] == 1) off = 3;
  size_t e = b.size(); while (e > off && b[e - 1] == 0) e--;
  len = e - off;
}
RefGop ref_gop(const std::vector<const Nal *> &pics, int hi) {
  RefGop g; Bytes ref, all;
  for (size_t i = 0; i < pics.size(); i++) {
    size_t o, l; ref_strip(pics[i]->b, o, l);
    Bytes h = ref_hash(hi, pics[i]->b.data() + o, l);
    if (i == 0) { ref = h; g.ihash = h; }
    else { Bytes t = ref; t.insert(t.end(), h.begin(), h.end()); h = ref_hash(hi, t.data(), t.size()); }
    g.hashes.push_back(h); all.insert(all.end(), h.begin(), h.end());
  }
  g.gop_hash = ref_hash(hi, all.data(), all.size());
  return g;
}
void alter_bytes(Nal &n, bool keep_kind) {
  // Change one or a few bytes behind the header; the result differs from the original in its significant bytes.
  size_t o, l; ref_strip(n.b, o, l);
  size_t first = o + (keep_kind ? 3 : 0);
  if (first >= o + l) first = o + l - 1;
  Bytes old = n.b;
  int k = range(1, 3);
  for (int i = 0; i < k; i++) {
    size_t at = first + choice((uint32_t)(o + l - first));
    n.b[at] ^= (uint8_t)(1 + choice(255));
  }
  size_t o2, l2; ref_strip(n.b, o2, l2);
  if (n.b == old || (l2 == l && o2 == o && !memcmp(&n.b[o], &old[o], l))) n.b[o + l - 1] ^= 0x41;
  n.altered = true;
}

void mux_epb(Stream &s) {
  for (auto &n : s) if (n.is_sei()) {
    Bytes o; size_t i = 0; int zeros = 0;
    if (n.b.size() > 4 && !n.b[0] && !n.b[1] && !n.b[2] && n.b[3] == 1) { o.assign(n.b.begin(), n.b.begin() + 4); i = 4; }
    for (; i < n.b.size(); i++) { if (zeros >= 2 && n.b[i] <= 3) { o.push_back(3); zeros = 0; st_probe("mux_epb"); } o.push_back(n.b[i]); zeros = n.b[i] ? 0 : zeros + 1; }
    n.b = o;
  }
}
