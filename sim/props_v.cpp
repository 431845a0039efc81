// Vendor attestation: when is a key vouched for?
#include "vendor.h"
#include "mon.h"
#include <algorithm>

// |vkey|, |vserial|: the key and serial number the attestation and chain of this camera really vouch for; |attested|: they match the camera's own
struct Seg { CamCfg cfg; bool attested = false, any = false; int vkey = -1; std::string vserial = AXIS_SERIAL_A; std::string what = "genuine"; };
static void flip(Bytes &b, size_t from = 0) { if (b.size() > from) b[from + choice((uint32_t)(b.size() - from))] ^= (uint8_t)(1 + choice(255)); }
// One defect, so that the key must not be vouched for (|any|: unspecified).
static void defect(Seg &s, int kind) {
  CamCfg &c = s.cfg; s.attested = false; s.vkey = -1;
  const std::string &pub = keys()[c.key].pub; const std::string &other = keys()[(c.key + 1) % 5].pub;
  auto leaf = [&](const char *l, const char *w) { c.chain = make_chain(l); s.what = w; };
  switch (kind) {
    case 1: s.vkey = (c.key + 1) % 5; c.att = make_attestation(kvKeyA, kvChipA, other); s.what = "attestation of another key"; break;
    case 2: c.att = make_attestation(kvKeyB, kvChipA, pub); s.what = "attestation by another chip"; break;
    case 3: c.att = make_attestation(kvKeyAttacker, kvChipA, pub); c.chain = make_chain(kvLeafAttacker, kvInter2, kvRoot2); s.what = "foreign root"; break;
    case 4: c.att = make_attestation(kvKeyAttacker, kvChipA, pub); leaf(kvLeafNotByInter, "leaf not signed by the CA"); break;
    case 5: c.att = make_attestation(kvKeyAttacker, kvChipA, pub); c.chain = make_chain(kvLeafByLeaf, kvLeafA, kvInter); s.what = "leaf used as CA"; break;
    case 6: leaf(kvLeafExpired, "expired"); break;
    case 7: leaf(kvLeafFuture, "not yet valid"); break;
    case 8: leaf(kvLeafNoSerial, "no serial number"); break;
    case 9: leaf(kvLeafNoCn, "no common name"); break;
    case 10: leaf(kvLeafOtherCn, "other common name"); break;
    case 11: leaf(kvLeafBadChip, "bad chip id"); if (coin()) { uint8_t chip[18]; memcpy(chip, kvChipA, 18); chip[0] = 0x05; c.att = make_attestation(kvKeyA, chip, pub); s.what = "chip id of another maker"; } break;
    case 12: leaf(kvLeafShortChip, "short chip id"); if (coin()) { uint8_t chip[18]; memcpy(chip, kvChipA, 18); chip[17] = 0; c.att = make_attestation(kvKeyA, chip, pub); } break;
    case 13: leaf(kvLeafRsa, "RSA leaf"); break;
    case 14: flip(c.att, 9); s.what = "altered attestation"; break;
    case 15: c.att.resize(1 + choice((uint32_t)c.att.size() - 1)); s.what = "cut attestation"; break;
    case 16: c.att[8] = (uint8_t)(choice(2) ? 0 : 2 + choice(254)); s.what = "attestation list length"; break;
    case 17: for (uint32_t k = 1 + choice(40); k > 0; k--) c.att.push_back((uint8_t)choice(256)); s.what = "bytes behind the attestation"; break;
    case 18: c.att = make_attestation(kvKeyA, kvChipA, pub, 1 + choice(185)); s.what = "other signed data"; break;
    case 19: { const char *m[] = {"Sim", "axis communications ab", "Axis Communications A", "Axis Communications ABC", ""}; c.prod[3] = m[choice(5)]; s.vkey = c.key; s.what = "other manufacturer"; break; }
    case 20: { const char *m[] = {"ACCC8E000002", "", "Unknown", "ACCC8E00000", "ACCC8E0000011", "accc8e000001"}; c.prod[2] = m[choice(6)]; s.vkey = c.key; s.what = "other serial number"; break; }
    case 21: c.att.clear(); s.what = "no attestation"; break;
    case 22: c.chain.clear(); s.what = "no chain"; break;
    case 23: c.att.clear(); c.chain.clear(); s.what = "no vendor data"; break;
    case 24: c.chain = make_chain(kvLeafA, kvInter2, kvRoot2); s.what = "foreign CA"; break;
    case 25: c.chain = make_chain(kvLeafB); s.what = "chain of another camera"; break;
    case 26: c.chain = make_chain(kvLeafB); c.att = make_attestation(kvKeyB, kvChipB, pub); s.vkey = c.key; s.vserial = "ACCC8E000002"; s.what = "another camera's serial number"; break;
    case 27: c.chain = make_chain(kvLeafB); c.att = make_attestation(kvKeyB, kvChipB, pub); c.prod[2] = "ACCC8E000002"; s.vserial = c.prod[2]; s.vkey = c.key; s.attested = true; s.what = "genuine, another camera"; break;
    case 28: { size_t p = 30 + choice((uint32_t)c.chain.size() / 2); c.chain[p] = c.chain[p] == 'A' ? 'B' : 'A'; s.what = "altered chain"; s.any = c.chain.compare(0, strlen(kvLeafA) - 36, kvLeafA, strlen(kvLeafA) - 36) == 0; break; }   // the last base64 group has unused bits
    case 29: c.chain = std::string(kvInter) + kvLeafA + kvRoot; s.what = "chain out of order"; break;
    case 30: c.chain = std::string(kvLeafA) + kvRoot + kvRoot; s.what = "CA left out"; break;
    case 31: c.chain = std::string(kvRoot) + kvInter + kvRoot; s.what = "root as leaf"; break;
    case 32: c.chain = "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n" + std::string(kvInter) + kvRoot; s.what = "unreadable leaf"; break;
    case 33: leaf(kvLeafLongSerial, "long serial number"); c.prod[2] = "ACCC8E0000010203040506070809"; s.vserial = c.prod[2]; s.vkey = c.key; s.any = true; break;
    case 34: leaf(kvLeafSerial19, "genuine, 19 characters"); c.prod[2] = "ACCC8E0000010203040"; s.vserial = c.prod[2]; s.vkey = c.key; s.attested = true; break;
    case 35: leaf(kvLeafSerial20, "serial number of 20 characters"); c.prod[2] = "ACCC8E00000102030405"; s.vserial = c.prod[2]; s.vkey = c.key; s.any = true; break;
    case 36: c.att = make_attestation(kvKeyA, kvChipB, pub); s.what = "attestation of another chip id"; break;
    case 37: c.chain = std::string(kvLeafA) + kvInter + kvInter2 + kvRoot; s.what = "four certificates"; s.any = true; break;
  }
}
static const int kDefects = 37;
static Shape v_shape() { Shape sh; sh.max_gops = 4; sh.min_gops = 2; sh.max_len = 3; sh.long_gops = false; return sh; }
static CamCfg v_cfg() {
  CamCfg c = random_cfg(); c.parts = 0; c.poll = 0; c.feedback = false; c.startcode = 0;
  for (auto &p : c.prod) if (p.size() > 40) p.resize(40);
  if (chance(2, 3)) { c.set_recurrence = false; c.recurrence = 1; }
  genuine_vendor(c); return c;
}
// What a report has said about the key stays in the accumulated part: a key that was not valid once is never forgotten.
struct Sticky {
  bool bad = false, chg = false;
  void reset() { bad = chg = false; }
  void check(const Rep &r, bool handed_out) {
    if (handed_out) { bad |= r.pubval == SV_PUBKEY_VALIDATION_NOT_OK; chg |= r.keychg; }
    st_eval();
    if (bad) { st_probe("key_not_ok_remembered"); CHECK(r.a_pubval == SV_PUBKEY_VALIDATION_NOT_OK, "forgotten", "a report said that the public key is not valid, the accumulated validation of the key is %d: %s / %s", r.a_pubval, r.ns.c_str(), r.vs.c_str()); }
    if (chg) CHECK(r.a_keychg, "change_forgotten", "a report said that the key has changed, the accumulated part does not: %s / %s", r.ns.c_str(), r.vs.c_str());
  }
};
static void v_check_rep(const Validator &v, const Rep &r, int ri, const std::vector<Seg> &segs, bool trusted, bool &failed) {
  st_eval();
  auto ctx = [&]() { return r.ns + " / " + r.vs + " " + auth_name(r.auth) + " fed " + stream_str(v.fed); };
  for (int pv : {r.pubval, r.a_pubval}) if (pv == SV_PUBKEY_VALIDATION_OK) {
    CHECK(trusted, "untrusted_root", "the key is reported as validated though the root is not the trusted one: %s", ctx().c_str());
    CHECK(pv != r.pubval || r.prod[3] == AXIS_NAME, "manufacturer", "the key is reported as validated for manufacturer '%s'", r.prod[3].c_str());
    CHECK(!failed, "after_failure", "the key is reported as validated after the attestation had failed: %s", ctx().c_str());
    bool one = false; for (auto &s : segs) one |= s.any || (s.vkey >= 0 && (pv != r.pubval || s.vserial == r.prod[2]));
    CHECK(one, "vouched", "the key is reported as validated with %s: %s", segs[0].what.c_str(), ctx().c_str());
    if (pv == r.pubval) {
      st_probe("validated_ok");
      // the pictures this report marks valid were signed with a key that is vouched for, by a camera with that serial number
      for (size_t k = 0; k < r.vs.size(); k++) if (r.vs[k] == '.' && r.at[k] >= 0 && v.verdict_rep[r.at[k]] == ri) {
        const Nal &n = v.fed[r.at[k]]; if (!n.is_pic() || n.cam < 0) continue;
        bool ok = segs[n.cam].any; for (auto &s : segs) if (s.vkey == segs[n.cam].cfg.key && s.vserial == r.prod[2]) ok = true;
        for (auto &s : segs) ok |= s.any;
        // vendor data that comes with the SEI of these very pictures has to be the one that vouches for them
        const Seg &own = segs[n.cam];
        if (!own.any && !own.attested && !own.cfg.att.empty() && !own.cfg.chain.empty() && own.vkey != own.cfg.key)
          for (int q = r.after - 1; q >= 0; q--) if (v.fed[q].kind == 'S' && v.fed[q].cam == n.cam && v.fed[q].gop == n.gop) {
            RefSei x = ref_parse(v.fed[q].b, own.cfg.codec, kHashSizes[own.cfg.hash]);
            st_eval();
            CHECK(!x.ok || !x.has_vendor, "other_attestation", "the key is reported as validated although the SEI of camera %d carries vendor data with a defect (%s): %s", n.cam, own.what.c_str(), ctx().c_str());
            break;
          }
        CHECK(ok, "other_key", "the key is reported as validated but verifies the video of camera %d (%s): %s", n.cam, segs[n.cam].what.c_str(), ctx().c_str());
      }
    }
  }
}
// ---- V01: one camera, with at most one defect ----
SCENARIO(V01) {
  g_hsm = Hsm(); if (chance(1, 4)) random_hsm();
  bool trusted = !chance(1, 12);
  uint64_t crypto0 = crypto_live();
  {
  std::vector<Seg> segs(1); Seg &s = segs[0]; s.cfg = v_cfg(); s.attested = true; s.vkey = s.cfg.key; if (trusted) trust_sim_root(); else g_trust_anchor_pem.clear();
  int kind = chance(1, 3) ? 0 : 1 + choice(kDefects); if (kind) { defect(s, kind); st_fault(("vendor: " + s.what).c_str()); }
  if (kind == 0 && chance(1, 8)) s.cfg.pub_in_sei = false;
  ev_printf("vendor: %s trusted=%d", s.what.c_str(), trusted);
  Stream st = sign_stream(0, s.cfg, v_shape());
  bool reg = !s.cfg.pub_in_sei || chance(1, 4);
  bool lossy = chance(1, 3), failed = false; int resets = 0;
  Validator v(s.cfg.codec, reg ? &keys()[s.cfg.key].pub : nullptr);
  bool any_ok = false, seen = false; Sticky sticky;
  for (auto &n : st) {
    if (lossy && chance(1, 8)) { st_fault("lose"); continue; }
    if (chance(1, 60)) { v.reset(); resets++; sticky.reset(); st_fault("reset"); }
    SignedVideoReturnCode rc; const Rep *r = v.feed(n, &rc);
    if (n.is_sei()) seen = true;
    // (a chain that cannot even be parsed is allowed to be refused)
    if (!lossy && !resets && kind != 28) CHECK(rc == SV_OK, "rc", "add_nalu_and_authenticate returned %d for an untouched NAL unit (%c) with %s", rc, n.kind, s.what.c_str());
    if (!r) continue;
    sticky.check(*r, true);
    v_check_rep(v, *r, (int)v.reps.size() - 1, segs, trusted, failed);
    if (trusted && s.attested && s.cfg.pub_in_sei && !lossy && !resets) {
      // a genuine camera: the key is vouched for as soon as the metadata has arrived
      bool ok = r->auth == SV_AUTH_RESULT_OK || n.kind == 'G';
      if (ok) { any_ok = true; CHECK(r->pubval == SV_PUBKEY_VALIDATION_OK, "not_vouched", "public key validation is %d for a genuine attestation (%s): %s / %s, fed %s", r->pubval, s.what.c_str(), r->ns.c_str(), r->vs.c_str(), stream_str(v.fed).c_str()); }
      if (seen) CHECK(r->auth == SV_AUTH_RESULT_OK || n.kind == 'G', "verdict", "untouched stream of a vendor's camera reported %s", auth_name(r->auth));
    }
    if (trusted && !s.attested && !s.any && r->pubval == SV_PUBKEY_VALIDATION_NOT_OK) failed = true;
  }
  if (any_ok) st_probe("genuine_vouched");
  Rep f = v.final_report(); sticky.check(f, false); f.at.assign(f.vs.size(), -1); v_check_rep(v, f, -1, segs, trusted, failed);
  }
  CHECK(crypto_live() == crypto0, "crypto_leak", "%llu crypto objects are left behind: %s", (unsigned long long)(crypto_live() - crypto0), crypto_live_who().c_str());
}
// ---- several cameras in one session: keys, names and attestations change ----
SCENARIO(V01m) {
  g_hsm = Hsm(); trust_sim_root();
  uint64_t crypto0 = crypto_live();
  {
  int n = range(2, 4); std::vector<Seg> segs(n); CamCfg base = v_cfg(); base.golden = false; int k0 = choice(5), k1 = (k0 + 1 + choice(4)) % 5;
  std::vector<Stream> out(n); Stream all;
  for (int i = 0; i < n; i++) {
    Seg &s = segs[i]; s.cfg = base; s.attested = true; s.cfg.key = i == 0 ? (chance(3, 4) ? k0 : k1) : (coin() ? k1 : k0);
    genuine_vendor(s.cfg); s.what = "genuine"; s.vkey = s.cfg.key;
    switch (choice(6)) {
      case 0: break;
      case 1: s.cfg.att = make_attestation(kvKeyA, kvChipA, keys()[k0].pub); s.attested = s.cfg.key == k0; s.vkey = k0; s.what = "replayed attestation"; break;
      case 2: s.cfg.att.clear(); s.cfg.chain.clear(); s.attested = false; s.vkey = -1; s.what = "no vendor data"; break;
      case 3: s.cfg.att.clear(); s.cfg.chain.clear(); s.cfg.pub_in_sei = i == 0; s.attested = false; s.vkey = -1; s.what = "neither key nor vendor data"; break;
      case 4: s.cfg.prod[3] = "Sim"; s.cfg.att.clear(); s.cfg.chain.clear(); s.attested = false; s.vkey = -1; s.what = "other manufacturer"; break;
      case 5: defect(s, 1 + choice(kDefects)); break;
    }
    if (i && chance(1, 10)) { s.cfg.key = 5 + choice(3); if (s.cfg.key >= 6) s.cfg.hash = 0; s.attested = false; }
    st_fault(("vendor: " + s.what).c_str());
    Shape sh = v_shape(); sh.min_gops = 1; out[i] = sign_stream(i, s.cfg, sh);
    size_t from = 0, to = out[i].size(); if (coin()) { from = choice((uint32_t)to); if (coin()) to = from + choice((uint32_t)(to - from)) + 1; }
    if (i == 0) from = 0;
    all.insert(all.end(), out[i].begin() + from, out[i].begin() + to);
    ev_printf("vendor camera %d: key %d %s", i, s.cfg.key, s.what.c_str());
  }
  // Where all agree on the serial number, a key that is reported as not valid has failed its attestation, for good.
  bool same_serial = true; for (auto &s : segs) same_serial &= s.cfg.prod[2] == AXIS_SERIAL_A && s.vserial == AXIS_SERIAL_A && !s.any;
  bool reg = chance(1, 4), failed = false; Sticky sticky;
  Validator v(base.codec, reg ? &keys()[k0].pub : nullptr);
  for (auto &x : all) {
    if (chance(1, 20)) { st_fault("lose"); continue; }
    if (chance(1, 60)) { v.reset(); failed = false; sticky.reset(); st_fault("reset"); }
    const Rep *r = v.feed(x); if (!r) continue;
    sticky.check(*r, true);
    v_check_rep(v, *r, (int)v.reps.size() - 1, segs, true, failed);
    if (same_serial && r->pubval == SV_PUBKEY_VALIDATION_NOT_OK) { if (!failed) st_probe("attestation_failed"); failed = true; }
  }
  }
  CHECK(crypto_live() == crypto0, "crypto_leak", "%llu crypto objects are left behind: %s", (unsigned long long)(crypto_live() - crypto0), crypto_live_who().c_str());
}
