// What the pictures of a camera should lead to, per group, and what an independent reader finds in a SEI.
#pragma once
#include "world.h"
struct GopView { std::vector<const Nal *> pics; RefGop ref; int frames_begin = 0, frames_end = 0; };   // frames: running number of primary slices [begin,end)
static std::vector<GopView> gop_views(const std::vector<Nal> &pics, int hash) {
  std::vector<GopView> v; int fr = 0;
  for (auto &n : pics) {
    if ((int)v.size() <= n.gop) { v.resize(n.gop + 1); v[n.gop].frames_begin = fr; }
    if (n.kind == 'I' || n.kind == 'P') fr++;
    v[n.gop].pics.push_back(&n); v[n.gop].frames_end = fr;
  }
  for (auto &g : v) g.ref = ref_gop(g.pics, hash);
  return v;
}
static int hash_list_max(int hash) { return 64 * 300 / kHashSizes[hash]; }
static std::vector<Nal> seis_of(const Stream &s) { std::vector<Nal> r; for (auto &n : s) if (n.is_sei()) r.push_back(n); return r; }
static void check_signature(const Nal &n, const RefSei &r, const CamCfg &cfg) {
  Bytes h = ref_hash(cfg.hash, n.b.data() + r.hdr_off, r.sig_off - r.hdr_off);
  st_eval();
  CHECK(ref_verify(keys()[cfg.key].pub, h, r.sig), "signature", "the signature of SEI %d does not verify over the bytes in front of it", n.gop);
}
static RefSei parse_or_fail(const Nal &n, const CamCfg &cfg) {
  RefSei r = ref_parse(n.b, cfg.codec, kHashSizes[cfg.hash]);
  note_state(mix64(((((uint64_t)r.num * 2 + r.has_list) * 2 + r.has_pub) * 2 + r.has_ts) * 16 + r.golden * 8 + r.epb * 4 + cfg.codec * 2 + (cfg.hash > 0) + (uint64_t)cfg.key * 1000003 + (uint64_t)(n.b.size() / 16) * 7919));
  CHECK(r.ok, "format", "SEI %d is not readable: %s (%zu bytes)", n.gop, r.err.c_str(), n.b.size());
  return r;
}
