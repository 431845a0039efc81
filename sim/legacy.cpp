// A signer for the format of the first library versions (1.x), written from the format and calibrated with recorded streams.
#include "legacy.h"
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/err.h>
extern "C" { BIO *__real_BIO_new_mem_buf(const void *, int); int __real_BIO_free(BIO *); EVP_PKEY *__real_PEM_read_bio_PrivateKey(BIO *, EVP_PKEY **, pem_password_cb *, void *);
  EVP_PKEY_CTX *__real_EVP_PKEY_CTX_new(EVP_PKEY *, ENGINE *); void __real_EVP_PKEY_CTX_free(EVP_PKEY_CTX *); int __real_EVP_PKEY_sign_init(EVP_PKEY_CTX *); int __real_EVP_PKEY_sign(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t);
  int __real_EVP_PKEY_CTX_set_rsa_padding(EVP_PKEY_CTX *, int); int __real_EVP_PKEY_CTX_set_signature_md(EVP_PKEY_CTX *, const EVP_MD *); }
static const uint8_t kUuidL[16] = {0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x20, 0x56, 0x69, 0x64, 0x65, 0x6f, 0x2e, 0x2e, 0x2e, 0x30};
static Bytes unhex(const char *s) { Bytes b; for (; s[0] && s[1]; s += 2) { auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; b.push_back((uint8_t)(d(s[0]) << 4 | d(s[1]))); } return b; }
Stream legacy_recorded(int idx) {
  const LegacyRec &r = kLegacyRec[idx]; Stream s; int gop = -1, pic = 0;
  for (const char *h : r.nal) {
    Nal n; n.b = unhex(h); n.cam = 0; int t = r.codec ? n.b[4] >> 1 : n.b[4] & 31;
    if (r.codec ? t == 39 : t == 6) { n.kind = 'S'; n.gop = gop; }
    else { bool i = r.codec ? t == 19 : t == 5; if (i) gop++; n.kind = i ? 'I' : 'P'; n.gop = gop; n.pic = pic++; }
    s.push_back(n);
  }
  return s;
}
Bytes ref_sign(int key, const Bytes &hash) {
  static std::map<int, EVP_PKEY *> cache; EVP_PKEY *&k = cache[key];
  if (!k) { const std::string &p = keys()[key].priv; BIO *b = __real_BIO_new_mem_buf(p.data(), (int)p.size()); k = __real_PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr); __real_BIO_free(b); }
  uint64_t x = (uint64_t)key; for (uint8_t c : hash) x = mix64(x ^ c);
  rng_reseed(x);
  EVP_PKEY_CTX *c = __real_EVP_PKEY_CTX_new(k, nullptr); Bytes o(600); size_t n = o.size(); __real_EVP_PKEY_sign_init(c);
  if (keys()[key].rsa) { __real_EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING); __real_EVP_PKEY_CTX_set_signature_md(c, EVP_sha256()); }
  if (__real_EVP_PKEY_sign(c, o.data(), &n, hash.data(), hash.size()) != 1) sim_internal_error("reference signing failed");
  __real_EVP_PKEY_CTX_free(c); ERR_clear_error(); o.resize(n); return o;
}
static Bytes H(const Bytes &b) { return ref_hash(0, b.data(), b.size()); }
static Bytes cat(const Bytes &a, const Bytes &b) { Bytes c = a; c.insert(c.end(), b.begin(), b.end()); return c; }
static Bytes nal_hash(const Bytes &b) { size_t o, l; ref_strip(b, o, l); return ref_hash(0, b.data() + o, l); }
// The hash state of the old format.
struct LHash { Bytes ref; bool has = false; };
static Bytes l_pic(LHash &h, const Nal &n, Bytes *second) {
  Bytes x = nal_hash(n.b), first = h.has ? H(cat(h.ref, x)) : x;
  if (n.kind == 'I') { h.ref = x; h.has = true; if (second) *second = x; }
  else if (!h.has) first = x;
  return first;
}
static Bytes l_gop(const std::vector<Bytes> &items, const Bytes &doc) { Bytes g = H(Bytes{1}); for (auto &i : items) g = H(cat(g, i)); return H(cat(g, doc)); }
static void add_epb(Bytes &b, size_t from) {
  Bytes o(b.begin(), b.begin() + from); int z = 0;
  for (size_t i = from; i < b.size(); i++) { if (z >= 2 && b[i] <= 3) { o.push_back(3); z = 0; } o.push_back(b[i]); z = b[i] == 0 ? z + 1 : 0; }
  b = o;
}
static void t8(Bytes &b, uint8_t t, const Bytes &v) { b.push_back(t); b.push_back((uint8_t)v.size()); b.insert(b.end(), v.begin(), v.end()); }
static void t16(Bytes &b, uint8_t t, const Bytes &v) { b.push_back(t); b.push_back((uint8_t)(v.size() >> 8)); b.push_back((uint8_t)v.size()); b.insert(b.end(), v.begin(), v.end()); }
static Bytes l_sei(const LegacyCfg &c, uint32_t counter, unsigned num, int64_t ts, bool optional, const std::vector<Bytes> &items, const std::vector<Bytes> &list) {
  Bytes p; size_t sigsz = keys()[c.key].rsa ? 256 : c.key == 5 ? 104 : 72;
  Bytes g{2, (uint8_t)(counter >> 24), (uint8_t)(counter >> 16), (uint8_t)(counter >> 8), (uint8_t)counter, (uint8_t)(num >> 8), (uint8_t)num, (uint8_t)c.ver[0], (uint8_t)c.ver[1], (uint8_t)c.ver[2], (uint8_t)c.ts};
  if (c.ts) for (int i = 7; i >= 0; i--) g.push_back((uint8_t)((uint64_t)ts >> (8 * i)));
  t8(p, 1, g);
  if (optional) {
    Bytes k; if (c.pub2) k = {2}; else k = {1, (uint8_t)!keys()[c.key].rsa}; const std::string &pub = keys()[c.key].pub; k.insert(k.end(), pub.begin(), pub.end()); t16(p, 2, k);
    Bytes d{1}; for (auto &s : c.prod) { d.push_back((uint8_t)(s.size() + 1)); d.insert(d.end(), s.begin(), s.end()); d.push_back(0); } t16(p, 3, d);
    if (c.crypto_tag) t8(p, 7, Bytes{1, 11, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01});
  }
  if (c.arbitrary) t16(p, 6, Bytes{1, 0xde, 0xad, 0, 0, 0, 0, 1});
  if (c.level) { Bytes l{1}; for (auto &h : list) l.insert(l.end(), h.begin(), h.end()); t16(p, 4, l); }
  const size_t payload = 17 + p.size() + 3 + 5 + sigsz;
  Bytes b{0, 0, 0, 1}; if (c.codec) b.insert(b.end(), {0x4e, 1}); else b.push_back(6);
  b.push_back(5); size_t ps = payload; while (ps >= 255) { b.push_back(255); ps -= 255; } b.push_back((uint8_t)ps);
  const size_t from = b.size(); b.insert(b.end(), kUuidL, kUuidL + 16); b.push_back(0x80); b.insert(b.end(), p.begin(), p.end());
  Bytes doc = b; add_epb(doc, from); Bytes dh = ref_hash(0, doc.data() + 4, doc.size() - 4);
  Bytes sig = ref_sign(c.sign_key >= 0 ? c.sign_key : c.key, c.level ? dh : l_gop(items, dh)); const size_t n = sig.size(); sig.resize(sigsz, 1);
  Bytes s{1, 0, (uint8_t)(c.level ? 1 : 0), (uint8_t)(n >> 8), (uint8_t)n}; s.insert(s.end(), sig.begin(), sig.end()); t16(b, 5, s); b.push_back(0x80);
  add_epb(b, from);
  return b;
}
std::string LegacyCfg::str() const { char t[200]; snprintf(t, sizeof t, "legacy codec=%d level=%d key=%d delay=%d ts=%d crypto=%d pub2=%d arb=%d rec=%u c0=%u", codec, level, key, maxdelay, ts, crypto_tag, pub2, arbitrary, recurrence, counter0); return t; }
LegacyCfg random_legacy_cfg() {
  LegacyCfg c; c.codec = choice(2); c.level = 1 - choice(2); static const int ks[] = {0, 1, 2, 6, 7}; c.key = ks[choice(5)];
  if (chance(1, 3)) c.maxdelay = range(1, 6); c.ts = !chance(1, 4); c.crypto_tag = chance(1, 6); c.pub2 = chance(1, 4); c.arbitrary = chance(1, 6);
  if (chance(1, 6)) c.recurrence = range(2, 4);
  if (chance(1, 6)) c.counter0 = choice(2) ? 0xfffffffeu : 0x00010000u + choice(3);
  c.extras = coin(); c.multislice = coin();
  return c;
}
Stream legacy_stream(int id, const LegacyCfg &c, int gops, int max_len) {
  ev_printf("camera %d: %s", id, c.str().c_str());
  Stream out; LHash h; std::vector<Bytes> items; int pic = 0; int64_t ts = 1000000; uint32_t counter = c.counter0;
  struct Pend { Nal n; int wait; }; std::vector<Pend> pend;
  auto emit = [&]() { while (!pend.empty() && pend[0].wait <= 0) { out.push_back(pend[0].n); pend.erase(pend.begin()); } for (auto &p : pend) p.wait--; };
  for (int g = 0; g < gops; g++) {
    int len = range(1, max_len);
    for (int k = 0; k < len; k++) {
      std::string kinds = k == 0 ? "I" : "P"; if (c.multislice && chance(1, 3)) kinds += k == 0 ? 'i' : 'p';
      for (char kind : kinds) {
        Nal n; n.kind = kind; n.cam = id; n.gop = g; n.pic = pic; n.b = make_nal(c.codec, kind, id, pic++, 0, false, (int)choice(6)); n.ts = ts; n.has_ts = true;
        if (kind == 'I') {
          Bytes second, first = l_pic(h, n, &second); items.push_back(first);
          Nal s; s.kind = 'S'; s.cam = id; s.gop = g - 1; s.b = l_sei(c, counter++, (unsigned)items.size(), ts, g % (int)c.recurrence == 0, items, items); s.ts = ts; s.has_ts = c.ts;
          pend.push_back({s, c.maxdelay ? (int)choice(c.maxdelay + 1) : 0}); items = {second};
          emit();
        } else { items.push_back(l_pic(h, n, nullptr)); if (kind == 'P') emit(); }
        out.push_back(n);
      }
      ts += 40000;
      if (c.extras && chance(1, 8)) { Nal z; z.kind = "vza"[choice(3)]; z.b = make_nal(c.codec, z.kind, id, pic, 0, false, 2); out.push_back(z); }
    }
  }
  return out;
}
// ---- reference verification: the signatures of all SEIs fit the pictures ----
bool legacy_verify_stream(const Stream &s, int codec, std::string *why) {
  LHash h; std::vector<Bytes> items; std::vector<std::vector<Bytes>> groups; 
  for (auto &n : s) if (n.is_pic()) { if (n.kind == 'I') { Bytes second; items.push_back(l_pic(h, n, &second)); groups.push_back(items); items = {second}; } else items.push_back(l_pic(h, n, nullptr)); }
  std::string pub;
  for (auto &n : s) if (n.kind == 'S') {
    size_t i = 4 + (codec ? 2 : 1) + 1; while (n.b[i] == 255) i++; i++;
    Bytes p; std::vector<size_t> off; int z = 0;
    for (size_t k = i; k < n.b.size(); k++) { if (z >= 2 && n.b[k] == 3) { z = 0; continue; } p.push_back(n.b[k]); off.push_back(k); z = n.b[k] == 0 ? z + 1 : 0; }
    size_t q = 17; Bytes list, sig; int type = -1; size_t doc = 0;
    while (q + 1 < p.size()) {
      int t = p[q]; bool two = t >= 2 && t <= 6; size_t l = two ? p[q + 1] << 8 | p[q + 2] : p[q + 1]; size_t v = q + (two ? 3 : 2);
      if (t == 2) pub.assign((const char *)&p[v + (p[v] < 2 ? 2 : 1)], l - (p[v] < 2 ? 2 : 1));
      if (t == 4) list.assign(p.begin() + v + 1, p.begin() + v + l);
      if (t == 5) { doc = off[q]; type = p[v + 2]; sig.assign(p.begin() + v + 5, p.begin() + v + 5 + (p[v + 3] << 8 | p[v + 4])); }
      q = v + l;
    }
    Bytes dh = ref_hash(0, &n.b[4], doc - 4); const auto &g = groups[n.gop + 1]; Bytes flat; for (auto &x : g) flat.insert(flat.end(), x.begin(), x.end());
    if (type == 1 && list != flat) { if (why) *why = "hash list of SEI " + std::to_string(n.gop); return false; }
    if (!ref_verify(pub, type == 1 ? dh : l_gop(g, dh), sig)) { if (why) *why = "signature of SEI " + std::to_string(n.gop); return false; }
  }
  return true;
}
