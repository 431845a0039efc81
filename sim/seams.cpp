#include "seams.h"
#include <unordered_map>
#include <cstdarg>
#include <openssl/evp.h>
#include <openssl/rand.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <openssl/x509_vfy.h>
#include <openssl/err.h>
#include <openssl/rsa.h>
#include <openssl/core_names.h>
#include <errno.h>

AllocStats g_alloc;
void (*g_free_hook)(void *p, size_t n, void *pc);
FaultArm g_arm;
struct Live { size_t n; uint64_t seq; void *pc; };
static std::unordered_map<void *, Live> &live() { static auto *m = new std::unordered_map<void *, Live>(); return *m; }
static uint64_t g_seq, g_mark;
extern "C" void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n) __attribute__((weak));
void alloc_mark() { g_mark = g_seq; }
static std::string sym(void *pc) {
  char b[256] = "?";
  if (__sanitizer_symbolize_pc) __sanitizer_symbolize_pc(pc, "%f", b, sizeof b);
  return b;
}
uint64_t alloc_live_since_mark(std::string *who) {
  uint64_t n = 0; std::map<uint64_t, std::pair<void *, size_t>> o;
  for (auto &p : live()) if (p.second.seq > g_mark) { n++; o[p.second.seq] = {p.second.pc, p.second.n}; }
  if (who) { int k = 0; for (auto &p : o) { if (k++ >= 4) break; *who += sym(p.second.first) + "(" + std::to_string(p.second.second) + " B) "; } }
  return n;
}
static bool alloc_should_fail() {
  if (g_arm.alloc_in < 0) return false;
  if (g_arm.alloc_in > 0) { g_arm.alloc_in--; return false; }
  if (!g_arm.sticky) g_arm.alloc_in = -1;
  g_arm.alloc_fired++; g_alloc.failed++;
  return true;
}
static bool crypto_should_fail(const char *name) {
  if (g_arm.crypto_in < 0) return false;
  if (g_arm.crypto_in > 0) { g_arm.crypto_in--; return false; }
  if (!g_arm.sticky) g_arm.crypto_in = -1;
  g_arm.crypto_fired++; g_arm.what = name;
  if (ev_verbose()) ev_printf("fault: crypto call %s fails", name);
  return true;
}
void faults_disarm() { g_arm = FaultArm(); }
static void track(void *p, size_t n, void *pc) { if (p) { live()[p] = Live{n, ++g_seq, pc}; g_alloc.live++; } g_alloc.calls++; }
static void untrack(void *p) { if (p && live().erase(p)) g_alloc.live--; }
static void freeing(void *p, void *pc) { if (p && g_free_hook) { auto it = live().find(p); if (it != live().end()) g_free_hook(p, it->second.n, pc); } }
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) {
  if (alloc_should_fail()) { if (ev_verbose()) ev_printf("fault: malloc(%zu) in %s fails", n, sym(__builtin_return_address(0)).c_str()); return nullptr; }
  void *p = __real_malloc(n); if (p) memset(p, 0xa5, n);   // deterministic content of fresh memory
  track(p, n, __builtin_return_address(0)); return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  if (alloc_should_fail()) { if (ev_verbose()) ev_printf("fault: calloc(%zu,%zu) in %s fails", a, b, sym(__builtin_return_address(0)).c_str()); return nullptr; }
  void *p = __real_calloc(a, b); track(p, a * b, __builtin_return_address(0)); return p;
}
void *__wrap_realloc(void *o, size_t n) {
  if (alloc_should_fail()) { if (ev_verbose()) ev_printf("fault: realloc(%zu) in %s fails", n, sym(__builtin_return_address(0)).c_str()); return nullptr; }
  freeing(o, __builtin_return_address(0));
  void *p = __real_realloc(o, n); if (p || n == 0) untrack(o); track(p, n, __builtin_return_address(0)); return p;
}
void __wrap_free(void *p) { freeing(p, __builtin_return_address(0)); untrack(p); __real_free(p); }
char *__wrap_strdup(const char *s) {
  size_t n = strlen(s) + 1; if (alloc_should_fail()) return nullptr;
  char *p = (char *)__real_malloc(n); memcpy(p, s, n); track(p, n, __builtin_return_address(0)); return p;
}
}

// ---- crypto objects ----
// reference counts are followed per pointer: a shared object is live until every reference is gone
struct Obj { int n = 0; const char *what = ""; void *pc = nullptr; };
static std::unordered_map<const void *, Obj> &objs() { static auto *m = new std::unordered_map<const void *, Obj>(); return *m; }
static void obj_add_(const void *p, const char *what, void *pc) { if (p) { Obj &o = objs()[p]; o.n++; o.what = what; o.pc = pc; } }
#define obj_add(p) obj_add_(p, __func__ + 7, __builtin_return_address(0))
static void obj_del(const void *p) { if (p) { auto it = objs().find(p); if (it != objs().end() && --it->second.n <= 0) objs().erase(it); } }
uint64_t crypto_live() { return objs().size(); }
std::string crypto_live_who() { std::string s; int k = 0; for (auto &o : objs()) if (k++ < 4) s += std::string(o.second.what) + " in " + sym(o.second.pc) + " "; return s; }
int (*g_hsm_hook)(const uint8_t *, size_t);
std::string g_trust_anchor_pem;
std::string g_real_anchor_prefix;

extern "C" int __asan_address_is_poisoned(const volatile void *);
// The crypto library is not instrumented: objects handed to it must not have been released.
static inline void live_obj(const void *p, const char *fn) { if (p && __asan_address_is_poisoned(p)) sim_fail("crypto_use_after_free", "%s is called with an object that has been released", fn); }
#define WNEW(type, name, params, args) extern "C" type *__real_##name params; extern "C" type *__wrap_##name params { \
  if (crypto_should_fail(#name)) return nullptr; type *r = __real_##name args; obj_add(r); return r; }
#define WDEL(type, name) extern "C" void __real_##name(type *p); extern "C" void __wrap_##name(type *p) { live_obj(p, #name); obj_del(p); __real_##name(p); }
#define WINTC(fail, name, params, args) extern "C" int __real_##name params; extern "C" int __wrap_##name params { \
  live_obj(c, #name); if (crypto_should_fail(#name)) return fail; return __real_##name args; }
#define WINT(fail, name, params, args) extern "C" int __real_##name params; extern "C" int __wrap_##name params { \
  if (crypto_should_fail(#name)) return fail; return __real_##name args; }
WNEW(EVP_MD_CTX, EVP_MD_CTX_new, (void), ())
WDEL(EVP_MD_CTX, EVP_MD_CTX_free)
WNEW(EVP_PKEY_CTX, EVP_PKEY_CTX_new, (EVP_PKEY *k, ENGINE *e), (k, e))
WDEL(EVP_PKEY_CTX, EVP_PKEY_CTX_free)
extern "C" void __real_EVP_PKEY_free(EVP_PKEY *);
// Decoding a PEM key is a pure function of its text; cached because it dominates the run time otherwise.
static std::map<std::string, EVP_PKEY *> g_pem_cache[2];
typedef EVP_PKEY *(*PemRead)(BIO *, EVP_PKEY **, pem_password_cb *, void *);
static EVP_PKEY *pem_cached(int which, const char *name, PemRead real, BIO *b, EVP_PKEY **x, pem_password_cb *cb, void *u) {
  if (crypto_should_fail(name)) return nullptr;
  char *d = nullptr; long n = b ? BIO_get_mem_data(b, &d) : 0;
  EVP_PKEY *r;
  if (n <= 0 || n > 4000 || x) r = real(b, x, cb, u);
  else {
    auto &c = g_pem_cache[which]; std::string key(d, n); auto it = c.find(key);
    if (it == c.end()) {
      if (c.size() > 200) { for (auto &p : c) if (p.second) __real_EVP_PKEY_free(p.second); c.clear(); }
      it = c.emplace(key, real(b, x, cb, u)).first;
    }
    r = it->second; if (r) EVP_PKEY_up_ref(r);
  }
  obj_add(r);
  return r;
}
extern "C" EVP_PKEY *__real_PEM_read_bio_PrivateKey(BIO *, EVP_PKEY **, pem_password_cb *, void *);
extern "C" EVP_PKEY *__real_PEM_read_bio_PUBKEY(BIO *, EVP_PKEY **, pem_password_cb *, void *);
extern "C" EVP_PKEY *__wrap_PEM_read_bio_PrivateKey(BIO *b, EVP_PKEY **x, pem_password_cb *cb, void *u) { return pem_cached(0, "PEM_read_bio_PrivateKey", __real_PEM_read_bio_PrivateKey, b, x, cb, u); }
extern "C" EVP_PKEY *__wrap_PEM_read_bio_PUBKEY(BIO *b, EVP_PKEY **x, pem_password_cb *cb, void *u) { return pem_cached(1, "PEM_read_bio_PUBKEY", __real_PEM_read_bio_PUBKEY, b, x, cb, u); }
WDEL(EVP_PKEY, EVP_PKEY_free)
WNEW(BIO, BIO_new, (const BIO_METHOD *m), (m))
WNEW(BIO, BIO_new_mem_buf, (const void *b, int n), (b, n))
extern "C" int __real_BIO_free(BIO *); extern "C" int __wrap_BIO_free(BIO *b) { obj_del(b); return __real_BIO_free(b); }
WNEW(X509_STORE, X509_STORE_new, (void), ())
WDEL(X509_STORE, X509_STORE_free)
WNEW(X509_STORE_CTX, X509_STORE_CTX_new, (void), ())
WDEL(X509_STORE_CTX, X509_STORE_CTX_free)
WDEL(X509, X509_free)
extern "C" ASN1_OBJECT *__real_OBJ_txt2obj(const char *s, int n);
extern "C" ASN1_OBJECT *__wrap_OBJ_txt2obj(const char *s, int n) {
  if (crypto_should_fail("OBJ_txt2obj")) return nullptr;
  ASN1_OBJECT *r = __real_OBJ_txt2obj(s, n);
  if (s && s[0] >= '0' && s[0] <= '9') obj_add(r);     // a name gives a static object
  return r;
}
WDEL(ASN1_OBJECT, ASN1_OBJECT_free)
WINTC(0, EVP_DigestInit_ex, (EVP_MD_CTX *c, const EVP_MD *t, ENGINE *e), (c, t, e))
WINTC(0, EVP_DigestUpdate, (EVP_MD_CTX *c, const void *d, size_t n), (c, d, n))
WINTC(0, EVP_DigestFinal_ex, (EVP_MD_CTX *c, unsigned char *m, unsigned int *s), (c, m, s))
WINT(0, EVP_Digest, (const void *d, size_t n, unsigned char *m, unsigned int *s, const EVP_MD *t, ENGINE *e), (d, n, m, s, t, e))
WINTC(-1, EVP_PKEY_sign_init, (EVP_PKEY_CTX *c), (c))
WINTC(-1, EVP_PKEY_verify_init, (EVP_PKEY_CTX *c), (c))
WINTC(-1, EVP_PKEY_verify, (EVP_PKEY_CTX *c, const unsigned char *s, size_t sl, const unsigned char *t, size_t tl), (c, s, sl, t, tl))
WINTC(-1, EVP_PKEY_CTX_set_rsa_padding, (EVP_PKEY_CTX *c, int p), (c, p))
WINTC(-1, EVP_PKEY_CTX_set_signature_md, (EVP_PKEY_CTX *c, const EVP_MD *m), (c, m))
WINT(0, PEM_write_bio_PUBKEY, (BIO *b, const EVP_PKEY *k), (b, k))
WINT(0, PEM_write_bio_PrivateKey, (BIO *b, const EVP_PKEY *k, const EVP_CIPHER *c, const unsigned char *p, int l, pem_password_cb *cb, void *u), (b, k, c, p, l, cb, u))
WINT(0, PEM_write_PrivateKey, (FILE *b, const EVP_PKEY *k, const EVP_CIPHER *c, const unsigned char *p, int l, pem_password_cb *cb, void *u), (b, k, c, p, l, cb, u))
WINTC(0, EVP_DigestVerifyInit, (EVP_MD_CTX *c, EVP_PKEY_CTX **p, const EVP_MD *t, ENGINE *e, EVP_PKEY *k), (c, p, t, e, k))
WINTC(-1, EVP_DigestVerify, (EVP_MD_CTX *c, const unsigned char *s, size_t sl, const unsigned char *t, size_t tl), (c, s, sl, t, tl))
WINTC(0, X509_STORE_CTX_init, (X509_STORE_CTX *c, X509_STORE *s, X509 *x, STACK_OF(X509) *u), (c, s, x, u))
WINT(0, X509_STORE_add_cert, (X509_STORE *s, X509 *x), (s, x))
WINTC(-1, X509_verify_cert, (X509_STORE_CTX *c), (c))
extern "C" EVP_PKEY *__real_EVP_PKEY_CTX_get0_pkey(EVP_PKEY_CTX *);
extern "C" EVP_PKEY *__wrap_EVP_PKEY_CTX_get0_pkey(EVP_PKEY_CTX *c) { live_obj(c, "EVP_PKEY_CTX_get0_pkey"); return __real_EVP_PKEY_CTX_get0_pkey(c); }
extern "C" size_t __real_EVP_PKEY_get1_encoded_public_key(EVP_PKEY *, unsigned char **);
extern "C" size_t __wrap_EVP_PKEY_get1_encoded_public_key(EVP_PKEY *k, unsigned char **p) { if (crypto_should_fail("EVP_PKEY_get1_encoded_public_key")) return 0; return __real_EVP_PKEY_get1_encoded_public_key(k, p); }
extern "C" int __real_i2d_ASN1_OBJECT(const ASN1_OBJECT *, unsigned char **);
extern "C" int __wrap_i2d_ASN1_OBJECT(const ASN1_OBJECT *a, unsigned char **pp) { if (crypto_should_fail("i2d_ASN1_OBJECT")) return 0; return __real_i2d_ASN1_OBJECT(a, pp); }
extern "C" ASN1_OBJECT *__real_d2i_ASN1_OBJECT(ASN1_OBJECT **, const unsigned char **, long);
extern "C" ASN1_OBJECT *__wrap_d2i_ASN1_OBJECT(ASN1_OBJECT **a, const unsigned char **pp, long n) { if (crypto_should_fail("d2i_ASN1_OBJECT")) return nullptr; return __real_d2i_ASN1_OBJECT(a, pp, n); }
extern "C" X509 *__real_PEM_read_bio_X509(BIO *, X509 **, pem_password_cb *, void *);
// As for keys: decoding a certificate is a pure function of its text; the last certificate of a buffer is cached.
static std::map<std::string, X509 *> g_x509_cache;
static X509 *x509_cached(BIO *b, X509 **x, pem_password_cb *cb, void *u) {
  char *d = nullptr; long n = b ? BIO_get_mem_data(b, &d) : 0;
  if (n <= 0 || n > 6000 || x) return __real_PEM_read_bio_X509(b, x, cb, u);
  std::string key(d, n); size_t first = key.find("-----BEGIN");
  if (first == std::string::npos || key.find("-----BEGIN", first + 5) != std::string::npos) return __real_PEM_read_bio_X509(b, x, cb, u);
  auto it = g_x509_cache.find(key);
  if (it == g_x509_cache.end()) {
    X509 *r = __real_PEM_read_bio_X509(b, x, cb, u);
    if (!r) return r;
    if (g_x509_cache.size() > 100) { for (auto &p : g_x509_cache) __real_X509_free(p.second); g_x509_cache.clear(); }
    it = g_x509_cache.emplace(key, r).first;
  }
  char sink[512]; while (BIO_read(b, sink, sizeof sink) > 0) {}
  ERR_clear_error();
  X509_up_ref(it->second);
  return it->second;
}
extern "C" X509 *__wrap_PEM_read_bio_X509(BIO *b, X509 **x, pem_password_cb *cb, void *u) {
  if (crypto_should_fail("PEM_read_bio_X509")) return nullptr;
  X509 *r = nullptr;
  if (!g_trust_anchor_pem.empty()) {
    char *d = nullptr; long n = BIO_get_mem_data(b, &d);
    if (n > 0 && !g_real_anchor_prefix.empty() && (size_t)n >= g_real_anchor_prefix.size() && !memcmp(d, g_real_anchor_prefix.data(), g_real_anchor_prefix.size())) {
      BIO *nb = __real_BIO_new_mem_buf(g_trust_anchor_pem.data(), (int)g_trust_anchor_pem.size());
      r = x509_cached(nb, x, cb, u);
      __real_BIO_free(nb);
      st_probe("trust_anchor_substituted");
      obj_add(r);
      return r;
    }
  }
  r = x509_cached(b, x, cb, u);
  obj_add(r);
  return r;
}
extern "C" int __real_EVP_PKEY_sign(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t);
static uint64_t g_rngstate;
void rng_reseed(uint64_t x) { g_rngstate = mix64(x ^ mix64(run_seed())); }
extern "C" int __wrap_EVP_PKEY_sign(EVP_PKEY_CTX *c, unsigned char *s, size_t *sl, const unsigned char *t, size_t tl) {
  live_obj(c, "EVP_PKEY_sign"); if (crypto_should_fail("EVP_PKEY_sign")) return -1;
  if (s) {
    // The signature is a function of the run seed and the hash, not of how many random bytes were drawn before.
    uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < tl; i++) h = (h ^ t[i]) * 1099511628211ull;
    if (g_hsm_hook && g_hsm_hook(t, tl)) return -1;
    rng_reseed(h);
  }
  return __real_EVP_PKEY_sign(c, s, sl, t, tl);
}
extern "C" EVP_PKEY *__real_EVP_PKEY_Q_keygen(OSSL_LIB_CTX *, const char *, const char *, ...);
// Key generation is stubbed: the key comes from the fixtures (choice of the simulator).
extern "C" EVP_PKEY *__wrap_EVP_PKEY_Q_keygen(OSSL_LIB_CTX *, const char *, const char *type, ...) {
  if (crypto_should_fail("EVP_PKEY_Q_keygen")) return nullptr;
  const KeyPair &k = !strcmp(type, "RSA") ? keys()[6 + choice(2)] : keys()[choice(5)];
  BIO *b = __real_BIO_new_mem_buf(k.priv.data(), (int)k.priv.size());
  EVP_PKEY *r = __real_PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
  __real_BIO_free(b);
  obj_add(r);
  return r;
}
static int r_bytes(unsigned char *b, int n) {
  for (int i = 0; i < n; i++) { g_rngstate = mix64(g_rngstate); b[i] = (unsigned char)(g_rngstate >> 24); }
  return 1;
}
static int r_status() { return 1; }
static RAND_METHOD g_rand = {nullptr, r_bytes, nullptr, nullptr, r_bytes, r_status};

// ---- simulated disk ----
std::map<std::string, SimFile> g_disk;
DiskFault g_diskfault;
struct Cookie { std::string path; long written; bool dead; };
static ssize_t ck_write(void *c, const char *b, size_t n) {
  Cookie *k = (Cookie *)c;
  if (g_diskfault.fail_write_at >= 0 && k->written + (long)n > g_diskfault.fail_write_at) {
    size_t ok = (size_t)(g_diskfault.fail_write_at > k->written ? g_diskfault.fail_write_at - k->written : 0);
    g_disk[k->path].data.append(b, ok); k->written += ok; g_diskfault.fired++; st_fault("disk_write_error");
    errno = ENOSPC; return ok ? (ssize_t)ok : 0;
  }
  g_disk[k->path].data.append(b, n); k->written += n;
  return (ssize_t)n;
}
static int ck_close(void *c) {
  Cookie *k = (Cookie *)c; int r = 0;
  if (g_diskfault.fail_close) { g_diskfault.fired++; st_fault("disk_close_error"); errno = EIO; r = EOF; if (g_diskfault.lose_on_close) { auto &d = g_disk[k->path].data; d.resize(d.size() / 2); } }
  delete k; return r;
}
extern "C" FILE *__wrap_fopen(const char *path, const char *mode) {
  EV("fopen", (long long)strlen(path));
  if (g_diskfault.fail_open) { g_diskfault.fired++; st_fault("disk_open_error"); errno = EACCES; return nullptr; }
  if (mode[0] != 'w' && mode[0] != 'a') {
    auto it = g_disk.find(path); if (it == g_disk.end() || !it->second.exists) { errno = ENOENT; return nullptr; }
    return fmemopen((void *)it->second.data.data(), it->second.data.size(), "r");
  }
  SimFile &f = g_disk[path]; f.exists = true; if (mode[0] == 'w') f.data.clear();
  cookie_io_functions_t io = {nullptr, ck_write, nullptr, ck_close};
  FILE *fp = fopencookie(new Cookie{path, (long)f.data.size(), false}, mode, io);
  return fp;
}
extern "C" FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }
extern "C" int __wrap_unlink(const char *path) { EV("unlink", 0); if (!g_disk.count(path) || !g_disk[path].exists) { errno = ENOENT; return -1; } g_disk[path] = SimFile(); return 0; }
extern "C" int __wrap_remove(const char *path) { return __wrap_unlink(path); }
extern "C" int __wrap_rename(const char *a, const char *b) { EV("rename", 0); if (!g_disk.count(a) || !g_disk[a].exists) { errno = ENOENT; return -1; } g_disk[b] = g_disk[a]; g_disk[a] = SimFile(); return 0; }
extern "C" int __wrap_fsync(int) { return 0; }
extern "C" int __wrap_chmod(const char *, unsigned) { return 0; }

// ---- fixtures ----
struct EmbKey { const char *name; const char *pem; bool rsa; };
extern const EmbKey kEmbKeys[]; extern const int kNumEmbKeys;
static std::vector<KeyPair> *g_keys;
const std::vector<KeyPair> &keys() { return *g_keys; }
void sim_platform_init() {
  RAND_set_rand_method(&g_rand);
  g_keys = new std::vector<KeyPair>();
  for (int i = 0; i < kNumEmbKeys; i++) {
    KeyPair k; k.name = kEmbKeys[i].name; k.priv = kEmbKeys[i].pem; k.rsa = kEmbKeys[i].rsa;
    BIO *b = __real_BIO_new_mem_buf(k.priv.data(), (int)k.priv.size());
    EVP_PKEY *p = __real_PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
    __real_BIO_free(b);
    BIO *o = __real_BIO_new(BIO_s_mem());
    __real_PEM_write_bio_PUBKEY(o, p);
    char *d; long n = BIO_get_mem_data(o, &d); k.pub.assign(d, n);
    __real_BIO_free(o); __real_EVP_PKEY_free(p);
    g_keys->push_back(k);
  }
  ERR_clear_error();
  at_run_start([] {
    g_rngstate = mix64(run_seed());
    faults_disarm();
    g_hsm_hook = nullptr; g_trust_anchor_pem.clear();
    g_disk.clear(); g_diskfault = DiskFault();
    alloc_mark();
    ERR_clear_error();
  });
}
