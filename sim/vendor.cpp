#include "vendor.h"
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/sha.h>
#include <openssl/err.h>
extern "C" { BIO *__real_BIO_new_mem_buf(const void *, int); int __real_BIO_free(BIO *); EVP_PKEY *__real_PEM_read_bio_PUBKEY(BIO *, EVP_PKEY **, pem_password_cb *, void *); EVP_PKEY *__real_PEM_read_bio_PrivateKey(BIO *, EVP_PKEY **, pem_password_cb *, void *);
  void __real_EVP_PKEY_free(EVP_PKEY *); EVP_MD_CTX *__real_EVP_MD_CTX_new(void); void __real_EVP_MD_CTX_free(EVP_MD_CTX *); size_t __real_EVP_PKEY_get1_encoded_public_key(EVP_PKEY *, unsigned char **); }
extern const uint8_t kvChipA[18] = {0x04, 0x00, 0x50, 0x01, 0xAA, 0xB1, 0xC2, 0xD3, 0xE4, 0xF5, 0x06, 0x17, 0x28, 0x39, 0x4A, 0x5B, 0x6C, 0x7D};
extern const uint8_t kvChipB[18] = {0x04, 0x00, 0x50, 0x01, 0xbb, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e};
static EVP_PKEY *cached(const std::string &pem, bool priv) {
  static std::map<std::string, EVP_PKEY *> c; EVP_PKEY *&k = c[pem];
  if (!k) { BIO *b = __real_BIO_new_mem_buf(pem.data(), (int)pem.size()); k = priv ? __real_PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr) : __real_PEM_read_bio_PUBKEY(b, nullptr, nullptr, nullptr); __real_BIO_free(b); }
  if (!k) sim_internal_error("vendor key");
  return k;
}
Bytes make_attestation(const char *leaf_key, const uint8_t *chip, const std::string &video_pub, int vary) {
  // what the secure element signs: hash of the request, public key, chip id, attributes, object size, time
  static const uint8_t attr[37] = {0x7b, 0x00, 0x02, 0x01, 0x29, 0x01, 0x00, 0x00, 0x7b, 0x00, 0x00, 0x03, 0x00, 0x00, 0x08, 0x7b, 0x00, 0x00, 0x03, 0x1f, 0x3c, 0x00, 0x00, 0x08, 0x00, 0x00, 0x00, 0x00, 0x00, 0x20, 0x00, 0x00, 0x02, 0x00, 0x00, 0x00, 0x00};
  static const uint8_t req[40] = {0x80, 0x22, 0, 0, 0, 0, 0x21, 0x41, 0x04, 0x7b, 0x00, 0x02, 0x01, 0x45, 0x04, 0xf0, 0, 0, 0x12, 0x46, 0x01, 0x21, 0x47, 0x10,
    0x92, 0xbb, 0xed, 0xfb, 0x98, 0x82, 0xac, 0x16, 0xc7, 0xf0, 0x1a, 0xe4, 0x59, 0x05, 0x96, 0x04};
  Bytes d(32); SHA256(req, sizeof req, d.data());
  auto tlv = [&](uint8_t t, const uint8_t *p, size_t n) { d.push_back(t); d.push_back(0x82); d.push_back((uint8_t)(n >> 8)); d.push_back((uint8_t)n); d.insert(d.end(), p, p + n); };
  unsigned char *pk = nullptr; size_t n = __real_EVP_PKEY_get1_encoded_public_key(cached(video_pub, false), &pk);
  tlv(0x41, pk, n); OPENSSL_free(pk);
  tlv(0x42, chip, 18); tlv(0x43, attr, sizeof attr);
  const uint8_t sz[2] = {0, 0x20}; tlv(0x44, sz, 2);
  uint8_t ts[12]; for (int i = 0; i < 12; i++) ts[i] = (uint8_t)(mix64(run_seed() + 99) >> (i * 5)); tlv(0x4f, ts, 12);
  if (vary) d[(size_t)vary % d.size()] ^= 0x10;
  EVP_MD_CTX *c = __real_EVP_MD_CTX_new(); unsigned char sig[256]; size_t sl = sizeof sig;
  rng_reseed(0x77);
  if (EVP_DigestSignInit(c, nullptr, EVP_sha256(), nullptr, cached(leaf_key, true)) != 1 || EVP_DigestSign(c, sig, &sl, d.data(), d.size()) != 1) sim_internal_error("attestation");
  __real_EVP_MD_CTX_free(c); ERR_clear_error();
  Bytes a = {0x41, 0x54, 0, 1, 0xf0, 0, 0, 0x12, 1}; a.insert(a.end(), ts, ts + 12); a.push_back((uint8_t)(sl >> 8)); a.push_back((uint8_t)sl); a.insert(a.end(), sig, sig + sl);
  return a;
}
std::string make_chain(const char *leaf, const char *inter, const char *root) { return std::string(leaf) + (inter ? inter : kvInter) + (root ? root : kvRoot); }
void trust_sim_root() { g_trust_anchor_pem = kvRoot; g_real_anchor_prefix = "-----BEGIN CERTIFICATE-----\nMIIClDCCAfagAwIBAgIBATAKBggqhkjOPQQDBDBcMR8wHQYDVQQKExZBeGlzIENv"; }
void genuine_vendor(CamCfg &cfg) {
  if (cfg.key >= 5) cfg.key = choice(5);      // attestations are made for P-256 keys
  cfg.set_prod = true; cfg.prod[3] = AXIS_NAME; cfg.prod[2] = AXIS_SERIAL_A;
  cfg.att = make_attestation(kvKeyA, kvChipA, keys()[cfg.key].pub); cfg.chain = make_chain(kvLeafA);
}
