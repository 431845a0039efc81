// Seams: allocator, crypto library, randomness, key generation, simulated disk.
#pragma once
#include "core.h"

// ---- allocations made by the library and the plugins ----
struct AllocStats { uint64_t calls, live, failed; };
extern AllocStats g_alloc;
extern void (*g_free_hook)(void *p, size_t n, void *pc);   // memory is about to be released
void alloc_mark();                         // start of a leak-checked region: forget what is live now
uint64_t alloc_live_since_mark(std::string *who);   // live allocations since the mark, with a description of some
// ---- fault arming: the k-th allocation / crypto call from now fails (0 = next), optionally all after it too ----
struct FaultArm { long alloc_in = -1, crypto_in = -1; bool sticky = false; int alloc_fired = 0, crypto_fired = 0; std::string what; };
extern FaultArm g_arm;
void faults_disarm();
// ---- crypto objects created by the library and not yet released (EVP_PKEY, contexts, BIOs, X509 ...) ----
uint64_t crypto_live(); std::string crypto_live_who();
// ---- HSM seam (EVP_PKEY_sign as called by the real plugins) ----
extern int (*g_hsm_hook)(const uint8_t *tbs, size_t n);   // called before a signature is made; returns 0 ok, 1 fail
// ---- trust anchor seam for vendor attestation ----
extern std::string g_trust_anchor_pem;     // when set, replaces the hard-coded root certificate
extern std::string g_real_anchor_prefix;
// ---- simulated disk ----
struct SimFile { std::string data; bool exists = false; };
extern std::map<std::string, SimFile> g_disk;
struct DiskFault { int fail_open = 0; long fail_write_at = -1; long short_write_at = -1; int fail_close = 0; int lose_on_close = 0; int fired = 0; };
extern DiskFault g_diskfault;
// ---- deterministic randomness for the crypto library ----
void rng_reseed(uint64_t x);
// ---- fixtures ----
struct KeyPair { const char *name; std::string priv, pub; bool rsa; };
const std::vector<KeyPair> &keys();        // 0..4 EC P-256, 5 EC P-384, 6..7 RSA-2048
