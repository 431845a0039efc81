// A signing plugin (the library's official seam) whose latency and failures are decided by the simulator.
#include "world.h"
#include <deque>
#include <openssl/evp.h>
extern "C" {
#include "includes/signed_video_openssl.h"
}
struct Job { Bytes hash; uint64_t ready; int fail; };
struct Sess { sign_or_verify_data_t sd; std::deque<Job> q; uint64_t last_ready; };

extern "C" {
SignedVideoReturnCode sv_signing_plugin_sign(void *h, const uint8_t *hash, size_t n) {
  Sess *s = (Sess *)h;
  if (!s || !hash || !n) return SV_INVALID_PARAMETER;
  if (g_hsm.refuse_den && chance(1, g_hsm.refuse_den)) { st_fault("sign_refused"); g_hsm_refused++; g_hsm.outcome[g_hsm.closing] = 0; EV("hsm_refuse", 0); return SV_EXTERNAL_ERROR; }
  if ((int)s->q.size() >= g_hsm.capacity) { st_fault("hsm_full"); g_hsm_refused++; g_hsm.outcome[g_hsm.closing] = 0; return SV_NOT_SUPPORTED; }
  uint64_t lat = 0;
  switch (g_hsm.latency_mode) {
    case 1: lat = g_hsm.fixed; break;
    case 2: lat = choice(g_hsm.maxlat + 1); break;
    case 3: if (chance(1, 3)) { g_hsm.stalled_until = g_hsm.clock + range(1, g_hsm.maxlat); st_fault("hsm_stall"); } break;
  }
  if (lat) st_fault("hsm_latency");
  uint64_t r = g_hsm.clock + lat; if (r < s->last_ready) r = s->last_ready; s->last_ready = r;
  Job j; j.hash.assign(hash, hash + n); j.ready = r; j.fail = 0;
  if (g_hsm.fail_den && chance(1, g_hsm.fail_den)) { j.fail = 1; st_fault("sign_failed"); }
  g_hsm.outcome[g_hsm.closing] = j.fail ? 2 : 1;
  s->q.push_back(j);
  return SV_OK;
}
bool sv_signing_plugin_get_signature(void *h, uint8_t *sig, size_t max, size_t *written, SignedVideoReturnCode *err) {
  Sess *s = (Sess *)h;
  if (err) *err = SV_OK;
  if (!s || !sig || !written) return false;
  if (s->q.empty()) return false;
  Job &j = s->q.front();
  if (g_hsm.tick_in_call && chance(1, 8)) { g_hsm.clock++; st_fault("time_passes_inside_call"); }
  if (j.ready > g_hsm.clock || g_hsm.stalled_until > g_hsm.clock) return false;
  if (j.fail) {
    g_hsm_failed++; s->q.pop_front(); *written = 0;
    if (err) *err = SV_EXTERNAL_ERROR;
    return g_hsm.fail_style == 1;
  }
  s->sd.hash = j.hash.data(); s->sd.hash_size = j.hash.size();
  SignedVideoReturnCode r = openssl_sign_hash(&s->sd);
  if (r != SV_OK || s->sd.signature_size > max) sim_fail("hsm_sign", "signing rc=%d", r);
  memcpy(sig, s->sd.signature, s->sd.signature_size); *written = s->sd.signature_size;
  g_hsm_signed++;
  s->q.pop_front();
  return true;
}
void *sv_signing_plugin_session_setup(const void *pk, size_t n) {
  if (!pk || !n) return nullptr;
  Sess *s = new Sess(); memset(&s->sd, 0, sizeof s->sd); s->last_ready = 0;
  if (openssl_private_key_malloc(&s->sd, (const char *)pk, n) != SV_OK) { delete s; return nullptr; }
  return s;
}
void sv_signing_plugin_session_teardown(void *h) {
  Sess *s = (Sess *)h; if (!s) return;
  openssl_free_key(s->sd.key); free(s->sd.signature); delete s;
}
int sv_signing_plugin_init(void *) { return 0; }
int sv_signing_plugin_init_new(void *) { return 0; }
void sv_signing_plugin_exit(void *) {}
}
