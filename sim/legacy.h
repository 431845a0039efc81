// Streams in the format of the first library versions.
#pragma once
#include "world.h"
struct LegacyRec { int codec, level, rsa; const char *nal[15]; };   // hexadecimal
extern const LegacyRec kLegacyRec[8];
Stream legacy_recorded(int idx);          // one of the streams recorded with version 1.1.29
struct LegacyCfg {
  int codec = 0, level = 1, key = 0; int maxdelay = 0; bool ts = true, crypto_tag = false, pub2 = false, arbitrary = false; unsigned recurrence = 1; uint32_t counter0 = 1; int sign_key = -1;   // a forger announces |key| but can only sign with this one
  int ver[3] = {1, 1, 29};
  std::vector<std::string> prod{"hw", "fw1.0", "sn-1", "Sim", "addr"}; bool extras = true, multislice = true;
  std::string str() const;
};
LegacyCfg random_legacy_cfg();
// A stream signed in the old format: the SEI with gop g covers group g and the link to the next one (-1: the first picture).
Stream legacy_stream(int id, const LegacyCfg &cfg, int gops, int max_len);
Bytes ref_sign(int key, const Bytes &hash);
bool legacy_verify_stream(const Stream &s, int codec, std::string *why);   // reference verification of all signatures
