// The simulated vendor: certificate chains and key attestations as made by a secure element.
#pragma once
#include "world.h"
extern "C" {
#include "includes/sv_vendor_axis_communications.h"
}
extern const char *const kvRoot, *const kvInter, *const kvRoot2, *const kvInter2, *const kvLeafA, *const kvKeyA, *const kvLeafB, *const kvKeyB, *const kvLeafAttacker, *const kvKeyAttacker,
  *const kvLeafNotByInter, *const kvLeafByLeaf, *const kvLeafExpired, *const kvLeafFuture, *const kvLeafLongSerial, *const kvLeafSerial19, *const kvLeafSerial20, *const kvLeafNoSerial, *const kvLeafNoCn, *const kvLeafOtherCn, *const kvLeafBadChip, *const kvLeafShortChip, *const kvLeafRsa;
extern const uint8_t kvChipA[18], kvChipB[18];
#define AXIS_NAME "Axis Communications AB"
#define AXIS_SERIAL_A "ACCC8E000001"
// The attestation of the video key |video_pub| made by the secure element with |leaf_key|; |vary| changes one byte of what is signed.
Bytes make_attestation(const char *leaf_key, const uint8_t *chip, const std::string &video_pub, int vary = 0);
std::string make_chain(const char *leaf, const char *inter = nullptr, const char *root = nullptr);
void trust_sim_root();      // the simulated root takes the place of the built-in one
void genuine_vendor(CamCfg &cfg);   // a camera of the vendor with matching attestation, chain and serial number
