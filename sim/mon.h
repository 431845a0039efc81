// Safety monitor: what a report may say about the NAL units it decides, judged against what the cameras really produced.
#pragma once
#include "world.h"
struct Mon {
  Validator &v;
  const Stream *orig[4] = {};        // what each camera produced (index = camera id)
  std::vector<std::vector<int>> gop_pics[4];   // per camera and GOP: picture numbers in order
  size_t done = 0;                   // reports looked at
  int last_gop = -1, last_cam = -1;  // the GOP decided last
  std::vector<int> dec_rep;          // per fed NAL unit: report that decided it first
  int unjudged = -1;                 // the first group of the session, when it could not be judged
  bool link = true;                  // check that consecutive OK verdicts follow each other in the camera's stream
  bool strict = false;               // also across reports that are not OK (streams with losses only)
  bool legacy = false;               // old format: a group cut short by a new I-frame is reported together with that I-frame
  int left_missing = 0;              // missing NAL units still listed behind a pending one
  bool debt = false;                 // such a group has been reported OK: the report that comes next must not be
  explicit Mon(Validator &v_) : v(v_) {}
  void camera(int id, const Stream &s);
  // Examines the reports that came since the last call.
  void check();
};
struct Attack { std::string what; };
bool genuine(const Nal &n);
void check_untouched(const CamCfg &cfg, const Stream &s, bool registered_key);
