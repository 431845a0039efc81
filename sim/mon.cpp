#include "mon.h"
#include <map>
bool genuine(const Nal &n) { return !n.altered && n.cam >= 0; }
void Mon::camera(int id, const Stream &s) {
  orig[id] = &s;
  for (auto &n : s) if (n.is_pic()) {
    if ((int)gop_pics[id].size() <= n.gop) gop_pics[id].resize(n.gop + 1);
    gop_pics[id][n.gop].push_back(n.pic);
  }
}
void Mon::check() {
  for (; done < v.reps.size(); done++) {
    const Rep &r = v.reps[done];
    st_eval();
    auto ctx = [&]() { return r.ns + " / " + r.vs + " " + auth_name(r.auth) + " fed " + stream_str(Stream(v.fed.begin(), v.fed.begin() + r.after)); };
    std::vector<int> pics;     // fed indices of pictures this report is the first to decide
    bool bad = false;
    for (size_t i = 0; i < r.vs.size(); i++) {
      int x = r.at[i];
      if (x < 0) { bad = true; continue; }
      if (x >= (int)v.fed.size() || v.verdict_rep[x] != (int)done) continue;
      const Nal &n = v.fed[x];
      char c = r.vs[i];
      if (n.is_pic()) {
        CHECK(c != '.' || genuine(n), "forged_marked_valid", "altered or inserted picture (position %d) is marked valid: %s", x, ctx().c_str());
        if (c == '.' || c == 'N' || c == 'E') pics.push_back(x);
        if (c == 'N' || c == 'E') bad = true;
      } else if (n.is_sei()) {
        CHECK(c != '.' || !n.sig_altered, "forged_sei_valid", "altered SEI (position %d) is marked valid: %s", x, ctx().c_str());
        if (c == 'N') bad = true;    // 'E': an unreadable SEI, which belongs to no group this report decides
      }
    }
    // valid pictures decided by one report come in capture order within each GOP and at most once
    int pc = -1, pp = -1, pg = -1;
    for (int x : pics) if (v.verdict[x] == '.') {
      const Nal &n = v.fed[x];
      if (n.cam == pc && n.gop == pg) CHECK(n.pic > pp, "order", "pictures %d and %d are marked valid in this order by one report: %s", pp, n.pic, ctx().c_str());
      pc = n.cam; pp = n.pic; pg = n.gop;
    }
    if (r.auth == SV_AUTH_RESULT_OK) {
      CHECK(!bad, "ok_with_bad_items", "report says OK but decides NAL units as invalid or missing: %s", ctx().c_str());
      // the pictures decided are whole, complete GOPs in sequence
      size_t i = 0;
      if (debt && !pics.empty()) CHECK(false, "ok_debt", "a group was cut short, but neither its report nor the next one says so: %s", ctx().c_str());
      while (i < pics.size()) {
        const Nal &n = v.fed[pics[i]];
        CHECK(n.cam >= 0 && orig[n.cam], "ok_unknown", "OK for a picture no camera made: %s", ctx().c_str());
        const auto &g = gop_pics[n.cam][n.gop];
        // The first group of a session may have been joined midway: it is not judged and its SEI is marked 'U'.
        bool first = false, good = false;
        for (size_t k = 0; k < r.vs.size(); k++) if (r.at[k] >= 0 && v.fed[r.at[k]].is_sei() && v.fed[r.at[k]].gop == n.gop && v.fed[r.at[k]].cam == n.cam) { first |= r.vs[k] == 'U'; good |= r.vs[k] == '.'; }
        if (good) first = false;
        if (first && unjudged < 0) { unjudged = n.gop; st_probe("first_group_unjudged"); while (i < pics.size() && v.fed[pics[i]].gop == n.gop) i++; continue; }
        if (legacy) { bool whole = true; for (size_t k = 0; k < g.size() && whole; k++) whole = i + k < pics.size() && v.fed[pics[i + k]].cam == n.cam && v.fed[pics[i + k]].pic == g[k]; if (!whole) { debt = true; last_gop = -1; break; } }
        for (size_t k = 0; k < g.size(); k++, i++)
          CHECK(i < pics.size() && v.fed[pics[i]].cam == n.cam && v.fed[pics[i]].pic == g[k] && v.fed[pics[i]].gop == n.gop, "ok_incomplete",
                "report says OK but GOP %d of camera %d is not complete and in order: %s", n.gop, n.cam, ctx().c_str());
        bool have = false;
        for (int x = 0; x < r.after; x++) if (v.fed[x].is_sei() && (v.fed[x].gop == n.gop || (legacy && g.size() == 1 && v.fed[x].gop == -1)) && v.fed[x].cam == n.cam && !v.fed[x].sig_altered) have = true;   // old format: the very first SEI covers the first picture alone
        CHECK(have, "ok_without_sei", "report says OK for GOP %d but its SEI never arrived: %s", n.gop, ctx().c_str());
        if (link && last_gop >= 0)
          CHECK(n.cam == last_cam && n.gop == last_gop + 1, "ok_splice", "report says OK for GOP %d of camera %d right after GOP %d of camera %d: %s", n.gop, n.cam, last_gop, last_cam, ctx().c_str());
        last_gop = n.gop; last_cam = n.cam;
      }
    } else {
      if (!pics.empty()) debt = false;
      // losses only: as many NAL units are shown as missing as were lost from the groups decided
      if (strict && r.auth == SV_AUTH_RESULT_OK_WITH_MISSING_INFO && !legacy) {
        int shown = -left_missing, lost = 0; for (int x : r.at) shown += x < 0;
        std::map<int, int> have; bool first = false; for (int x : pics) have[v.fed[x].gop]++;
        for (char c : r.vs) first |= c == 'U';   // the first group is not judged
        for (auto &h : have) lost += (int)gop_pics[v.fed[pics[0]].cam][h.first].size() - h.second;
        if (!first) { st_eval(); CHECK(shown == lost, "missing_count", "%d pictures of the groups decided were lost, %d are shown as missing: %s", lost, shown, ctx().c_str());
          if (r.exp >= 0) CHECK(r.recv == (int)pics.size() && r.exp == r.recv + lost, "missing_counts", "%d expected and %d received pictures reported for groups with %zu pictures of which %d were lost: %s", r.exp, r.recv, pics.size() + lost, lost, ctx().c_str()); }
      }
      // after a report that is not OK the next OK group may be any group, unless nothing but losses happened
      for (int x : pics) { if (!strict) last_gop = -1; else if (v.fed[x].kind == 'I') { last_gop = v.fed[x].gop; last_cam = v.fed[x].cam; } }
    }
    left_missing = 0; bool pend = false; for (size_t i = 0; i < r.vs.size(); i++) { pend |= r.vs[i] == 'P'; left_missing += pend && r.at[i] < 0; }
  }
}
// An untouched stream: every report says so and every group is decided once its SEI and the next picture have arrived.
void check_untouched(const CamCfg &cfg, const Stream &s, bool reg) {
  Validator v(cfg.codec, reg ? &keys()[cfg.key].pub : nullptr);
  bool seen_sei = false; int waiting = -1;
  for (size_t i = 0; i < s.size(); i++) {
    const Nal &n = s[i];
    SignedVideoReturnCode rc;
    const Rep *r = v.feed(n, &rc);
    CHECK(rc == SV_OK, "rc", "add_nalu_and_authenticate returned %d for an untouched NAL unit", rc);
    if (n.is_sei()) seen_sei = true;
    if (r) {
      st_eval();
      bool ok = !seen_sei ? r->auth == SV_AUTH_RESULT_NOT_SIGNED : n.kind == 'G' ? r->auth == SV_AUTH_RESULT_SIGNATURE_PRESENT : r->auth == SV_AUTH_RESULT_OK;
      CHECK(ok, "verdict", "untouched stream reported %s: %s / %s of %s", auth_name(r->auth), r->ns.c_str(), r->vs.c_str(), stream_str(s).c_str());
      for (char ch : r->vs) CHECK(ch == '.' || ch == '_' || ch == 'P' || ch == 'U', "status", "untouched stream has status %c: %s / %s (%s)", ch, r->ns.c_str(), r->vs.c_str(), stream_str(s).c_str());
      CHECK(!r->keychg && !r->a_keychg, "key_changed", "untouched stream is reported with a changed key");
    }
    auto decided = [&](int g) {
      for (size_t k = 0; k <= i; k++) if (s[k].gop == g && (s[k].is_pic() || s[k].kind == 'S')) {
        st_eval();
        CHECK(v.verdict[k] == '.', "undecided", "GOP %d: NAL unit %zu has verdict %c after its SEI and the next NAL unit: %s", g, k, v.verdict[k] ? v.verdict[k] : '-', stream_str(s).c_str());
      }
    };
    if (waiting >= 0 && n.is_pic()) { for (int g = 0; g <= waiting; g++) decided(g); waiting = -1; }
    if (n.kind == 'S') waiting = n.gop;
  }
}
