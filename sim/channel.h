#pragma once
#include "world.h"
// ---- the hostile channel ----
struct Channel {
  Stream s;                       // what arrives
  const Stream &o; int codec;
  Stream *other = nullptr;        // another camera's stream
  int n_attacks = 0; std::string log; int first_change = 1 << 30;
  Channel(const Stream &o_, int c) : s(o_), o(o_), codec(c) {}
  int at_pic() { std::vector<int> v; for (size_t i = 0; i < s.size(); i++) if (s[i].is_pic()) v.push_back((int)i); return v.empty() ? -1 : (int)pick(v); }
  int at_sei() { std::vector<int> v; for (size_t i = 0; i < s.size(); i++) if (s[i].kind == 'S') v.push_back((int)i); return v.empty() ? -1 : (int)pick(v); }
  void note(const char *w, int i) { log += std::string(w) + "@" + std::to_string(i) + " "; n_attacks++; st_fault(w); if (i < first_change) first_change = i; ev_printf("channel: %s at %d", w, i); }
  std::pair<int, int> gop_range(int i) {   // positions [a,b) of the pictures and SEIs between I-frames around i
    int a = i; while (a > 0 && s[a].kind != 'I') a--;
    int b = i + 1; while (b < (int)s.size() && s[b].kind != 'I') b++;
    return {a, b};
  }
  void alter_pic() { int i = at_pic(); if (i < 0) return; alter_bytes(s[i], true); note("alter_picture", i); }
  void alter_any() { int i = at_pic(); if (i < 0) return; alter_bytes(s[i], false); note("alter_picture_header", i); }
  void insert_fake() { int i = at_pic(); if (i < 0) return; Nal n; n.kind = "IPpi"[choice(4)]; n.altered = true; n.b = make_nal(codec, n.kind, 30, 900 + choice(90), 0, false, 4); n.cam = -1; n.gop = -1; s.insert(s.begin() + i, n); note("insert_picture", i); }
  void dup() { int i = at_pic(); if (i < 0) return; int j = coin() ? i + 1 : (int)choice((uint32_t)s.size() + 1); Nal n = s[i]; s.insert(s.begin() + j, n); note("duplicate_picture", std::min(i, j)); }
  void swap() { int i = at_pic(), j = at_pic(); if (i < 0 || i == j) return; if (coin()) { j = i + 1; while (j < (int)s.size() && !s[j].is_pic()) j++; if (j >= (int)s.size()) return; } std::swap(s[i], s[j]); note("swap_pictures", std::min(i, j)); }
  void move() { int i = at_pic(); if (i < 0) return; Nal n = s[i]; s.erase(s.begin() + i); int j = choice((uint32_t)s.size() + 1); s.insert(s.begin() + j, n); note("move_picture", std::min(i, j)); }
  void drop_pic() { int i = at_pic(); if (i < 0) return; int k = coin() ? 1 : (int)range(1, 4); for (; k > 0 && i < (int)s.size(); k--) { while (i < (int)s.size() && !s[i].is_pic()) i++; if (i < (int)s.size()) { s.erase(s.begin() + i); note("drop_picture", i); } } }
  void drop_run() { int i = choice((uint32_t)s.size()), k = range(1, 8); for (; k > 0 && i < (int)s.size(); k--) { s.erase(s.begin() + i); } note("drop_run", i); }
  void drop_sei() { int i = at_sei(); if (i < 0) return; s.erase(s.begin() + i); note("drop_sei", i); }
  void drop_gop(bool with_sei) { int i = at_pic(); if (i < 0) return; auto r = gop_range(i); for (int k = r.second - 1; k >= r.first; k--) if (with_sei || !s[k].is_sei()) s.erase(s.begin() + k); note("drop_gop", r.first); }
  void delay_sei() { int i = at_sei(); if (i < 0) return; Nal n = s[i]; s.erase(s.begin() + i); int j = std::min((int)s.size(), i + (int)range(1, 10)); s.insert(s.begin() + j, n); note("delay_sei", i); }
  void dup_sei() { int i = at_sei(); if (i < 0) return; Nal n = s[i]; int j = std::min((int)s.size(), i + 1 + (int)choice(8)); s.insert(s.begin() + j, n); note("duplicate_sei", i); }
  void alter_sei() {
    int i = at_sei(); if (i < 0) return;
    Nal &n = s[i]; Bytes old = n.b;
    RefSei r; int hs = 0; for (int h : {32, 48, 64}) { r = ref_parse(n.b, codec, h); if (r.ok) { hs = h; break; } }
    if (!hs) return;
    bool in_sig = chance(1, 3);
    // the signed content runs from the NAL header to the signature tag; the signature bytes follow tag(1) len(2) version(1) type(1)... size(2)
    size_t lo = r.hdr_off, hi = r.doc_end;
    if (in_sig) { lo = n.b.size() - 1 - r.sig_field; hi = lo + r.sig.size(); if (r.epb) { lo = r.sig_off + 8; hi = n.b.size() - 1; } }
    if (!in_sig && chance(1, 4)) hi = std::min(hi, r.hdr_off + (size_t)40);   // the fixed part in front of the signed information
    int k = range(1, 2);
    for (int t = 0; t < k; t++) n.b[lo + choice((uint32_t)(hi - lo))] ^= (uint8_t)(1 + choice(255));
    if (n.b == old) return;
    n.altered = true;
    RefSei q = ref_parse(n.b, codec, hs);
    // does the change touch the signed content or the signature proper? (changes of padding do not matter)
    n.sig_altered = !in_sig || !(q.ok && q.sig == r.sig);
    note(in_sig ? "alter_signature" : "alter_sei", i);
  }
  void foreign_pic() { if (!other) return; std::vector<int> v; for (size_t k = 0; k < other->size(); k++) if ((*other)[k].is_pic()) v.push_back((int)k); if (v.empty()) return; int i = at_pic(); if (i < 0) return; Nal n = (*other)[pick(v)]; if (coin()) { n.kind = n.kind; s[i] = n; } else s.insert(s.begin() + i, n); note("foreign_picture", i); }
  void foreign_gop() { if (!other || other->empty()) return; int i = choice((uint32_t)s.size() + 1); int a = choice((uint32_t)other->size()), b = a + range(1, 12); b = std::min(b, (int)other->size()); s.insert(s.begin() + i, other->begin() + a, other->begin() + b); note("foreign_run", i); }
  void splice() { if (!other || other->empty()) return; int i = choice((uint32_t)s.size() + 1); int a = choice((uint32_t)other->size()); s.erase(s.begin() + i, s.end()); s.insert(s.end(), other->begin() + a, other->end()); note("splice_stream", i); }
  void replay_run() { if (s.empty()) return; int a = choice((uint32_t)s.size()), b = std::min((int)s.size(), a + (int)range(1, 12)); Stream r(s.begin() + a, s.begin() + b); int i = choice((uint32_t)s.size() + 1); s.insert(s.begin() + i, r.begin(), r.end()); note("replay_run", std::min(i, a)); }
  void replace_gop() {   // the pictures of one group are replaced by those of another one
    int i = at_pic(); if (i < 0) return; auto a = gop_range(i);
    const Stream &src = other && coin() ? *other : o; std::vector<int> v; for (size_t k = 0; k < src.size(); k++) if (src[k].kind == 'I') v.push_back((int)k);
    if (v.empty()) return; int from = pick(v);
    if (chance(1, 3)) for (int k : v) if (src[k].gop == s[i].gop - 1) from = k;   // often the one before, which continues the chain
    Stream r; for (int k = from; k < (int)src.size() && (k == from || src[k].kind != 'I'); k++) if (src[k].is_pic()) r.push_back(src[k]);
    Stream keep; for (int k = a.first; k < a.second; k++) if (s[k].is_sei()) keep.push_back(s[k]);   // the SEIs stay
    s.erase(s.begin() + a.first, s.begin() + a.second); s.insert(s.begin() + a.first, keep.begin(), keep.end()); s.insert(s.begin() + a.first + choice((uint32_t)keep.size() + 1), r.begin(), r.end());
    note("replace_gop", a.first);
  }
  void join_recording() {   // continues with another recording at the same or a nearby group
    if (!other || other->empty()) return; std::vector<int> a; for (size_t i = 0; i < s.size(); i++) if (s[i].kind == 'I' && s[i].gop > 0) a.push_back((int)i);
    if (a.empty()) return; int i = pick(a), want = s[i].gop + (coin() ? 0 : (int)choice(3) - 1), j = -1;
    for (size_t k = 0; k < other->size(); k++) if ((*other)[k].kind == 'I' && (*other)[k].gop == want) { j = (int)k; break; }
    if (j < 0) return;
    int last = s[i].gop - 1; Stream r(s.begin(), s.begin() + i);
    // SEIs of the groups in front that have not arrived yet come first, those of the other recording that belong to earlier groups are left out
    for (size_t k = i; k < s.size(); k++) if (s[k].kind == 'S' && s[k].cam == s[i].cam && s[k].gop <= last) r.push_back(s[k]);
    for (size_t k = j; k < other->size(); k++) if (!((*other)[k].kind == 'S' && (*other)[k].gop < want)) r.push_back((*other)[k]);
    s = r; note("join_recording", i);
  }
  void swap_sei() { int i = at_sei(), j = at_sei(); if (i < 0 || i == j) return; std::swap(s[i], s[j]); note("swap_seis", std::min(i, j)); }
  void foreign_sei() { if (!other) return; std::vector<int> v; for (size_t k = 0; k < other->size(); k++) if ((*other)[k].kind == 'S') v.push_back((int)k); if (v.empty()) return; int i = at_sei(); if (i < 0) return; if (coin()) s[i] = (*other)[pick(v)]; else s.insert(s.begin() + i, (*other)[pick(v)]); note("foreign_sei", i); }
  void extras() { int i = choice((uint32_t)s.size() + 1); Nal n; n.kind = "vza"[choice(3)]; n.b = make_nal(codec, n.kind, 0, 7, 0, false, 2); s.insert(s.begin() + i, n); note("insert_nonpicture", i); }
  typedef void (Channel::*Op)();
};
