#pragma once
#include "world.h"
#include <errno.h>
using std::multiset;
// case-insensitive glob (reference implementation used by the models)
inline bool globm(const string& m0, const string& s0) {
  string m = lower(m0), s = lower(s0); size_t mi = 0, si = 0, star = string::npos, ss = 0;
  while (si < s.size()) {
    if (mi < m.size() && (m[mi] == '?' || m[mi] == s[si]) && m[mi] != '*') { mi++; si++; }
    else if (mi < m.size() && m[mi] == '*') { star = mi++; ss = si; }
    else if (star != string::npos) { mi = star + 1; si = ++ss; }
    else return false;
  }
  while (mi < m.size() && m[mi] == '*') mi++;
  return mi == m.size();
}
inline void rstLink(World& w, int x, int y) {
  for (auto& f : w.node(x)->fds) { auto& s = f.second; if (s->kind != Sock::TCP || s->state != Sock::ESTAB) continue; auto pe = s->peer.lock(); if (pe && pe->node == w.node(y)) {
    w.s.ctr[C_link_cut]++; s->rstSeen = true; s->err = ECONNRESET; pe->rstSeen = true; pe->err = ECONNRESET; w.s.poke(s.get()); w.s.poke(pe.get()); break; } }
}
