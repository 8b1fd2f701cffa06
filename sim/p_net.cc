// C01 convergence, C02 client event stream, C04 messages
#include "chaos.h"

static void someOps(Plan& p, Rng& r, GenCtx& g, int n, double fault, bool conflicting, bool msgs, bool uniqueNicks = false) {
  auto slot = [&] { auto it = g.slotNode.begin(); std::advance(it, r.below(g.slotNode.size())); return it->first; };
  for (int i = 0; i < n; i++) {
    int s = slot(); const string& c = r.pick(g.chans);
    if (r.chance(fault)) { genLinkFault(p, r, g); continue; }
    switch (r.below(22)) {
      case 0: case 1: case 2: case 3: p.op("join %d %s", s, c.c_str()); break;
      case 4: p.op("part %d %s", s, c.c_str()); break;
      case 5: if (uniqueNicks) p.op("nick %d u%dx%d", s, s, (int)r.below(3)); else p.op("nick %d %s", s, r.pick(g.nicks).c_str()); break;
      case 6: case 7: p.op("omode %d %s %s %d", s, c.c_str(), r.pick(vector<string>{"+o", "-o", "+v", "-v", "+o", "+v"}).c_str(), slot()); break;
      case 8: if (conflicting) { p.op("mode %d %s %s", s, c.c_str(), r.pick(vector<string>{"+i", "-i", "+t", "-t", "+n", "+s", "-s", "+p", "+m", "-m", "+k key1", "-k key1", "+l 5", "-l", "+b *!*@10.99.*", "-b *!*@10.99.*", "+b x!y@z", "+r", "-r", "+D", "-D", "+k k2", "+l 9", "+nt-s", "+C", "+c", "-Cc", "+T", "+u", "-u"}).c_str()); } break;
      case 9: if (conflicting) p.op("topic %d %s t%d", s, c.c_str(), i); break;
      case 10: p.op("kick %d %s %d", s, c.c_str(), slot()); break;
      case 11: p.op("away %d%s", s, r.chance(0.5) ? " gone fishing" : ""); break;
      case 12: p.op(r.chance(0.5) ? "quit %d" : "drop %d", s); g.slotNode.erase(s); { int ns = g.nextSlot++, nd = r.below(g.n); g.slotNode[ns] = nd; if (uniqueNicks) p.op("cl %d %d u%d", ns, nd, ns); else p.op("cl %d %d %s", ns, nd, r.pick(g.nicks).c_str()); } break;
      case 13: p.op("umode %d %s", s, r.pick(vector<string>{"+i", "-i", "+d", "-d", "+w", "+x"}).c_str()); break;
      case 14: p.op("invite %d %s %d", s, c.c_str(), slot()); break;
      case 15: case 16: case 17: case 18: if (msgs) { if (r.chance(0.3)) p.op("%s %d %d %d", r.chance(0.7) ? "pm" : "pn", s, slot(), g.nextId++); else p.op("%s %d %s %d %d", r.chance(0.8) ? "msg" : "notice", s, c.c_str(), g.nextId++, r.chance(0.2) ? (int)r.below(400) : 0); } else p.op("join %d %s", s, c.c_str()); break;
      case 19: if (r.chance(0.2)) { p.op("oper %d", s); if (uniqueNicks) p.op("settle"); else p.op("wait 300"); p.op("kill %d %d", s, slot()); if (uniqueNicks) p.op("settle"); } else p.op("j0 %d", s); break;
      default: p.op("wait %d", vector<int>{1, 10, 100, 1000, 5000}[r.below(5)]); 
    }
  }
}
// mode 0: concurrent operations, no link faults.  mode 1: links fail only at rest, operations during the split, then heal.
// mode 2: anything at any time; then only servers, users and memberships must agree (crossing a SQUIT with a channel
// creation legitimately leaves the two sides with different ideas of who created it).
static void gen1(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2);
  int mode = r.below(3); p.set("mode", mode);
  GenCtx g = genBase(p, r, 4, 3 + r.below(6), 1 + r.below(4));
  if (mode == 1) { p.set("lat.max", 20000); p.knobs.erase("slat.max"); p.knobs.erase("slat.min"); p.knobs.erase("sched"); }
  p.op("wait 3000");
  if (mode != 1) genAnchors(p, r, g);
  int rounds = 1 + r.below(3);
  for (int i = 0; i < rounds; i++) {
    if (mode == 1) { p.op("settle"); genLinkFault(p, r, g); if (r.chance(0.3)) genLinkFault(p, r, g); p.op("wait %d", (int)r.range(1000, 200000)); }
    size_t o0 = p.ops.size(); someOps(p, r, g, 5 + r.below(mode == 1 ? 15 : 40), mode == 2 ? 0.06 : 0, true, false, mode != 2);
    if (mode == 1) { vector<string> t(p.ops.begin() + o0, p.ops.end()); p.ops.resize(o0); for (auto& x : t) { p.ops.push_back(x); p.op("wait 3000"); } }
    if (mode == 1) p.op("healnow");
  }
}
static void run1(const Plan& p) {
  Chaos c(p, *W); c.topology(); W->start();
  c.trackMsgs = false; c.views = false; c.homes = true;
  c.run();
  c.heal();
  auto d = W->dumpAll("after healing");
  if (p.num("mode") == 2) for (auto& x : d) for (auto& ch : x.second.chans) { auto& v = ch.second; v.ts = 0; v.modes.clear(); v.key = ""; v.limit = 0; v.bans.clear(); v.topic = ""; for (auto& m : v.members) m.second = Member(); }
  checkConverged(*W, d, "diverged");
  checkTruth(*W, d, "truth");
}
static RegProp r1({"C01", "Network converges", "", "", gen1, run1, 1, "", {}});

static void gen2(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2);
  GenCtx g = genBase(p, r, 3, 3 + r.below(5), 1 + r.below(3));
  p.op("wait 3000");
  someOps(p, r, g, 10 + r.below(60), r.chance(0.5) ? 0.05 : 0, true, true);
}
static void run2(const Plan& p) {
  Chaos c(p, *W); c.topology(); W->start();
  c.trackMsgs = false; c.views = true;
  c.run();
  c.heal();
  checkFold(*W, "fold");
}
static RegProp r2({"C02", "Client stream", "", "", gen2, run2, 1, "", {}});

static void gen4(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2);
  GenCtx g = genBase(p, r, 4, 3 + r.below(5), 1 + r.below(3));
  for (auto& s : g.slotNode) for (auto& c : g.chans) if (r.chance(0.7)) p.op("join %d %s", s.first, c.c_str());
  p.op("settle");
  int eps = 1 + r.below(4);
  double f = r.chance(0.4) ? 0.04 : 0;
  for (int i = 0; i < eps; i++) { someOps(p, r, g, 8 + r.below(30), f, false, true); p.op("settle"); }
}
static void run4(const Plan& p) {
  Chaos c(p, *W); c.topology(); W->start();
  c.views = false; c.run(); c.heal();
}
static RegProp r4({"C04", "Messages", "", "", gen4, run4, 1, "", {}});
