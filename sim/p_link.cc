// C08: only authorised servers link, and the network stays a tree every server agrees on.
#include "chaos.h"
#include "util.h"
namespace {
struct Link {
  struct Down { string name, num, up, nick; int depth; int64_t ts = 0; };
  struct Pe { Peer* q = nullptr; int at = 0, g = 0; map<string, Down> downs; string nick; };
  const Plan& p; World& w; int n; vector<Client*> op_; vector<Pe> ps; int seq = 0; bool hub = true; set<string> nicks; set<string> juped; set<int64_t> used;
  explicit Link(const Plan& p) : p(p), w(*W), n(p.num("n", 1)) {}
  void rest() { w.s.runFor(300 * MS); w.settle(); w.until([&] { return w.s.quiet(); }, 60 * SEC); w.settle(); }
  static string gname(int i) { return fmt("g%d.sim.net", i); }
  static string gip(int i) { return fmt("10.9.1.%d", i + 1); }
  Pe* live(int slot) { return slot >= 0 && slot < (int)ps.size() && ps[slot].q && ps[slot].q->live() ? &ps[slot] : nullptr; }
  Pe* byName(const string& nm) { for (auto& x : ps) if (x.q && x.q->live() && x.q->name == nm) return &x; return nullptr; }
  bool taken(const string& nm, const string& num) { for (int i = 0; i < n; i++) if (w.name(i) == nm || b64(w.srv[i].numeric, 2) == num) return true; for (auto& x : ps) if (x.q && x.q->live()) { if (x.q->name == nm || x.q->num == num) return true; for (auto& d : x.downs) if (d.second.name == nm || d.second.num == num) return true; } return false; }
  void drop(Pe& x, const string& nm) { vector<string> kids; for (auto& d : x.downs) if (d.second.up == nm) kids.push_back(d.first); x.downs.erase(nm); for (auto& k : kids) drop(x, k); }
  void introduce(Peer* q, const string& by, const string& nick) { q->send(by + fmt(" N %s 1 1700000000 u h.x + AKCQkJ %sAAA :user", nick.c_str(), by.c_str())); nicks.insert(nick); }
  // the servers a server must know: name -> "uplink hops"
  map<string, string> truth(int s) {
    map<string, string> r; for (int i = 0; i < n; i++) r[w.name(i)] = fmt("%s %d", i == s ? w.name(s).c_str() : w.name(i > s ? i - 1 : i + 1).c_str(), abs(i - s));
    for (auto& x : ps) if (x.q && x.q->live()) { int d = abs(x.at - s) + 1; r[x.q->name] = fmt("%s %d", w.name(x.at).c_str(), d); for (auto& y : x.downs) r[y.second.name] = fmt("%s %d", y.second.up.c_str(), d + y.second.depth); }
    return r;
  }
  void check(const string& what) {
    for (int round = 0;; round++) {
      rest(); if (n > 1 && !w.until([&] { for (int i = 0; i + 1 < n; i++) if (!w.isLinked(i, i + 1)) return false; return true; }, 400 * SEC)) w.fail("liveness:link", "the servers do not link again after " + what);
      rest(); bool up = true; for (int i = 0; i + 1 < n; i++) if (!w.isLinked(i, i + 1)) up = false; if (up) break; if (round > 4) w.fail("liveness:loop", "the servers keep breaking their link after " + what);
    }
    set<string> names; for (auto& x : ps) if (x.q && x.q->live()) { if (!names.insert(lower(x.q->name)).second) w.fail("tree:twice", "two servers named " + x.q->name + " are linked after " + what); for (auto& d : x.downs) if (!names.insert(lower(d.second.name)).second) w.fail("tree:twice", d.second.name + " is in the network at two places after " + what); }
    set<string> on; for (auto& x : ps) if (x.q && x.q->live()) { on.insert(x.nick); for (auto& d : x.downs) on.insert(d.second.nick); }
    for (int s = 0; s < n; s++) {
      Client* c = op_[s]; if (!c->ok()) w.fail("harness:oper", c->reason); vector<Msg> out; w.query(c, "LINKS", "365", out); map<string, string> got; for (auto& m : out) if (m.cmd == "364") { if (got.count(m.arg(1))) w.fail("tree:links", w.name(s) + " lists " + m.arg(1) + " twice after " + what); got[m.arg(1)] = m.arg(2) + " " + words(m.last())[0]; }
      auto want = truth(s); if (got != want) { string a, b; for (auto& x : want) if (!got.count(x.first) || got[x.first] != x.second) a += " [" + x.first + " " + x.second + "]"; for (auto& x : got) if (!want.count(x.first) || want[x.first] != x.second) b += " [" + x.first + " " + x.second + "]"; w.fail("tree:links", w.name(s) + " should know" + a + " and knows" + b + " after " + what); }
      vector<string> l(nicks.begin(), nicks.end()); set<string> g; for (size_t i = 0; i < l.size(); i += 20) { string q = "ISON"; for (size_t j = i; j < std::min(l.size(), i + 20); j++) q += " " + l[j]; size_t m = c->log.size(); c->send(q); w.until([&] { return c->find("303", m) != nullptr; }, 60 * SEC); auto* r = c->find("303", m); if (r) for (auto& x : words(r->last())) g.insert(x); }
      if (g != on) { string a, b; for (auto& x : on) if (!g.count(x)) a += " " + x; for (auto& x : g) if (!on.count(x)) b += " " + x; w.fail("tree:users", w.name(s) + " lacks the users" + a + " and has" + b + " after " + what); }
    }
  }
  void op(const string& o) {
    auto a = words(o); const string& k = a[0]; w.s.mix(hashstr(o)); int s = a.size() > 1 ? atoi(a[1].c_str()) : 0;
    if (k == "link") {   // link G SRV VARIANT AGE
      int at = atoi(a[2].c_str()) % n, age = atoi(a[4].c_str()); const string& v = a[3]; Peer* q = w.peer(at, 10 + ps.size()); q->name = gname(s); q->ip = gip(s); q->pass = s == 1 ? "otherpw" : "linkpass"; q->numeric = 150 + s; q->autoHandshake = false; bool may = s != 5 && s != 7, loop = false;
      if (v == "pass") { q->pass = "linkpas"; may = false; } if (v == "pass2") { q->pass = s == 1 ? "linkpass" : "otherpw"; may = false; } if (v == "nopass") { q->pass = ""; may = false; } if (v == "ip") { q->ip = "10.9.2.9"; may = false; } if (v == "name") { q->name = "h.sim.net"; may = false; } if (v == "other") { q->name = gname((s + 3) % 5); may = false; } if (v == "user") { q->port = 6668; may = false; } if (v == "bogus") { q->name = "nodots"; may = false; }
      if (v == "num") { q->numeric = w.srv[at].numeric; may = false; } if (s == 6 && linkedTo(at, "g0.sim.net")) may = false; if (!hub && any(at)) may = false; if (juped.count(q->name)) may = false;
      if (taken(q->name, b64(q->numeric, 2))) loop = true;
      int64_t hs = 0; (void)hs; auto slot = ps.size(); ps.push_back({q, at, s, {}, fmt("u%d", ++seq)}); q->onMsg = [this, slot](Peer&, Msg& m, const string&) { if (m.cmd == "SQ" && m.p.size()) { auto& x = ps[slot]; for (auto& d : x.downs) if ((lower(d.second.name) == lower(m.arg(0)) || d.second.num == m.arg(0)) && (atoll(m.arg(1).c_str()) == 0 || atoll(m.arg(1).c_str()) == d.second.ts)) { drop(x, d.first); break; } } };
      int64_t from = w.node(at)->wall(); q->connect(); w.until([&] { return q->connected || q->dead; }, 30 * SEC); if (q->dead) { if (may) w.fail("harness:connect", q->reason); ps.back().q = nullptr; return; }
      q->linkTs -= age; if (v == "oldts") { q->linkTs = 1000; may = false; } if (v == "proto") { q->send("PASS :" + q->pass); q->send(fmt("SERVER %s 1 %lld %lld J08 %sAAA +6 :x", q->name.c_str(), (long long)q->boot, (long long)q->linkTs, q->num.c_str())); may = false; } else if (v == "early") { q->send(fmt("SERVER %s 1 %lld %lld J10 %sAAA +6 :x", q->name.c_str(), (long long)q->boot, (long long)q->linkTs, q->num.c_str())); may = false; } else q->handshake();
      w.until([&] { return q->dead || q->linked(); }, 40 * SEC); rest(); bool in = q->live() && q->linked(); for (int64_t z = from - age; z <= w.node(at)->wall(); z++) used.insert(z);
      if (!may && in && !(loop && v == "num")) w.fail("link:accepted", q->name + " (" + v + fmt(", %d) was let in by ", s) + w.name(at) + " although it must not link"); if (!may && q->gotServer && v != "num") w.fail("link:told", q->name + " (" + v + ") was sent the handshake of " + w.name(at)); if (may && !loop && !in) w.fail("link:refused", q->name + " was refused by " + w.name(at) + ": " + q->reason);
      if (!in) { if (!q->dead) q->die("refused"); ps[slot].q = nullptr; } else introduce(q, q->num, ps[slot].nick); coverTransition(string(in ? "in " : "out ") + v + fmt("%d%d", s, loop)); check(o); return; }
    if (k == "jupe") { op_[0]->send(fmt("JUPE %c%s * 5000 :off", a[2][0], gname(s).c_str())); rest(); if (a[2] == "+") juped.insert(gname(s)); else juped.erase(gname(s)); if (auto x = byName(gname(s))) if (a[2] == "+") w.fail("link:jupe", x->q->name + " stays linked although it is juped"); for (auto& x : ps) if (x.q && x.q->dead) x.q = nullptr; check(o); return; }
    if (k == "split") { if (s + 1 >= n) return; rstLink(w, s, s + 1); w.s.runFor(SEC); check(o); coverTransition("split"); return; }
    if (k == "squit") {   // squit SRV WHAT: an operator removes a server
      vector<string> all; for (auto& x : ps) if (x.q && x.q->live()) { all.push_back(x.q->name); for (auto& d : x.downs) all.push_back(d.second.name); } if (all.empty()) return; string nm = all[atoi(a[2].c_str()) % all.size()]; op_[s % n]->send("SQUIT " + nm + " :go"); rest(); for (auto& x : ps) if (x.q && x.q->live()) { if (x.q->name == nm) w.fail("tree:squit", nm + " stays linked after SQUIT"); for (auto& d : x.downs) if (d.second.name == nm) w.fail("tree:squit", "the uplink of " + nm + " was not told of its removal"); } check(o + " " + nm); coverTransition("squit"); return; }
    Pe* x = nullptr; int cnt = 0; for (auto& y : ps) if (y.q && y.q->live()) cnt++; if (!cnt) return; int pickI = s % cnt; for (auto& y : ps) if (y.q && y.q->live() && pickI-- == 0) { x = &y; break; } Peer* q = x->q;
    if (k == "gone") { if (a[2] == "s") q->send(q->num + " SQ " + w.name(x->at) + " 0 :bye"); else q->die("gone", a[2] == "r"); w.s.runFor(SEC); if (!q->dead) q->die("gone"); check(o); coverTransition("gone"); return; }
    if (k == "drop") { if (x->downs.empty()) return; auto it = x->downs.begin(); std::advance(it, atoi(a[2].c_str()) % x->downs.size()); string nm = it->second.name; drop(*x, it->first); q->send(q->num + " SQ " + nm + " 0 :lost"); check(o); coverTransition("drop"); return; }
    if (k == "stale") {   // a removal that refers to an earlier link of the same server has no effect
      vector<string> all; for (auto& y : ps) if (y.q && y.q->live()) { if (y.q != q) all.push_back(y.q->name); for (auto& d : y.downs) all.push_back(d.second.name); } for (int i = 0; i < n; i++) if (i != x->at) all.push_back(w.name(i)); if (all.empty()) return; string nm = all[atoi(a[2].c_str()) % all.size()];
      q->send(q->num + fmt(" SQ %s %d :lost", nm.c_str(), 1000000000 + atoi(a[2].c_str()))); w.s.runFor(SEC); if (!q->live()) w.fail("tree:stale", q->name + " was cut off: " + q->reason); check(o + " " + nm); coverTransition("stale"); return; }
    if (k == "intro") {   // intro PEER UNDER NAME NUM J AGE: a linked server announces another behind it
      vector<Down> ups; ups.push_back({q->name, q->num, "", "", 0}); for (auto& d : x->downs) ups.push_back(d.second); Down u = ups[atoi(a[2].c_str()) % ups.size()]; string nm = a[3]; int ni = atoi(a[4].c_str()); string num = b64(170 + ni, 2); if (nm == "real") nm = w.name(ni % n); if (nm == "me") nm = w.name(x->at); if (a[4] == "r") num = b64(w.srv[x->at].numeric, 2); if (a[4] == "s") num = q->num; if (nm[0] == '=') { vector<Pe*> l; for (auto& y : ps) if (y.q && y.q->live()) l.push_back(&y); Pe* z = l[atoi(nm.c_str() + 1) % l.size()]; if (z == x) return; nm = z->q->name; num = z->q->num; for (auto& d : z->downs) if (seq & 1) { nm = d.second.name; num = d.second.num; } }
      if (a[4] != "r" && a[4] != "s") for (auto& y : ps) if (y.q && y.q->live()) { if (y.q->name == nm) num = y.q->num; for (auto& d : y.downs) if (d.second.name == nm) num = d.second.num; }
      for (auto& y : ups) if (lower(y.name) == lower(nm) || y.num == num) if (a[4] != "s" || taken(nm, "")) return;   // a server does not announce what it has already
      bool dup = taken(nm, num), jp = juped.count(nm); int depth = u.depth + 1, hop = depth + 1; int g = x->g; bool ok = g == 2 ? false : g == 4 ? hop <= 2 : g == 3 ? globm("*.sub.net", nm) : true; int64_t ts = w.node(x->at)->wall() - atoi(a[6].c_str()); while (!used.insert(ts).second) ts--; string nick = fmt("u%d", ++seq); nicks.insert(nick);
      q->send(u.num + fmt(" S %s %d 0 %lld %s10 %sAAA +6 :behind", nm.c_str(), hop, (long long)ts, a[5].c_str(), num.c_str())); x->downs[nm] = {nm, num, u.name, nick, depth, ts}; introduce(q, num, nick); if (a[5] == "J") { q->send(num + " EB"); q->send(num + " EA"); } w.s.runFor(2 * SEC); rest();
      bool in = q->live() && x->downs.count(nm); if (!dup && !jp) { if (ok && !in) w.fail("intro:refused", nm + " behind " + q->name + " was refused: " + q->reason); if (!ok && in) w.fail("intro:accepted", nm + fmt(" was let in behind %s at hop %d although that is not allowed", q->name.c_str(), hop)); }
      coverTransition(fmt("intro%d%d%d ", ok, in, dup) + a[5]); for (auto& y : ps) if (y.q && y.q->dead) y.q = nullptr; check(o + " " + nm + " " + num); return; }
  }
  bool linkedTo(int at, const string& nm) { for (auto& x : ps) if (x.q && x.q->live() && x.at == at && x.q->name == nm) return true; return false; }
  bool any(int at) { for (auto& x : ps) if (x.q && x.q->live() && x.at == at) return true; return n > 1; }
  void run() {
    hub = !p.num("leaf", 0); if (!hub) w.features["HUB"] = "FALSE"; w.features["CONNECTFREQUENCY"] = "20";
    string C = "class = \"Server\"; autoconnect = no; port = 4400; ";
    for (int i = 0; i < 8; i++) w.extraConf += fmt("Connect { name = \"%s\"; host = \"%s\"; password = \"%s\"; ", gname(i).c_str(), gip(i).c_str(), i == 1 ? "otherpw" : "linkpass") + C + (i == 2 ? "leaf; " : i == 3 ? "hub = \"*.sub.net\"; " : i == 4 ? "hub; maxhops = 2; " : "hub; ") + (i == 5 ? "tls fingerprint = \"aabbcc\"; " : "") + "};\n";
    w.extraConf += "CRule { server = \"g6.*\"; rule = \"directcon(g0.sim.net)\"; all = yes; };\nCRule { server = \"g7.*\"; rule = \"!via(*,nowhere.*) && directop()\"; all = yes; };\n";
    for (int i = 0; i < n; i++) { w.addServer("", i ? vector<int>{i - 1} : vector<int>{}); w.srv[i].tls = false; }
    w.start(); for (int i = 0; i < n; i++) { Client* c = w.client(i, fmt("gop%d", i)); op_.push_back(c); } if (!w.waitReg()) w.fail("harness:reg", "opers"); for (auto c : op_) c->send("OPER gop operpass"); rest();
    for (auto& o : p.ops) op(o); check("everything");
  }
};
void gen08(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2); p.knobs.erase("slat.max"); p.knobs.erase("slat.min"); int n = 1 + r.below(3); p.set("n", n); if (n == 1 && r.chance(0.25)) p.set("leaf", 1); int ops = 8 + r.below(25);
  vector<string> bad = {"pass", "pass2", "nopass", "ip", "name", "other", "user", "bogus", "num", "oldts", "proto", "early"}; vector<int> ages = {0, 0, 1, 50, 500, 5000};
  for (int i = 0; i < ops; i++) { int q = r.below(20);
    if (q < 7 || i < 2) p.op("link %d %d %s %d", (int)(r.chance(0.8) ? r.below(5) : r.below(8)), (int)r.below(n), r.chance(0.7) ? "ok" : r.pick(bad).c_str(), ages[r.below(6)]);
    else if (q < 15) { string nm = r.chance(0.75) ? r.chance(0.6) ? fmt("d%d.sub.net", (int)r.below(5)) : fmt("d%d.sim.net", (int)r.below(4)) : r.chance(0.7) ? fmt("=%d", (int)r.below(4)) : r.chance(0.5) ? string("me") : fmt("g%d.sim.net", (int)r.below(5)); p.op("intro %d %d %s %s %s %d", (int)r.below(4), (int)r.below(3), nm.c_str(), r.chance(0.95) ? fmt("%d", (int)r.below(8)).c_str() : r.chance(0.5) ? "r" : "s", r.chance(0.5) ? "J" : "P", ages[r.below(6)]); }
    else if (q < 16 && r.chance(0.4)) p.op("stale %d %d", (int)r.below(4), (int)r.below(9)); else if (q < 16) p.op("split %d", (int)r.below(n)); else if (q < 17) p.op("squit %d %d", (int)r.below(n), (int)r.below(9)); else if (q < 18) p.op("gone %d %s", (int)r.below(4), vector<string>{"s", "r", "f"}[r.below(3)].c_str()); else if (q < 18 && r.chance(0.5)) p.op("stale %d %d", (int)r.below(4), (int)r.below(9)); else if (q < 19) p.op("drop %d %d", (int)r.below(4), (int)r.below(4)); else p.op("jupe %d %s", (int)r.below(5), r.chance(0.5) ? "+" : "-"); }
}
void run08(const Plan& p) { Link b(p); b.run(); }
RegProp reg08({"C08", "Linking", "Plans: scripted servers with every kind of wrong and right identity try to link to 1-3 servers with several kinds of Connect blocks, announce further servers behind them (allowed, forbidden, duplicates in name or number, loops with younger and older links), leave, are removed and juped, while the links between the servers break; after each step every server's map and users must be the same tree.", "delays, segmentation, resets of server links, disconnects at any stage", gen08, run08, 1, "", {}});
}
