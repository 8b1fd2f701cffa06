// C28: a flooding client is slowed, then cut off, and cannot address many strangers; nobody else is affected.
#include "chaos.h"
#include "util.h"
namespace {
struct Fld {
  struct Ln { Time at = 0, ans = 0; size_t bytes = 0; int cost = 2; };
  struct Sl { Client* c = nullptr; int srv = 0, tr = 0; bool exempt = false; vector<Ln> ln; size_t answered = 0, cur = 0; vector<std::pair<Time, size_t>> sentB, ansB; size_t sent = 0, ans = 0; string part; Time partAt = 0, regAt = 0; int lim = 0; };
  struct Tg { Client* c = nullptr; int srv = 0; Time next = 0, from = 0; set<string> known, rep; int ev = 0, firstRep = 0; bool sure(const string& t) { return known.count(t) && (rep.count(t) ? ev - firstRep <= 6 : ev <= 18); } int accepted = 0, fresh = 0; bool exact = true; string ip; Time chgMin = 0; };
  const Plan& p; World& w; int n, CF, MX; map<int, Sl> sl; map<int, Tg> tg; Client* wit[2] = {0, 0}; Client* obs[2] = {0, 0}; Peer* pr = nullptr; vector<string> fake; int seq = 0; Time lag; const int TD = 128; Time rehashAt = 0;
  explicit Fld(const Plan& p) : p(p), w(*W), n(p.num("n", 1)), CF(p.num("cf", 1024)), MX(p.num("mx", 262144)) { lag = 2 * p.num("lat.max", 1500) + 2 * p.num("sched", 0) + 500 * MS + (p.num("chunk", 0) || p.real("eagain", 0) > 0 || p.real("short", 0) > 0 ? SEC : 0); }
  string kind(const Sl& x) { return x.c->who() + fmt(" (%s%s)", x.tr == 1 ? "WebSocket" : x.tr == 2 ? "TLS" : "plain", x.exempt ? ", exempt class" : ""); }
  int limit(const Sl& x) { return x.exempt ? MX : CF; }
  bool throttled(const Sl& x) { return !(x.exempt && MX > CF); }
  void collect(Sl& x) {
    Client* c = x.c; if (!c) return;
    for (; x.cur < c->log.size(); x.cur++) { auto& m = c->log[x.cur]; if (m.cmd != "PONG") continue; string t = m.last(); if (t.empty() || t[0] != 'k') continue; size_t i = atoi(t.c_str() + 1);
      if (i != x.answered) w.fail(i < x.answered ? "flood:twice" : "flood:order", kind(x) + fmt(" got the answer to command %d when that to %d was next", (int)i, (int)x.answered)); if (i >= x.ln.size()) w.fail("flood:order", kind(x) + " got an answer to what it did not ask");
      auto& l = x.ln[i]; l.ans = m.at; x.answered++; x.ans += l.bytes; x.ansB.push_back({m.at, x.ans}); speed(x, i); }
    if (c->dead) { died(x); return; }
  }
  void speed(Sl& x, size_t i) {   // not faster than allowed
    if (!throttled(x)) return; int sum = 0;
    for (size_t k = i; k-- > 0;) { sum += x.ln[k].cost; double el = (double)(x.ln[i].ans - x.ln[k].ans + lag) / SEC; if (x.ln[k].ans < rehashAt + 5 * SEC) break; if (sum - 10 - 2 > el) w.fail("flood:fast", kind(x) + fmt(" had %d commands costing %d s carried out within %.1f s", (int)(i - k), sum, el)); if (el > 400) break; }
    if (sum > 10) coverTransition("slowed" + std::to_string(x.tr));
  }
  void late(Sl& x) {   // not slower than promised
    Client* c = x.c; if (!c || c->dead) return; double since = 0, t0 = 0; (void)t0;
    for (size_t i = 0; i < x.ln.size(); i++) {
      double a = (double)(x.ln[i].at + lag) / SEC; since = std::max(since, a); double T = a; if (throttled(x)) { T = std::max(a, since - 10 + 1); since += x.ln[i].cost; }
      double got = x.ln[i].ans ? (double)x.ln[i].ans / SEC : (double)w.s.now / SEC;
      if (got > T + 2 + 1.5 + 2 * (double)lag / SEC) { if (x.ln[i].ans && x.ln[i].ans < rehashAt + 60 * SEC) return; w.fail(x.ln[i].ans ? "flood:slow" : "flood:lost", kind(x) + fmt(": command %d of %d, sent %.1f s ago, was due after %.1f s and ", (int)i, (int)x.ln.size(), got - (double)x.ln[i].at / SEC, T - (double)x.ln[i].at / SEC) + (x.ln[i].ans ? "came late" : "is not carried out")); }
      if (!x.ln[i].ans) break; }
  }
  size_t before(const vector<std::pair<Time, size_t>>& v, Time t) { size_t r = 0; for (auto& e : v) if (e.first <= t) r = e.second; return r; }
  void died(Sl& x) {
    Client* c = x.c; string why = c->reason; for (auto i = c->log.rbegin(); i != c->log.rend() && i - c->log.rbegin() < 6; ++i) if (i->cmd == "ERROR") why = i->raw; Time t1 = c->deadAt;
    bool ok = false; size_t mx = 0; for (auto& e : x.sentB) if (e.first <= t1) { size_t a = before(x.ansB, e.first); size_t o = e.second > a ? e.second - a : 0; mx = std::max(mx, o); if ((int)o + 1 > std::min(x.lim, limit(x))) ok = true; }
    if (!ok) w.fail("flood:cut", kind(x) + fmt(" was cut off with at most %d bytes waiting, limit %d: ", (int)mx, limit(x)) + why);
    coverTransition(fmt("excess%d%d", x.tr, (int)x.exempt)); string nk = c->nick; Client* v = obs[x.srv]; w.s.runFor(2 * SEC + lag); bool q = false; for (auto i = v->log.rbegin(); i != v->log.rend(); ++i) if (i->cmd == "QUIT" && i->nick() == nk) { q = true; if (i->last() != "Excess Flood" && !(p.real("eagain", 0) > 0)) w.fail("flood:reason", nk + " was cut off for flooding and shown leaving as '" + i->last() + "'"); }
    if (!q) w.fail("flood:quit", nk + " was cut off and is not shown leaving"); x.c = nullptr;
  }
  void must(Sl& x) {   // more waits than allowed and it is still connected
    Client* c = x.c; if (!c || c->dead) return; Time now = w.s.now; size_t s = before(x.sentB, now - 3 * SEC - 2 * lag), a = x.ans; if (s > a && (int)(s - a) > limit(x) + 700 && now > rehashAt + 60 * SEC) w.fail("flood:kept", kind(x) + fmt(" has %d bytes waiting for 3 s, limit %d, and is still connected", (int)(s - a), limit(x)));
  }
  void put(Sl& x, const string& bytes) { x.sent += bytes.size(); x.sentB.push_back({w.s.now, x.sent}); }
  string line(Sl& x, int len) { Ln l; string s = fmt("PING :k%d.", (int)x.ln.size()); while ((int)s.size() < len) s += 'x'; l.at = w.s.now; l.bytes = s.size() + 2; l.cost = 2 + std::max(0, (int)s.size() - 5) / 120; x.ln.push_back(l); return s; }
  void tick(Time d) { for (Time e = w.s.now + d; w.s.now < e;) { w.s.runFor(500 * MS); for (auto& x : sl) { if (x.second.part.size() && w.s.now - x.second.partAt > 40 * SEC) endPart(x.second); collect(x.second); must(x.second); } for (auto v : obs) if (v) { if (!v->ok()) w.fail("flood:other", v->who() + " was cut off: " + v->reason); } probe(); } }
  Time lastP = 0, pAt[2] = {0, 0}; int pn[2] = {0, 0}; size_t pcur[2] = {0, 0};
  void probe() { for (int i = 0; i < n; i++) { Client* v = wit[i]; for (; pcur[i] < v->log.size(); pcur[i]++) if (v->log[pcur[i]].cmd == "PONG" && v->log[pcur[i]].last() == fmt("p%d", pn[i])) { if (v->log[pcur[i]].at - pAt[i] > SEC + 2 * lag) w.fail("flood:other", v->who() + fmt(" waited %.1f s for an answer while others flood", (double)(v->log[pcur[i]].at - pAt[i]) / SEC)); pAt[i] = 0; }
      if (pAt[i] && w.s.now - pAt[i] > 2 * SEC + 2 * lag) w.fail("flood:other", v->who() + " got no answer while others flood"); if (!pAt[i] && w.s.now - lastP > 3 * SEC) { pAt[i] = w.s.now; v->send(fmt("PING :p%d", ++pn[i])); if (i == n - 1) lastP = w.s.now; } } }
  // targets
  void learn(Tg& x, const string& who) { if (!x.known.insert(who).second) return; if (x.rep.empty()) x.firstRep = x.ev; x.rep.insert(who); x.ev++; }
  bool model(Tg& x, const string& who, Time now) { if (x.known.count(who)) return true; if (now / SEC < x.next / SEC) return false; x.next += TD * SEC; if (x.next < now - TD * SEC * 19) x.next = now - TD * SEC * 19; x.known.insert(who); x.ev++; return true; }
  Time wait(const Msg& m) { string t = m.last(); size_t i = t.find("wait "); return m.at + (i == string::npos ? 0 : atoi(t.c_str() + i + 5)) * SEC; }
  void addressed(Tg& x, const string& who, const string& cmd, std::function<bool()> got) {
    Client* c = x.c; size_t m = c->log.size(); Tg keep = x; bool fresh = !x.known.count(who), was_sure = x.sure(who); if (!fresh && !was_sure) x.exact = false; c->send(cmd); bool ref = false; Time t0 = w.s.now; string tok = fmt("t%d", ++seq); c->send("PING :" + tok); w.until([&] { for (size_t i = m; i < c->log.size(); i++) if (c->log[i].cmd == "PONG" && c->log[i].last() == tok) return true; return c->dead; }, 10 * SEC);
    Time sync = 0; for (size_t i = m; i < c->log.size(); i++) if (c->log[i].cmd == "439") { ref = true; sync = wait(c->log[i]); } if (!ref) w.until(got, 12 * SEC); else w.s.runFor(2 * lag + SEC); bool in = got(); if (ref && in) w.fail("target:both", c->who() + " was told it may not address " + who + " yet, but did");
    bool may = model(x, who, t0); bool edge = std::llabs((long long)(keep.next - t0)) < 3 * SEC + 4 * lag; if (x.ev > 18) x.exact = false;
    x.fresh += fresh; if (in && fresh) { x.accepted++; if (!may) { x.ev++; if (edge) x.exact = false; } x.known.insert(who); coverTransition("taccept"); }
    if (!in) { if (!ref) { if (x.next - t0 < (TD - 8) * SEC) w.fail("target:mute", c->who() + ": " + cmd + " neither arrived nor was refused"); } coverTransition("trefused"); 
      if (fresh ? may && !edge && x.exact : was_sure) w.fail("target:refused", c->who() + ": " + cmd + (fresh ? " was refused although a new target was due" : " was refused although it is no new target")); if (may) x = keep; if (ref) { x.next += 2 * SEC; if (std::llabs((long long)(x.next - sync)) > 6 * SEC + 4 * lag && x.exact) w.fail("target:wait", c->who() + fmt(" was told to wait until %.0f s, should be %.0f s", (double)sync / SEC, (double)x.next / SEC)); x.next = sync; } else x.next = std::max(x.next, t0 + (TD + 8) * SEC); }
    double el = (double)(w.s.now - x.from) / SEC; if (x.accepted > 10 + el / TD + 3 + x.fresh * 0.2) w.fail("target:many", c->who() + fmt(" addressed %d strangers within %.0f s", x.accepted, el));
  }
  void op(const string& o) {
    auto a = words(o); w.s.mix(hashstr(o)); int s = a.size() > 1 ? atoi(a[1].c_str()) : 0; const string& k = a[0];
    if (k == "conn") { auto& x = sl[s]; if (x.c) return; x = Sl(); x.srv = atoi(a[2].c_str()) % n; x.tr = atoi(a[3].c_str()); x.exempt = a[4] == "1" && x.tr != 2; x.lim = limit(x);
      Client* c = w.mk(x.srv, fmt("k%d_%d", s, ++seq), x.tr == 1 ? (x.exempt ? 7000 : 7002) : x.tr == 2 ? 6697 : x.exempt ? 6668 : 6667, fmt("10.41.%d.%d", s, 1 + seq % 200)); c->transport = x.tr; c->mayDie = true; c->connect();
      w.until([&] { return c->ok() || c->dead; }, 30 * SEC); if (!c->ok()) w.fail("harness:reg", c->who() + " " + c->reason); c->send("JOIN #q"); x.c = c; x.cur = c->log.size(); x.regAt = w.s.now; tick(14 * SEC); return; }
    if (k == "wait") { tick(s * SEC); return; }
    if (k == "lines") {   // lines SLOT COUNT LEN GAPms
      auto& x = sl[s]; if (!x.c || !x.c->ok()) return; int cnt = atoi(a[2].c_str()), len = atoi(a[3].c_str()), gap = atoi(a[4].c_str());
      for (int i = 0; i < cnt && x.c && x.c->ok(); i++) { endPart(x); string l = line(x, len); put(x, l + "\r\n"); x.c->app(x.tr == 1 ? l : l + "\r\n"); if (gap) { w.s.runFor(gap * MS); collect(x); if (x.c) must(x); } } coverTransition("lines"); return; }
    if (k == "bulk") {   // all in one write
      auto& x = sl[s]; if (!x.c || !x.c->ok()) return; endPart(x); int cnt = atoi(a[2].c_str()), len = atoi(a[3].c_str()); string b; for (int i = 0; i < cnt; i++) { string l = line(x, len); bool lf = x.tr != 1 && w.rng.chance(0.5); if (lf) x.ln.back().bytes--; b += l + (lf ? "\n" : "\r\n"); if (x.tr == 1) { put(x, l + "\r\n"); x.c->app(l); } } if (x.tr != 1) { put(x, b); x.c->app(b); } coverTransition("bulk"); return; }
    if (k == "part") {   // the first part of a line, for now
      auto& x = sl[s]; if (!x.c || !x.c->ok() || x.tr == 1 || x.part.size()) return; int len = atoi(a[2].c_str()); string l = line(x, len); x.ln.back().at = w.s.now + 3600 * SEC; int h = 1 + w.rng.below(l.size() - 1); put(x, l.substr(0, h)); x.c->app(l.substr(0, h)); x.part = l.substr(h); x.c->autoPong = false; x.partAt = w.s.now; coverTransition("part"); return; }
    if (k == "end") { auto& x = sl[s]; if (x.c && x.c->ok()) endPart(x); return; }
    if (k == "rehash") { for (auto& x : sl) x.second.lim = std::min(x.second.lim, limit(x.second)); rehashAt = w.s.now + 5 * SEC; MX = atoi(a[1].c_str()); for (int i = 0; i < n; i++) { w.srv[i].maxfloodX = MX; w.writeConfig(i); w.s.signal(w.node(i), 1); } tick(3 * SEC); rehashAt = w.s.now; for (auto& x : sl) x.second.lim = std::min(x.second.lim, limit(x.second)); tick(30 * SEC); coverTransition("rehash"); return; }
    if (k == "tconn") { auto& x = tg[s]; if (x.c && x.c->ok()) return; int srv = atoi(a[2].c_str()) % n; x = Tg(); x.srv = srv; x.ip = fmt("10.42.%d.%d", s, 1 + ++seq % 200); x.c = w.mk(srv, fmt("t%d_%d", s, seq), 6668, x.ip); x.c->mayDie = true; x.from = w.s.now; x.next = w.s.now - TD * SEC * 9; x.c->connect(); w.until([&] { return x.c->ok() || x.c->dead; }, 30 * SEC); if (!x.c->ok()) w.fail("harness:reg", x.c->who() + " " + x.c->reason); w.s.runFor(SEC); return; }
    if (k == "trecon") { auto& x = tg[s]; if (!x.c || !x.c->ok()) return; x.c->send("QUIT :bye"); w.until([&] { return x.c->dead; }, 10 * SEC); w.s.runFor(SEC + lag); x.exact = false; x.c = w.mk(x.srv, fmt("t%d_%d", s, ++seq), 6668, x.ip); x.c->mayDie = true; x.c->connect(); w.until([&] { return x.c->ok() || x.c->dead; }, 30 * SEC); if (!x.c->ok()) { x.c = nullptr; return; } w.s.runFor(SEC); coverTransition("trecon"); return; }
    if (k == "msg") {   // msg S TARGET KIND
      auto& x = tg[s]; if (!x.c || !x.c->ok()) return; int t = atoi(a[2].c_str()) % fake.size(), kd = atoi(a[3].c_str()); string nk = fmt("v%d", t), txt = fmt("m%d", ++seq); size_t m = pr->log.size();
      addressed(x, nk, kd == 1 ? "NOTICE " + nk + " :" + txt : kd == 2 ? "PRIVMSG " + nk + "@svc.none :" + txt : "PRIVMSG " + nk + " :" + txt, [&] { for (size_t i = m; i < pr->log.size(); i++) if ((pr->log[i].cmd == "P" || pr->log[i].cmd == "O") && pr->log[i].last() == txt) return true; return false; }); return; }
    if (k == "reply") { auto& x = tg[s]; if (!x.c || !x.c->ok()) return; int t = atoi(a[2].c_str()) % fake.size(); size_t m = x.c->log.size(); string txt = fmt("r%d", ++seq); string num; for (auto& u : pr->view.users) if (u.second.nick == x.c->nick) num = u.first; if (num.empty()) return; pr->send(fake[t] + (w.rng.chance(0.5) ? " P " : " O ") + num + " :" + txt); w.until([&] { for (size_t i = m; i < x.c->log.size(); i++) if (x.c->log[i].last() == txt) return true; return false; }, 10 * SEC); learn(x, fmt("v%d", t)); coverTransition("treply"); return; }
    if (k == "chan") {   // addressed as a channel: joining is free of refusal, but counts
      auto& x = tg[s]; if (!x.c || !x.c->ok()) return; string ch = fmt("#w%d", atoi(a[2].c_str())); Client* c = x.c; if (!c->chans.count(ch)) { Tg was = x; Time sync = 0; bool may = model(x, ch, w.s.now), ref = false, edge = std::llabs((long long)(was.next - w.s.now)) < 3 * SEC + 4 * lag; size_t jm = c->log.size(); c->send("JOIN " + ch); w.s.runFor(SEC + lag); for (size_t i = jm; i < c->log.size(); i++) if (c->log[i].cmd == "439") ref = true, sync = wait(c->log[i]);
        if (x.ev > 18) was.exact = x.exact = false; if (ref) { if (may && !edge && x.exact) w.fail("target:refused", c->who() + ": JOIN " + ch + " was refused although a new target was due"); x = was; x.next = sync; return; } if (!was.known.count(ch)) { x.accepted++; x.known.insert(ch); } } string txt = fmt("c%d", ++seq); Client* v = obs[x.srv]; size_t m = v->log.size();
      Tg keep = x; if (keep.next - w.s.now > -4 * SEC - 4 * lag && !keep.known.count(ch)) return; addressed(x, ch, "PRIVMSG " + ch + " :" + txt, [&] { for (size_t i = m; i < v->log.size(); i++) if (v->log[i].last() == txt) return true; return false; }); return; }
  }
  void endPart(Sl& x) { if (!x.c || x.part.empty()) return; string b = x.part + "\r\nPONG :x\r\n"; x.part.clear(); auto& l = x.ln.back(); l.at = w.s.now; l.bytes += 9; l.cost += 2; put(x, b); x.c->app(b); x.c->autoPong = true; }
  void run() {
    w.features["CLIENT_FLOOD"] = std::to_string(CF); w.features["IPCHECK_CLONE_LIMIT"] = "250"; w.features["MAXCHANNELSPERUSER"] = "40";
    for (int i = 0; i < n; i++) { w.addServer("", i ? vector<int>{i - 1} : vector<int>{}); w.srv[i].tls = true; w.srv[i].maxfloodX = MX; w.srv[i].clientBlocks = "Class { name = \"Wit\"; pingfreq = 90 seconds; sendq = 1000000 bytes; maxflood = 200000 bytes; maxlinks = 200; };\nClient { ip = \"*\"; class = \"Local\"; maxlinks = 200; };\nClient { ip = \"10.30.*\"; port = 6668; class = \"Wit\"; maxlinks = 200; };\nClient { ip = \"10.42.*\"; port = 6668; class = \"Wit\"; maxlinks = 200; };\nClient { ip = \"10.41.*\"; port = 6668; class = \"Exempt\"; maxlinks = 200; };\nClient { ip = \"10.41.*\"; port = 7000; class = \"Exempt\"; maxlinks = 200; };\n"; }
    w.start(); for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) { Client* c = w.mk(i, fmt("%s%d", j ? "obs" : "wit", i), 6668, fmt("10.30.%d.%d", i, j + 1)); c->connect(); w.until([&] { return c->ok(); }, 30 * SEC); if (!c->ok()) w.fail("harness:reg", c->reason); c->send("JOIN #q"); (j ? obs : wit)[i] = c; w.s.runFor(2 * SEC); }
    bool T = p.num("targets", 0);
    if (T) { pr = w.peer(p.num("pat", 0) % n, 0); pr->connect(); w.until([&] { return pr->linked() && pr->gotEA; }, 60 * SEC); if (!pr->linked()) w.fail("harness:link", pr->reason); for (int i = 0; i < 40; i++) fake.push_back(pr->user(fmt("v%d", i), 1700000000, "fake", fmt("h%d", i))); for (int i = 0; i < n; i++) { for (int j = 0; j < 14; j++) obs[i]->send(fmt("JOIN #w%d", j)), obs[i]->send(fmt("MODE #w%d +n", j)); } w.s.runFor(5 * SEC); for (int i = 0; i < n; i++) for (int j = 0; j < 14; j++) obs[i]->send(fmt("MODE #w%d +n", j)); w.s.runFor(3 * SEC); }
    for (auto& o : p.ops) op(o); for (auto& x : sl) endPart(x.second); tick(5 * SEC);
    for (int i = 0; i < 200; i++) { bool all = true; for (auto& x : sl) if (x.second.c && x.second.answered < x.second.ln.size()) all = false; if (all) break; tick(3 * SEC); }
    for (auto& x : sl) if (x.second.c) { late(x.second); coverTransition("survived"); if (x.second.answered < x.second.ln.size()) w.fail("flood:lost", kind(x.second) + fmt(": %d of %d commands were never carried out", (int)(x.second.ln.size() - x.second.answered), (int)x.second.ln.size())); }
  }
};
void gen28(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2); int n = 1 + r.below(2); p.set("n", n); p.knobs.erase("cap.client"); p.knobs.erase("cap.server"); p.knobs.erase("slat.max"); p.knobs.erase("slat.min"); p.set("cf", vector<int>{512, 1024, 1024, 2048, 6000}[r.below(5)]); p.set("mx", vector<int>{262144, 262144, 9000, 700}[r.below(4)]); p.set("pat", (int)r.below(n));
  if (r.chance(0.4)) { p.set("targets", 1); int ns = 1 + r.below(2), span = r.chance(0.5) ? 12 : 40, chh = r.chance(0.3); for (int i = 0; i < ns; i++) p.op("tconn %d %d", i, (int)r.below(n));
    for (int i = 10 + r.below(50); i > 0; i--) { int s = r.below(ns); switch (r.below(12)) { case 0: p.op("reply %d %d", s, (int)r.below(span)); break; case 1: p.op("wait %d", r.chance(0.5) ? 1 + (int)r.below(10) : 30 + (int)r.below(300)); break; case 2: p.op("chan %d %d", s, (int)r.below(14)); break; case 3: if (r.chance(0.4)) p.op("trecon %d", s); else p.op("wait %d", 1 + (int)r.below(4)); break; default: if (chh && r.chance(0.6)) p.op("chan %d %d", s, (int)r.below(14)); else p.op("msg %d %d %d", s, (int)r.below(span), (int)r.below(2)); } } return; }
  int ns = 1 + r.below(3); for (int i = 0; i < ns; i++) p.op("conn %d %d %d %d", i, (int)r.below(n), vector<int>{0, 0, 1, 2}[r.below(4)], (int)r.chance(0.3));
  for (int i = 5 + r.below(14); i > 0; i--) { int s = r.below(ns), len = r.chance(0.5) ? 9 + (int)r.below(30) : r.chance(0.5) ? 9 + (int)r.below(480) : 120 * (1 + (int)r.below(3)) + 5 + (int)r.below(6);
    switch (r.below(12)) { case 0: case 1: case 2: p.op("lines %d %d %d %d", s, 1 + (int)r.below(r.chance(0.6) ? 12 : 40), len, vector<int>{0, 10, 300, 1000, 2000, 2500}[r.below(6)]); break; case 3: case 4: p.op("bulk %d %d %d", s, 1 + (int)r.below(r.chance(0.7) ? 8 : 30), len); break; case 5: p.op("part %d %d", s, len + 2); break; case 6: p.op("end %d", s); break; case 7: case 8: case 9: p.op("wait %d", r.chance(0.6) ? 1 + (int)r.below(12) : (int)r.below(60)); break; case 10: if (r.chance(0.3)) p.op("rehash %d", vector<int>{262144, 9000, 700}[r.below(3)]); else p.op("wait 3"); break; default: p.op("conn %d %d %d %d", s, (int)r.below(n), vector<int>{0, 0, 1, 2}[r.below(4)], (int)r.chance(0.3)); } }
}
void run28(const Plan& p) { Fld b(p); b.run(); }
RegProp reg28({"C28", "Flooding", "Plans: clients on plain, TLS and WebSocket ports, of throttled and exempt classes, send numbered commands in bursts, in one write, in parts and at any rate; the time and order of every answer, and every disconnection, is compared with the rate and queue rules; others address users and channels of a scripted server, replied to or not, and reconnect, against a model of free targets.", "delays, segmentation, short reads and writes, rehash of limits", gen28, run28, 1, "", {}});
}
