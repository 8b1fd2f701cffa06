// C10: connections that stopped answering or reading are dropped in time, all others are kept.
#include "chaos.h"
#include "util.h"
namespace {
struct Idle {
  struct Sl { Client* c = nullptr; int srv = 0; string mode = "pong"; int arg = 0; Time due = 0; size_t pcur = 0; vector<Time> pings; bool inq = false, pair = false; Time stallAt = 0; uint64_t base = 0, wbase = 0; size_t over = 0; int64_t lq = 0; bool mustDie = false, ended = false, gray = false; Time overAt = 0, goAt = 0; };
  struct Pr { Peer* p = nullptr; int srv = 0; bool pong = true; vector<Time> pings; size_t pcur = 0; string user; Time stallAt = 0, overAt = 0; uint64_t base = 0, wbase = 0; int64_t lq = 0; bool mustDie = false, ended = false; };
  const Plan& p; World& w; int n, P, PS, PF, KA; int64_t sq, sqS; map<int, Sl> sl; map<int, Pr> pr; vector<std::pair<int, std::pair<Time, Time>>> jumps; bool frozen = false; Time frozenAt = 0; int seq = 0; Client* wit[2] = {0, 0}; Peer* pw = nullptr; bool stopped = false;
  const Time L = 5 * SEC;
  explicit Idle(const Plan& p) : p(p), w(*W), n(p.num("n", 1)), P(p.num("ping", 90)), PS(p.num("pings", 90)), PF(p.num("pf", 120)), KA(p.num("ka", 60)), sq(p.num("sendq", 20000)), sqS(p.num("sendqs", 60000)) {}
  Time jumped(int srv, Time a, Time b) { Time r = 0; for (auto& j : jumps) if (j.first == srv) { bool fwd = j.second.second > 0; if (j.second.first >= a + (fwd ? -L : 3 * L) && j.second.first <= b + (fwd ? L : -L)) r += j.second.second; } return r; }   // at most this much more by the server's clock
  string kind(const Sl& x) { return x.c->who() + " (" + (x.c->transport == 1 ? "WebSocket, " : x.c->transport == 2 ? "TLS, " : "") + x.mode + ")"; }
  static string secs(Time t) { return fmt("%.1f s", (double)t / SEC); }
  uint64_t wrote(const SockP& s) { auto q = s->peer.lock(); return q ? q->wrote : 0; }
  bool gone(const SockP& s) { auto q = s->peer.lock(); return !q || q->wfin || q->state == Sock::CLOSED || s->rfin || s->rstSeen; }
  void check(Sl& x) {
    Client* c = x.c; if (!c) return; Time now = w.s.now;
    for (; x.pcur < c->log.size(); x.pcur++) { auto& m = c->log[x.pcur]; if (m.cmd != "PING") continue; Time tr = m.at;
      if (c->regAt && tr > c->regAt && !(x.goAt && tr < x.goAt + 60 * SEC && tr >= x.goAt)) {
        Time last = c->regAt; for (Time t : c->tx) if (t <= tr - L && t > last) last = t;
        if (tr - last + jumped(x.srv, last - L, tr) < (P - 2) * SEC) w.fail("ping:early", kind(x) + " was asked for a sign of life only " + secs(tr - last) + " after it last sent something; it may be silent for " + fmt("%d s", P)); coverTransition("ping"); }
      x.pings.push_back(tr); if (x.mode == "late") x.due = now + x.arg * SEC; }
    bool isGone = c->dead || (c->stalled && gone(c->sock)); Time last = c->regAt; for (Time t : c->tx) if (!c->dead || t < c->deadAt - SEC) last = std::max(last, t);
    if (isGone) {
      Time t1 = c->dead ? c->deadAt : now; bool sendqDeath = x.mustDie;
      if (!sendqDeath && !c->stalled) {
        Time tp = x.pings.empty() ? 0 : x.pings.back(); string why; Time j = jumped(x.srv, tp, t1);
if (x.goAt && (t1 < x.goAt + 60 * SEC || (tp && tp < x.goAt + 60 * SEC))) { if (t1 - last + jumped(x.srv, last, t1) < (2 * P - 1) * SEC - L) why = "only " + secs(t1 - last) + " after it last sent something"; }
        else if (!tp || tp < last - L) { why = tp ? "though it sent something since it was last asked for a sign of life" : "without having been asked for a sign of life"; }
        else if (t1 - tp + j < (P - 1) * SEC - L) why = "only " + secs(t1 - tp) + " after it was asked for a sign of life";
        else { for (Time t : c->tx) if (t > tp && t < t1 - L) why = "though it answered in time"; }
        if (why.size()) w.fail("ping:drop", kind(x) + " was disconnected " + why + fmt(" (pingfreq %d s): ", P) + c->reason); coverTransition("timeout" + x.mode);
        if (!c->stalled && startsWith(c->reason, "eof") && p.real("eagain") == 0 && p.real("short") == 0 && !p.has("cap.client")) { bool said = false; for (auto& m : c->log) if (m.cmd == "ERROR" && m.raw.find("Ping timeout") != string::npos) said = true; if (!said) w.fail("ping:why", kind(x) + " was disconnected without being told of a ping timeout"); }
      } else if (!sendqDeath) {
        Time j = jumped(x.srv, last, t1); bool full = x.pair ? queued(x) + 1100 >= sq : x.inq && wit[x.srv] && (int64_t)(wit[x.srv]->bytesIn - x.wbase) > sq * 2 / 3; if (!full && t1 - last + j < (2 * P - 1) * SEC - L) w.fail("ping:stalled", kind(x) + " does not read, and was disconnected " + secs(t1 - last) + " after it last sent something, without its queue being full: " + fmt("%lld bytes of %lld", (long long)queued(x), (long long)sq)); coverTransition("timeoutstalled");
      }
      string nk = c->nick; c->mayDie = true; if (!c->dead) c->die("gone"); bool inq = x.inq, gray = x.gray; Client* v = wit[x.srv]; x.c = nullptr;
      if (inq && v && v->ok()) { w.s.runFor(L); bool q = false; for (auto i = v->log.rbegin(); i != v->log.rend(); ++i) if (i->cmd == "QUIT" && i->nick() == nk) { q = true; string r = i->last(); bool ping = r == "Ping timeout", sqe = r == "Max sendQ exceeded" || r.find("Write error") != string::npos; if (sendqDeath && !gray ? !sqe : !ping && !((c->stalled || gray) && sqe)) w.fail("ping:reason", nk + " was shown leaving as '" + r + "'"); } if (!q) w.fail("ping:quit", nk + " was disconnected but is still shown in the channel"); }
      return;
    }
    if (c->regAt == 0) return;
    bool back = false; for (auto& j : jumps) if (j.first == x.srv && j.second.second < 0) back = true;
    Time tp = x.pings.empty() ? 0 : x.pings.back();
    if (!c->stalled && !back && now > x.goAt + (x.goAt ? 150 * SEC : 0)) {   // what queued up meanwhile comes first
      if (tp < last - L && now - last > (P + PF) * SEC + 2 * SEC + 2 * L) w.fail("ping:none", kind(x) + " has sent nothing for " + secs(now - last) + " and was not asked for a sign of life (pingfreq " + std::to_string(P) + ")");
      if (tp > last && now - tp > P * SEC + 2 * SEC + L) w.fail("ping:kept", kind(x) + " did not answer for " + secs(now - tp) + " and is still connected (pingfreq " + std::to_string(P) + ")");
    }
    if (c->stalled && !back && now - last > (2 * P + PF) * SEC + 2 * L) w.fail("ping:keptstalled", kind(x) + " neither reads nor sends anything for " + secs(now - last) + " and is still connected");
    if (c->transport == 1 && KA && now > x.goAt + (x.goAt ? 150 * SEC : 0) && !c->stalled && !back && c->regAt && now - c->regAt > (KA + PF + 2) * SEC + 2 * L) { Time l = c->wsPings.empty() ? c->regAt : c->wsPings.back(); if (now - l > (KA + PF) * SEC + 2 * SEC + 2 * L) w.fail("ping:ws", kind(x) + " was sent no WebSocket keepalive for " + secs(now - l)); }
    // the send queue
    if (c->stalled && x.pair) { int64_t q = queued(x); if (x.mustDie) { if (!back && now - x.overAt > (PF + 2) * SEC + L) w.fail("sendq:kept", kind(x) + fmt(" stays connected with %lld bytes queued, limit %lld", (long long)q, (long long)sq)); } else if (q > sq + 1100) { x.mustDie = true; x.overAt = now; coverTransition("over"); } }
  }
  int64_t queued(Sl& x) { Client* v = wit[x.srv]; if (!v || !x.pair || !x.c->sock) return 0; if (gone(x.c->sock)) return x.lq; return x.lq = (int64_t)(v->bytesIn - x.wbase) - (int64_t)(wrote(x.c->sock) - x.base); }
  int64_t queuedMax(Sl& x) { Client* v = wit[x.srv]; return !v ? sq : x.pair ? queued(x) : (int64_t)(v->bytesIn - x.wbase); }   // near the limit: it may or may not have been given up already
  void check(Pr& x) {
    Peer* c = x.p; if (!c) return; Time now = w.s.now;
    for (; x.pcur < c->log.size(); x.pcur++) if (c->log[x.pcur].cmd == "G") x.pings.push_back(c->log[x.pcur].at);
    Time last = c->tx.empty() ? 0 : c->tx.back(); bool isGone = c->dead || (c->stalled && gone(c->sock));
    if (isGone) {
      Time j = jumped(x.srv, last - L, now); bool sendqDeath = x.mustDie || (c->stalled && queued(x) + 1100 >= sqS);
      if (!sendqDeath && now - last + j < (PS - 1) * SEC - L) w.fail("ping:link", c->name + (c->stalled ? " (not reading)" : "") + " was unlinked " + secs(now - last) + fmt(" after it last sent something (pingfreq %d s, queue %lld of %lld): ", PS, (long long)queued(x), (long long)sqS) + c->reason);
      if (!sendqDeath && x.pong && !c->stalled && now - last + j < (PS + 1) * SEC) w.fail("ping:link", c->name + " answers and was unlinked: " + c->reason); coverTransition(sendqDeath ? "linksendq" : "linktimeout"); if (!c->dead) c->die("gone");
      if (c == pw) pw = nullptr; x.p = nullptr; for (int i = 0; i < n; i++) {} return;
    }
    bool back = false; for (auto& j : jumps) if (j.first == x.srv && j.second.second < 0) back = true; if (back) return;
    if (now - last > (2 * PS + PF) * SEC + 2 * L) w.fail("ping:linkkept", c->name + " has sent nothing for " + secs(now - last) + " and is still linked");
    if (!c->stalled && c->linked()) { Time l = x.pings.empty() ? last : x.pings.back(); if (now - l > (PS + PF) * SEC + 2 * L && now - last > (PS + PF) * SEC + 2 * L) w.fail("ping:linknone", c->name + " was not asked for a sign of life for " + secs(now - l)); }
    if (c->stalled && x.stallAt) { int64_t q = queued(x); if (x.mustDie) { if (now - x.overAt > (PF + 2) * SEC + L) w.fail("sendq:linkkept", c->name + fmt(" stays linked with %lld bytes queued, limit %lld", (long long)q, (long long)sqS)); } else if (pw && pw != c && q > sqS + 1100) { x.mustDie = true; x.overAt = now; coverTransition("linkover"); } }
  }
  int64_t queued(Pr& x) { if (!pw || !x.p->sock) return 0; if (gone(x.p->sock)) return x.lq; return x.lq = (int64_t)(pw->bytesIn - x.wbase) - (int64_t)(wrote(x.p->sock) - x.base); }
  void act(Sl& x) {
    Client* c = x.c; if (!c || !c->ok() || c->stalled) return; Time now = w.s.now, last = c->tx.empty() ? 0 : c->tx.back();
    if (x.mode == "talk" && now - last >= x.arg * SEC) c->send("PING :alive");
    if (x.mode == "drip" && now - last >= x.arg * SEC) { if (x.over < 200) { c->app("A"); x.over++; } else { c->app("\r\n"); x.over = 0; } }
    if (x.mode == "late" && x.due && now >= x.due) { x.due = 0; c->send("PONG :late"); }
  }
  void tick(Time d) { for (Time e = w.s.now + d; w.s.now < e;) { w.s.runFor(SEC); for (auto& x : sl) act(x.second); for (auto& x : sl) check(x.second); for (auto& x : pr) check(x.second); for (int k = 0; k < 2; k++) for (auto v : {wit[k], fsrc[k]}) if (v && !v->ok()) { bool rj = false; for (auto& j : jumps) if (j.first == k && j.second.second > 0 && v->deadAt - j.second.first < 2 * L) rj = true; if (rj) { stopped = true; return; } w.fail("ping:witness", v->who() + " answers every ping and was disconnected: " + v->reason); }
    if (n > 1 && !frozen && !w.isLinked(0, 1)) { for (auto& j : jumps) if (j.second.second > 0 && w.s.now - j.second.first < 2 * L) { stopped = true; return; } w.fail("ping:reallink", "the link between the servers was lost although both answer"); } } }
  void endLine(Sl& x) { if (x.over) { x.c->app("\r\n"); x.over = 0; } }
  void op(const string& o) {
    if (stopped) return;   // the clock jumped between a ping and its answer: the run ends here
    auto a = words(o); w.s.mix(hashstr(o)); int s = a.size() > 1 ? atoi(a[1].c_str()) : 0; const string& k = a[0];
    if (k == "conn") {   // conn SLOT SRV TRANSPORT MODE ARG
      auto& x = sl[s]; if (x.c) return; x = Sl(); x.srv = atoi(a[2].c_str()) % n; int tr = atoi(a[3].c_str()); x.mode = a[4]; x.arg = atoi(a[5].c_str());
      Client* c = w.mk(x.srv, fmt("i%d_%d", s, ++seq), tr == 1 ? 7002 : tr == 2 ? 6697 : 6668, fmt("10.40.%d.%d", s, 1 + seq % 200)); c->transport = tr; c->mayDie = true; c->keepTx = true; c->connect();
      w.until([&] { return c->ok() || c->dead; }, 30 * SEC); if (!c->ok()) w.fail("harness:reg", c->who() + " " + c->reason);
      c->regAt = w.s.now; c->autoPong = x.mode == "pong"; x.c = c; x.pcur = c->log.size(); if (w.rng.chance(0.7)) { c->send("JOIN #q"); x.inq = true; w.s.runFor(2 * SEC); } return; }
    if (k == "mode") { auto& x = sl[s]; if (!x.c || x.c->stalled) return; endLine(x); x.mode = a[2]; x.arg = atoi(a[3].c_str()); x.c->autoPong = x.mode == "pong"; x.due = 0; x.c->send("PING :mode"); coverTransition("mode" + x.mode); return; }
    if (k == "wait") { tick(s * SEC); return; }
    if (k == "stall") { auto& x = sl[s]; if (!x.c || x.c->stalled) return; endLine(x); w.s.runFor(2 * SEC); if (!x.c->ok()) { tick(SEC); return; } x.c->stalled = true; Client* v = wit[x.srv]; x.pair = x.inq && x.c->transport == 0 && v; x.base = wrote(x.c->sock); x.wbase = v ? v->bytesIn : 0; coverTransition("stall"); return; }
    if (k == "go") { auto& x = sl[s]; if (!x.c || !x.c->stalled || x.mustDie || gone(x.c->sock) || (x.inq && queuedMax(x) + 1500 > sq)) return; x.c->stalled = false; x.goAt = w.s.now; uint64_t in0 = 0; (void)in0; size_t m0 = x.c->log.size(); x.c->event(); tick(3 * SEC); if (!x.c) return;
      for (int i = 0; i < 90 && x.c && x.c->ok(); i++) { bool done = !x.pair; for (auto r = x.c->log.rbegin(); !done && r != x.c->log.rend(); ++r) if (r->cmd == "PRIVMSG") { done = r->raw.find(fmt(":#f%d ", fl)) != string::npos; break; } if (done) break; tick(SEC); } if (!x.c) return; tick(5 * SEC); if (!x.c) return; if (x.pair) { vector<string> got, want; Client* v = wit[x.srv]; for (size_t i = m0; i < x.c->log.size(); i++) if (x.c->log[i].cmd == "PRIVMSG") got.push_back(x.c->log[i].raw); for (auto& m : v->log) if (m.cmd == "PRIVMSG" && m.at >= stallOf[s]) want.push_back(m.raw); (void)want; int lastn = -1; for (auto& g : got) { auto q = g.rfind(' '); int nn = atoi(g.c_str() + g.find("#f") + 2); (void)q; if (lastn >= 0 && nn != lastn + 1) w.fail("sendq:lost", kind(x) + " read again and misses messages: " + g.substr(0, 60)); lastn = nn; } if (lastn >= 0 && lastn != fl) w.fail("sendq:lost", kind(x) + fmt(" read again and got messages up to %d of %d", lastn, fl)); } coverTransition("go"); return; }
    if (k == "flood") {   // flood SRV COUNT SIZE
      Client* v = fsrc[s % n]; if (!v || !v->ok()) return; int cnt = atoi(a[2].c_str()), sz = atoi(a[3].c_str()); if (frozen) return;
      for (int i = 0; i < cnt; i++) { v->send(fmt("PRIVMSG #q :#f%d ", ++fl) + string(sz, 'x')); w.s.runFor(100 * MS); if (p.has("cap.client") || p.has("lat.max")) w.s.runFor(SEC); for (auto& x : sl) { watch(x.second); } for (auto& x : pr) watch(x.second); } tick(2 * SEC); return; }
    if (k == "jump") { int d = atoi(a[2].c_str()); s %= n; jumps.push_back({s, {w.s.now, d * SEC}}); w.node(s)->clockOff += d * SEC; w.s.ctr[C_clock_jump]++; w.s.poke(w.node(s)); for (auto& x : sl) if (x.second.c && x.second.c->ok() && x.second.srv == s) touch(x.second); tick(3 * SEC); coverTransition("jump"); return; }
    if (k == "plink") { auto& x = pr[s]; if (x.p || frozen) return; x = Pr(); x.srv = atoi(a[2].c_str()) % n; x.p = w.peer(x.srv, s); x.p->connect(); w.until([&] { return x.p->dead || (x.p->linked() && x.p->gotEA); }, 60 * SEC); if (!x.p->linked()) w.fail("harness:link", x.p->reason); x.user = x.p->user(fmt("pu%d_%d", s, ++seq), 1700000000, "fake", fmt("h%d", s)); x.p->send(x.user + " J #q 1700000000"); w.s.runFor(2 * SEC); x.pcur = x.p->log.size(); return; }
    if (k == "ppong") { auto& x = pr[s]; if (!x.p || x.p->stalled) return; x.pong = a[2] == "1"; x.p->autoPong = x.pong; if (x.pong) x.p->send(x.p->num + " Z " + x.p->uplink + " :alive"); return; }
    if (k == "pstall") { auto& x = pr[s]; if (!x.p || x.p->stalled || !x.p->linked()) return; Peer* o2 = pr.count(1 - s) ? pr[1 - s].p : nullptr; if (!o2 || o2->stalled || pr[1 - s].srv != x.srv) return; pw = o2; w.s.runFor(2 * SEC); x.p->stalled = true; x.stallAt = w.s.now; x.base = wrote(x.p->sock); x.wbase = pw->bytesIn; coverTransition("pstall"); return; }
    if (k == "freeze") {   // the link goes silent: nothing arrives, nothing is refused
      if (n < 2 || frozen) return; int d = s; Time t0 = w.s.now; frozen = true; w.s.partition(w.node(0)->ip, w.node(1)->ip); bool lost = false;
      while (w.s.now < t0 + d * SEC) { tick(SEC); if (!lost && !w.isLinked(0, 1)) { lost = true; if (w.s.now - t0 + std::max<Time>(0, jumped(0, t0 - P * SEC, w.s.now)) + std::max<Time>(0, jumped(1, t0 - P * SEC, w.s.now)) < (PS - 1) * SEC - L) w.fail("ping:frozen", "a link silent for " + secs(w.s.now - t0) + " was given up"); } }
      if (!lost && !w.isLinked(0, 1)) lost = true;
      if (!lost && d > 2 * PS + PF + 12) w.fail("ping:frozenkept", fmt("a link silent for %d s is still considered up", d));
      if (lost) { tick((2 * PS + PF) * SEC); }   // the other end has its own clock
      w.s.heal(w.node(0)->ip, w.node(1)->ip); coverTransition(lost ? "lost" : "survived");
      if (lost) { if (!w.waitLinked(1500 * SEC)) w.fail("liveness:link", "a healed link does not come back"); tick(5 * SEC); frozen = false; } else { tick(L); frozen = false; if (!w.isLinked(0, 1)) { if (d < PS - 20) w.fail("ping:short", fmt("a link was given up although it was silent for only %d s", d)); if (!w.waitLinked(1500 * SEC)) w.fail("liveness:link", "a healed link does not come back"); } }
      return; }
  }
  void touch(Sl& x) { (void)x; }
  void watch(Sl& x) { if (!x.c || !x.c->stalled || !x.pair || x.mustDie || x.ended) return; int64_t q = queued(x); if (gone(x.c->sock)) { x.ended = true; if (q + 1100 < sq) return; x.mustDie = x.gray = true; x.overAt = w.s.now; coverTransition("sendqdeath"); } else if (q > sq + 1100) { x.mustDie = true; x.overAt = w.s.now; coverTransition("over"); } }
  void watch(Pr& x) { if (!x.p || !x.p->stalled || x.mustDie || x.ended || !pw) return; int64_t q = queued(x); if (gone(x.p->sock)) { x.ended = true; if (q + 1100 < sqS) return; x.mustDie = true; x.overAt = w.s.now; coverTransition("linksendqdeath"); } else if (q > sqS + 1100) { x.mustDie = true; x.overAt = w.s.now; coverTransition("linkover"); } }
  int fl = 0; map<int, Time> stallOf; Client* fsrc[2] = {0, 0};
  void run() {
    w.features["PINGFREQUENCY"] = std::to_string(PF); w.features["CONNECTFREQUENCY"] = "20"; w.features["WEBSOCKET_KEEPALIVE"] = std::to_string(KA); w.features["IPCHECK_CLONE_LIMIT"] = "250";
    for (int i = 0; i < n; i++) { w.addServer("", i ? vector<int>{i - 1} : vector<int>{}); w.srv[i].tls = true; w.srv[i].pingfreqC = P; w.srv[i].pingfreqS = PS; w.srv[i].sendqC = sq; w.srv[i].sendqS = sqS; }
    w.start(); for (int i = 0; i < n; i++) { for (int j = 0; j < 2; j++) { Client* c = w.mk(i, fmt("%s%d", j ? "src" : "wit", i), 6668, fmt("10.30.%d.%d", i, j + 1)); c->connect(); w.until([&] { return c->ok(); }, 30 * SEC); if (!c->ok()) w.fail("harness:reg", c->reason); c->send("JOIN #q"); (j ? fsrc : wit)[i] = c; c->mayDie = true; w.s.runFor(3 * SEC); } }
    for (auto& o : p.ops) op(o); for (auto& x : sl) if (x.second.c && !x.second.c->stalled && x.second.mode != "pong") { x.second.mode = "quiet"; x.second.c->autoPong = false; endLine(x.second); }
    if (stopped) return; tick((2 * P + PF + 30) * SEC); if (stopped) return; for (auto& x : sl) if (x.second.c && x.second.mode == "pong" && !x.second.c->ok()) w.fail("ping:drop", kind(x.second)); for (auto& x : sl) if (x.second.c && x.second.c->stalled) { x.second.c->die("end", true); x.second.c = nullptr; } w.s.runFor(5 * SEC); for (int k = 0; k < 2; k++) for (auto v : {wit[k], fsrc[k]}) if (v && !v->ok()) return; checkFold(w, "fold");
  }
};
void gen10(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2); p.knobs.erase("slat.max"); p.knobs.erase("slat.min"); p.knobs.erase("cap.server"); int n = 1 + r.below(2); p.set("n", n); int P = vector<int>{20, 45, 90, 150, 300}[r.below(5)], PS = vector<int>{30, 60, 90}[r.below(3)], PF = vector<int>{10, 60, 120}[r.below(3)];
  p.set("ping", P); p.set("pings", PS); p.set("pf", PF); p.set("ka", vector<int>{0, 30, 60, 200}[r.below(4)]); p.set("sendq", vector<int>{8000, 20000, 60000}[r.below(3)]); p.set("sendqs", vector<int>{30000, 90000}[r.below(2)]); if (r.chance(0.6)) p.set("cap.client", vector<int>{600, 2048, 8192}[r.below(3)]);
  int ns = 2 + r.below(5);
  auto mode = [&]() -> string { switch (r.below(6)) { case 0: case 1: return "pong 0"; case 2: return "quiet 0"; case 3: return fmt("late %d", r.chance(0.5) ? 1 + (int)r.below(std::max(1, P - 12)) : P + 8 + (int)r.below(P)); case 4: return fmt("talk %d", r.chance(0.7) ? 1 + (int)r.below(std::max(1, P - 3)) : P + 8 + (int)r.below(P)); default: return fmt("drip %d", 1 + (int)r.below(std::max(1, P - 3))); } };
  auto conn = [&](int s) { p.op("conn %d %d %d %s", s, (int)r.below(n), vector<int>{0, 0, 0, 1, 2}[r.below(5)], mode().c_str()); };
  auto wait = [&] { p.op("wait %d", r.chance(0.3) ? 1 + (int)r.below(10) : r.chance(0.5) ? (int)r.below(P) + 1 : (int)r.below(2 * P + PF)); };
  if (r.chance(0.3)) wait(); for (int i = 0; i < ns; i++) conn(i); bool pe = r.chance(0.5); if (pe) { int at = r.below(n); p.op("plink 0 %d", at); p.op("plink 1 %d", at); }
  for (int i = 6 + r.below(15); i > 0; i--) { int s = r.below(ns);
    switch (r.below(14)) {
      case 0: case 1: case 2: wait(); break; case 3: conn(s); break; case 4: case 5: p.op("mode %d %s", s, mode().c_str()); break;
      case 6: case 7: { int v = r.below(n); p.op("stall %d", s); for (int j = 1 + r.below(3); j > 0; j--) p.op("flood %d %d %d", v, 5 + (int)r.below(40), 50 + (int)r.below(380)); if (r.chance(0.4)) p.op("go %d", s); break; }
      case 8: p.op("go %d", s); break; case 9: if (r.chance(0.5)) p.op("jump %d %d", (int)r.below(n), r.chance(0.8) ? vector<int>{10, 100, 400, 3700}[r.below(4)] : -vector<int>{10, 400}[r.below(2)]); else wait(); break;
      case 10: if (pe) p.op("ppong %d %d", (int)r.below(2), (int)r.below(2)); else wait(); break; case 11: if (pe) { p.op("pstall %d", (int)r.below(2)); for (int j = 1 + r.below(4); j > 0; j--) p.op("flood %d %d %d", (int)r.below(n), 20 + (int)r.below(60), 200 + (int)r.below(230)); } else wait(); break;
      case 12: if (n > 1 && r.chance(0.5)) p.op("freeze %d", r.chance(0.5) ? 1 + (int)r.below(PS) : PS + (int)r.below(2 * PS + PF)); else wait(); break; default: if (pe) p.op("plink %d %d", (int)r.below(2), (int)r.below(n)); else wait(); } }
}
void run10(const Plan& p) { Idle b(p); b.run(); }
RegProp reg10({"C10", "Dead connections", "Plans: clients on plain, TLS and WebSocket connections and scripted servers that answer, stay silent, answer late, keep talking, drip single bytes or stop reading, under any ping frequency and queue limit, with clock jumps and silent links between real servers; every ping, disconnection and unlinking must happen when and only when the rules say.", "delays, segmentation, stalled readers, silent partitions, clock jumps", gen10, run10, 1, "", {}});
}
