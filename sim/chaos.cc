#include "chaos.h"

void Chaos::topology() {
  int n = p.num("n", 3); int shape = p.num("shape", 0);
  for (int i = 0; i < n; i++) {
    vector<int> up;
    if (i) up.push_back(shape == 0 ? i - 1 : shape == 1 ? 0 : (i - 1) / 2);
    w.addServer("", up);
  }
}
void Chaos::hook(Client* c) {
  c->mayDie = true;
  c->onMsg = [this](Client& c, Msg& m) {
    if (m.cmd == "001" || (m.cmd == "NICK" && lower(m.last()) == lower(c.nick))) nicks[&c].insert(lower(c.nick));
    if (m.cmd == "NICK" && lower(m.last()) == lower(c.nick)) nickStart.erase(&c);
    if (m.cmd == "PART" || m.cmd == "KICK") {
      string who = m.cmd == "KICK" ? m.arg(1) : m.nick();
      if (lower(who) == lower(c.nick)) stable[&c].erase(lower(m.arg(0)));
    }
    if (!trackMsgs) return;
    if ((m.cmd == "PRIVMSG" || m.cmd == "NOTICE") && startsWith(m.last(), "id=")) {
      int id = atoi(m.last().c_str() + 3);
      auto it = sent.find(id);
      if (it == sent.end()) w.fail("msg:forged", c.who() + " received a message nobody sent: " + m.raw);
      auto& s = it->second; Client* from = nullptr; for (auto& x : slotOf) if (x.second == s.slot) from = x.first;
      if (m.last() != s.text) w.fail("msg:corrupt", c.who() + " received '" + m.last() + "' instead of '" + s.text + "'");
      if ((m.cmd == "NOTICE") != s.notice) w.fail("msg:kind", c.who() + ": PRIVMSG and NOTICE were confused: " + m.raw);
      if (from && !nicks[from].count(lower(m.nick()))) w.fail("msg:source", c.who() + " received a message of " + from->who() + " under the name " + m.nick());
      if (from == &c && s.chan) w.fail("msg:self", c.who() + " received its own channel message: " + m.raw);
      if (++gotCount[&c][id] > 1) w.fail("msg:duplicate", c.who() + " received twice: " + m.raw);
      auto& lf = lastFrom[&c][from];
      if (id < lf) w.fail("msg:order", c.who() + fmt(" received message %d of %s after message %d", id, from ? from->who().c_str() : "?", lf));
      lf = id;
      if (s.chan) {
        if (lower(m.arg(0)) != lower(s.target)) w.fail("msg:target", c.who() + " received a message for " + s.target + " under " + m.arg(0));
        if (!c.chans.count(lower(s.target))) w.fail("msg:nonmember", c.who() + " is not on " + s.target + " and received: " + m.raw);
      } else if (!nicks[&c].count(lower(s.target))) w.fail("msg:misdirected", c.who() + " received a message for " + s.target + ": " + m.raw);
      s.got.insert(slotOf[&c]);
      coverTransition(fmt("msg %d %d %d %zu", s.chan, s.notice, c.node == (from ? from->node : 0), s.got.size()));
    }
  };
}
void Chaos::beginEpoch() {
  epoch++; stable.clear(); okStart.clear(); nickStart.clear(); restricted.clear();
  for (auto& c : w.cl) if (c->ok()) { okStart[c.get()] = true; nickStart[c.get()] = c->nick; for (auto& ch : c->chans) stable[c.get()][ch.first] = true; }
  for (auto& c : w.cl) for (auto& ch : c->chans) for (char m : ch.second.modes) if (strchr("mMDrc", m)) restricted.insert(ch.first);
  for (auto& c : w.cl) for (auto& ch : c->chans) if (ch.second.bans.size()) restricted.insert(ch.first);
}
// Everything is quiet and no link failed: every message sent in this epoch between parties that stayed put must have arrived.
void Chaos::endEpoch() {
  if (linkFault || !trackMsgs) return;
  for (auto& x : sent) {
    auto& s = x.second; if (s.epoch != epoch) continue;
    Client* from = nullptr; for (auto& y : slotOf) if (y.second == s.slot) from = y.first;
    if (!from || !from->ok() || !okStart.count(from)) continue;
    if (s.chan) {
      string lc = lower(s.target);
      if (restricted.count(lc) || !stable[from].count(lc)) continue;
      for (auto& c : w.cl) {
        if (c.get() == from || deaf.count(c.get()) || !c->ok() || !okStart.count(c.get()) || !stable[c.get()].count(lc)) continue;
        if (!gotCount[c.get()].count(x.first)) w.fail("msg:lost", c->who() + fmt(", on %s throughout, never received message %d sent by %s: %s", s.target.c_str(), x.first, from->who().c_str(), s.text.substr(0, 100).c_str()));
        cover(hashstr("complete"));
      }
    } else {
      Client* to = nullptr; for (auto& c : w.cl) if (c->ok() && okStart.count(c.get()) && nickStart.count(c.get()) && lower(nickStart[c.get()]) == lower(s.target) && lower(c->nick) == lower(s.target)) to = c.get();
      if (to && nicks[to].size() && to != from) {
        bool moved = false; for (auto& c : w.cl) if (c.get() != to && nicks[c.get()].count(lower(s.target))) moved = true;
        if (!moved && !gotCount[to].count(x.first)) w.fail("msg:lost", to->who() + fmt(" never received private message %d of %s", x.first, from->who().c_str()));
      }
    }
  }
}
bool Chaos::heal(Time max) {
  w.stopFaults();
  for (auto i : crashed) w.s.boot(w.node(i));
  crashed.clear();
  for (auto& c : w.cl) if (c->stalled) { c->stalled = false; if (c->sock && !c->dead) c->event(); }
  Time lim = w.s.now + max;
  auto allup = [&] { for (auto& l : w.links()) if (!w.isLinked(l.first, l.second)) return false; return true; };
  // links must come up and stay up for a while
  for (;;) {
    if (!w.waitLinked(lim - w.s.now)) {
      string s; for (auto& l : w.links()) if (!w.isLinked(l.first, l.second)) s += fmt(" s%d-s%d", l.first, l.second);
      w.fail("liveness:relink", fmt("links not re-established within %lld s after faults stopped:%s", (long long)(max / SEC), s.c_str()));
    }
    Time t = w.s.now; bool stay = true;
    while (w.s.now < t + 45 * SEC) { w.s.runFor(5 * SEC); if (!allup()) { stay = false; break; } }
    if (stay) break;
    if (w.s.now > lim) w.fail("liveness:relink", "links keep failing although faults stopped");
  }
  w.settle(600 * SEC);
  linkFault = false;
  return true;
}
bool Chaos::homeOk(Client* c, const string& ch) { return !homes || c->node == (int)(hashstr(lower(ch)) % w.srv.size()); }
void Chaos::exec(const string& op) {
  auto a = words(op); if (a.empty()) return;
  auto I = [&](size_t i) { return i < a.size() ? atoi(a[i].c_str()) : 0; };
  auto rest = [&](size_t i) { string r; for (; i < a.size(); i++) { if (r.size()) r += " "; r += a[i]; } return r; };
  const string& k = a[0];
  w.s.mix(hashstr(op));
  auto nickOf = [&](int slot) { Client* t = cl.count(slot) ? cl[slot] : nullptr; return t ? t->nick.empty() ? t->wantNick : t->nick : fmt("nobody%d", slot); };
  int nn = w.srv.size();
  if (k == "cl") {          // cl slot node nick [port]
    if (I(2) >= nn) return;
    Client* c = w.mk(I(2), a[3], a.size() > 4 ? I(4) : 6668); hook(c); c->checkView = views; cl[I(1)] = c; slotOf[c] = I(1); nicks[c].insert(lower(a[3])); c->connect(); return;
  }
  if (k == "wait") { w.s.runFor(I(1) * MS); return; }
  if (k == "settle") { w.settle(600 * SEC, !linkFault && crashed.empty()); if (!linkFault) endEpoch(); beginEpoch(); return; }
  if (k == "healnow") { heal(); w.applyFaultKnobs(); beginEpoch(); return; }
  if (k == "cut" || k == "heal" || k == "rst") {
    int x = I(1), y = I(2); if (x >= nn || y >= nn || x == y) return;
    linkFault = true;
    coverTransition(k + fmt(" %d", (int)w.cl.size()));
    if (k == "cut") { w.s.partition(w.node(x)->ip, w.node(y)->ip); return; }
    if (k == "heal") { w.s.heal(w.node(x)->ip, w.node(y)->ip); return; }
    // both directions of the connection are torn down by the network (RST), unread data may be lost
    for (auto& f : w.node(x)->fds) { auto& s = f.second; if (s->kind != Sock::TCP || s->state != Sock::ESTAB) continue; auto pe = s->peer.lock(); if (pe && pe->node == w.node(y)) {
      w.s.ctr[C_link_cut]++; s->rstSeen = true; s->err = ECONNRESET; pe->rstSeen = true; pe->err = ECONNRESET; w.s.poke(s.get()); w.s.poke(pe.get()); break; } }
    return;
  }
  if (k == "crash") { int x = I(1); if (x >= nn || crashed.count(x)) return; linkFault = true; w.s.crash(w.node(x)); crashed.insert(x); coverTransition("crash"); return; }
  if (k == "boot") { int x = I(1); if (!crashed.count(x)) return; crashed.erase(x); w.s.boot(w.node(x)); return; }
  if (k == "nstall") { int x = I(1); if (x >= nn) return; w.node(x)->stallUntil = std::max(w.node(x)->stallUntil, w.s.now + I(2) * MS); w.s.ctr[C_slow_wake]++; return; }
  if (k == "clk") { int x = I(1); if (x >= nn) return; w.node(x)->clockOff += I(2) * SEC; w.s.ctr[C_clock_jump]++; w.s.poke(w.node(x)); return; }
  Client* c = get(I(1));
  if (k == "stall") { if (c) { c->stalled = true; w.s.after(I(2) * MS, [c] { if (c->stalled) { c->stalled = false; if (!c->dead) c->event(); } }); } return; }
  if (k == "drop") { if (cl.count(I(1)) && !cl[I(1)]->dead && cl[I(1)]->sock) { cl[I(1)]->die("dropped", true); w.s.ctr[C_client_kill]++; } return; }
  if (!c) return;
  coverTransition(k + fmt(" %zu %d %d", c->chans.size(), c->oper, linkFault));
  if (k == "quit") { c->send("QUIT :" + rest(2)); c->closing = true; }
  else if (k == "join") c->send("JOIN " + rest(2));
  else if (k == "j0") c->send("JOIN 0");
  else if (k == "part") c->send("PART " + a[2] + " :bye");
  else if (k == "nick") { nicks[c].insert(lower(a[2])); c->send("NICK " + a[2]); }
  else if (k == "msg" || k == "notice") {   // msg slot chan id [pad]
    int id = I(3); if (sent.count(id)) return;
    SentMsg s{I(1), a[2], true, "id=" + a[3] + " " + string(I(4), 'x') + ".", w.s.now, epoch, k == "notice", {}};
    sent[id] = s; c->send((k == "msg" ? "PRIVMSG " : "NOTICE ") + a[2] + " :" + s.text);
  } else if (k == "pm" || k == "pn") {
    int id = I(3); if (sent.count(id)) return;
    SentMsg s{I(1), nickOf(I(2)), false, "id=" + a[3] + " pm.", w.s.now, epoch, k == "pn", {}};
    sent[id] = s; c->send((k == "pm" ? "PRIVMSG " : "NOTICE ") + s.target + " :" + s.text);
  } else if (k == "omode") { c->send("MODE " + a[2] + " " + a[3] + " " + nickOf(I(4))); }      // omode slot chan +o slot2
  else if ((k == "mode" || k == "topic" || k == "clearmode") && !homeOk(c, a[2])) return;
  else if (k == "mode") { for (char ch : a[3]) if (strchr("mMDrcb", ch)) restricted.insert(lower(a[2])); c->send("MODE " + a[2] + " " + rest(3)); }
  else if (k == "topic") c->send("TOPIC " + a[2] + " :" + rest(3));
  else if (k == "kick") c->send("KICK " + a[2] + " " + nickOf(I(3)) + " :out");
  else if (k == "invite") c->send("INVITE " + nickOf(I(3)) + " " + a[2]);
  else if (k == "away") c->send(a.size() > 2 ? "AWAY :" + rest(2) : "AWAY");
  else if (k == "umode") { if (a[2].find('d') != string::npos) deaf.insert(c); c->send("MODE " + c->nick + " " + a[2]); }
  else if (k == "oper") { c->send("OPER gop operpass"); }
  else if (k == "kill") { c->send("KILL " + nickOf(I(2)) + " :killed"); }
  else if (k == "opmode") { for (char ch : a[3]) if (strchr("mMDrcb", ch)) restricted.insert(lower(a[2])); c->send("OPMODE " + a[2] + " " + rest(3)); }
  else if (k == "clearmode") { c->send("CLEARMODE " + a[2] + " " + rest(3)); }
  else if (k == "squit") { if (I(2) < nn) { linkFault = true; c->send("SQUIT " + w.name(I(2)) + " :bye"); } }
  else if (k == "raw") c->send(rest(2));
}
void Chaos::run() { beginEpoch(); for (auto& o : p.ops) exec(o); }

// ------------------------------------------------------------------ oracles
static string modesOf(const set<char>& m) { string s; for (char c : m) s += c; return s; }
vector<string> canon(const NetView& v, bool withTopic) {
  vector<string> o;
  auto sname = [&](const string& num) { auto i = v.servers.find(num); return i == v.servers.end() ? "?" + num : i->second.name; };
  for (auto& s : v.servers) o.push_back("server " + s.second.name + " " + s.first);
  set<string> edges;
  for (auto& s : v.servers) if (v.servers.count(s.second.uplink)) { string a = s.second.name, b = sname(s.second.uplink); if (a > b) std::swap(a, b); if (a != b) edges.insert("link " + a + " " + b); }
  for (auto& e : edges) o.push_back(e);
  for (auto& x : v.users) { auto& u = x.second; o.push_back(fmt("user %s num=%s server=%s %s@%s ip=%s real=%s ts=%lld modes=%s account=%s sethost=%s away=%s", u.nick.c_str(), u.num.c_str(), sname(u.server).c_str(), u.user.c_str(), u.host.c_str(), u.ip.c_str(), u.real.c_str(), (long long)u.ts, modesOf(u.modes).c_str(), u.account.c_str(), u.sethost.c_str(), u.awayMsg.c_str())); }
  for (auto& x : v.chans) {
    auto& c = x.second;
    o.push_back(fmt("chan %s ts=%lld", c.name.c_str(), (long long)c.ts));
    o.push_back(fmt("chanmodes %s %s", c.name.c_str(), c.modeStr().c_str()));
    if (withTopic) o.push_back("chantopic " + c.name + " " + c.topic);
    for (auto& b : c.bans) o.push_back("ban " + c.name + " " + b);
    for (auto& m : c.members) o.push_back("member " + c.name + " " + m.first + (m.second.op ? " op" : "") + (m.second.voice ? " voice" : ""));
  }
  std::sort(o.begin(), o.end());
  return o;
}
string firstDiff(const vector<string>& a, const vector<string>& b) {
  vector<string> x, y; std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(x)); std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(y));
  if (x.empty() && y.empty()) return "";
  string r; for (size_t i = 0; i < x.size() && i < 6; i++) r += "[only A] " + x[i] + "; "; for (size_t i = 0; i < y.size() && i < 6; i++) r += "[only B] " + y[i] + "; ";
  return r;
}
static string kindOf(const string& d) { auto k = d.find("] "); if (k == string::npos) return "?"; string t = d.substr(k + 2); return t.substr(0, t.find(' ')); }
void checkConverged(World& w, const map<int, NetView>& d, const char* cls) {
  for (auto& x : d) if (x.second.anomalies.size()) w.fail(string(cls) + ":burst", fmt("the burst of %s is inconsistent: ", w.name(x.first).c_str()) + x.second.anomalies[0]);
  if (d.empty()) return;
  auto a = canon(d.begin()->second);
  for (auto& x : d) {
    auto b = canon(x.second); string df = firstDiff(a, b);
    if (df.size()) w.fail(string(cls) + ":" + kindOf(df), w.name(d.begin()->first) + " (A) and " + w.name(x.first) + " (B) disagree at rest: " + df);
  }
  cover(mix64(a.size()) ^ 77);
}
void checkTruth(World& w, const map<int, NetView>& d, const char* cls) {
  for (auto& x : d) {
    auto& v = x.second; size_t liveN = 0;
    for (auto& c : w.cl) {
      if (!c->ok()) continue;
      liveN++;
      string num = v.byNick(c->nick);
      if (num.empty()) w.fail(string(cls) + ":missing", w.name(x.first) + " does not know connected client " + c->who());
      auto& u = v.users.at(num);
      if (v.servers.count(u.server) && v.servers.at(u.server).name != w.name(c->node)) w.fail(string(cls) + ":server", w.name(x.first) + " places " + c->who() + " on " + v.servers.at(u.server).name);
      if (lower(u.user) != lower(c->user) && lower(u.user) != "~" + lower(c->user)) w.fail(string(cls) + ":identity", w.name(x.first) + " has user name " + u.user + " for " + c->who());
      for (auto& ch : c->chans) {
        auto i = v.chans.find(ch.first);
        if (ch.first[0] == '&') continue;
        if (i == v.chans.end() || !i->second.members.count(num)) w.fail(string(cls) + ":member", w.name(x.first) + " does not have " + c->who() + " on " + ch.first);
      }
      for (auto& ch : v.chans) if (ch.second.members.count(num) && !c->chans.count(ch.first)) w.fail(string(cls) + ":ghostmember", w.name(x.first) + " has " + c->who() + " on " + ch.first + ", which it is not on");
    }
    if (v.users.size() != liveN) { string g; for (auto& u : v.users) { bool f = false; for (auto& c : w.cl) if (c->ok() && lower(c->nick) == lower(u.second.nick)) f = true; if (!f) g += u.second.nick + " "; } w.fail(string(cls) + ":ghost", w.name(x.first) + fmt(" has %zu users, %zu clients are connected; ghosts: ", v.users.size(), liveN) + g); }
  }
}
void checkFold(World& w, const char* cls) {
  for (auto& cp : w.cl) {
    Client* c = cp.get(); if (!c->ok()) continue;
    auto chans = c->chans;
    for (auto& x : chans) {
      vector<Msg> out; if (w.query(c, "NAMES " + x.first, "366", out) != "366") break;
      map<string, Member> now;
      for (auto& m : out) if (m.cmd == "353" && lower(m.arg(2)) == x.first) for (auto n : words(m.last())) {
        Member mm; while (n.size() && strchr("@+<", n[0])) { if (n[0] == '@') mm.op = true; if (n[0] == '+') mm.voice = true; n.erase(0, 1); }
        auto b = n.find('!'); if (b != string::npos) n = n.substr(0, b);
        if (now.count(lower(n))) w.fail(string(cls) + ":names-dup", c->who() + ": NAMES lists " + n + " twice on " + x.first);
        now[lower(n)] = mm;
      }
      auto& fold = x.second.members;
      auto show = [](const map<string, Member>& m) { string s; for (auto& y : m) s += string(y.second.op ? "@" : "") + (y.second.voice ? "+" : "") + y.first + " "; return s; };
      bool same = fold.size() == now.size();
      // one status prefix is shown, the highest
      if (same) for (auto& y : fold) { auto i = now.find(y.first); if (i == now.end() || i->second.op != y.second.op || (!y.second.op && i->second.voice != y.second.voice)) same = false; }
      if (!same) w.fail(string(cls) + ":names", c->who() + " on " + x.first + " was told events that add up to [" + show(fold) + "] but NAMES answers [" + show(now) + "]");
      out.clear();
      if (w.query(c, "MODE " + x.first, "329", out) != "329") break;
      for (auto& m : out) if (m.cmd == "324") {
        ChanView v; v.applyModes(m.p, 2); auto& f = x.second;
        if (f.modesKnown && (v.modeStr() != f.modeStr())) w.fail(string(cls) + ":modes", c->who() + " on " + x.first + " was told mode changes adding up to [" + f.modeStr() + "] but MODE answers [" + v.modeStr() + "]");
      }
      out.clear(); string e = w.query(c, "TOPIC " + x.first, "332|331", out);
      string t = e == "332" ? out.back().last() : ""; if (e == "dead") break;
      if (t != x.second.topic) w.fail(string(cls) + ":topic", c->who() + " on " + x.first + " last saw topic [" + x.second.topic + "] but TOPIC answers [" + t + "]");
      coverTransition(fmt("fold %zu %s", now.size(), modesOf(x.second.modes).c_str()));
    }
  }
}

// ------------------------------------------------------------------ generation
GenCtx genBase(Plan& p, Rng& r, int maxServers, int clients, int chans) {
  GenCtx g; g.n = 1 + r.below(maxServers); if (maxServers > 1 && g.n == 1) g.n = 2; p.set("n", g.n); p.set("shape", r.below(3));
  g.nclients = clients; g.nchans = chans;
  for (int i = 0; i < chans; i++) g.chans.push_back(fmt("#%c%d", "xYz["[i % 4], i));
  for (int i = 0; i < clients + 6; i++) g.nicks.push_back(fmt("%s%d", vector<string>{"anna", "Bert", "c[at", "dora"}[i % 4].c_str(), i));
  for (int i = 0; i < clients; i++) { g.slotNode[i] = r.below(g.n); p.op("cl %d %d %s", i, g.slotNode[i], g.nicks[i].c_str()); }
  g.nextSlot = clients;
  return g;
}
// Clients that hold a channel open: never kicked, parted, killed or dropped by generated operations (slots from 100 on).
void genAnchors(Plan& p, Rng& r, GenCtx& g) {
  for (int i = 0; i < (int)g.chans.size(); i++) { p.op("cl %d %d anchor%d", 100 + i, (int)r.below(g.n), i); p.op("wait 3000"); p.op("join %d %s", 100 + i, g.chans[i].c_str()); }
  p.op("settle");
}
void genLinkFault(Plan& p, Rng& r, GenCtx& g) {
  if (g.n < 2) return;
  int a = 1 + r.below(g.n - 1), sh = p.num("shape"), b = sh == 0 ? a - 1 : sh == 1 ? 0 : (a - 1) / 2;
  switch (r.below(5)) {
    case 0: p.op("rst %d %d", a, b); break;
    case 1: p.op("cut %d %d", a, b); p.op("wait %d", (int)r.range(1000, 400000)); if (r.chance(0.7)) p.op("heal %d %d", a, b); break;
    case 2: { int n = r.below(g.n); p.op("crash %d", n); if (r.chance(0.6)) { p.op("wait %d", (int)r.range(100, 60000)); p.op("boot %d", n); } break; }
    case 3: p.op("nstall %d %d", (int)r.below(g.n), (int)r.range(100, 30000)); break;
    case 4: { auto it = g.slotNode.begin(); std::advance(it, r.below(g.slotNode.size())); p.op("oper %d", it->first); p.op("wait 500"); p.op("squit %d %d", it->first, a); break; }
  }
}
