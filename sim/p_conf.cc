// C03: conflicts between servers (nick collisions, channels with different histories) are settled by one rule.
#include "chaos.h"
#include "util.h"
namespace {
struct Conf {
  struct Sl { Client* c = nullptr; int srv = 0; };
  const Plan& p; World& w; int n; Peer* svc = nullptr; Peer* pe = nullptr; int edge = -1; bool held = false; map<int, Sl> sl; map<int, string> pu; vector<Client*> half; int seq = 0;
  explicit Conf(const Plan& p) : p(p), w(*W), n(p.num("n", 1)) {}
  void rest() { w.s.runFor(20 * MS); w.settle(); w.until([&] { return w.s.quiet(); }, 60 * SEC); w.settle(); }
  set<int> side(int s) { set<int> r; for (int i = 0; i < n; i++) if (edge < 0 || (i <= edge) == (s <= edge)) r.insert(i); return r; }
  NetView dump() { auto d = w.dumpAll("conflict"); rest(); checkConverged(w, d, "diverged"); return d[0]; }
  std::pair<NetView, NetView> dump2() { auto d = w.dumpAll("conflict"); rest(); map<int, NetView> a, b; for (auto& x : d) (x.first <= edge ? a : b)[x.first] = x.second; checkConverged(w, a, "diverged"); checkConverged(w, b, "diverged"); return {d[0], d[n - 1]}; }
  // --- the rules
  static bool same(const NUser& a, const NUser& b) { return a.ip == b.ip && lower(a.user) == lower(b.user); }
  static void gone(NetView& v, const string& num) { v.dropUser(num); for (auto i = v.chans.begin(); i != v.chans.end();) { i->second.members.erase(num); if (i->second.members.empty()) i = v.chans.erase(i); else ++i; } }
  // which of the two loses: 1 the one already there, 2 the newcomer, 3 both
  static int losers(const NUser& old, const NUser& nw, int64_t nts) { if (nts == old.ts) return 3; return same(old, nw) ? (nts < old.ts ? 2 : 1) : (nts > old.ts ? 2 : 1); }
  set<string> kills;
  void intro(NetView& v, const NUser& u) {
    string h = v.byNick(u.nick); if (h.empty()) { v.users[u.num] = u; return; }
    int l = losers(v.users[h], u, u.ts); coverTransition(fmt("intro%d%d", l, same(v.users[h], u))); if (l & 1) { kills.insert(h); gone(v, h); } if (l & 2) kills.insert(u.num); else v.users[u.num] = u;
  }
  void rename(NetView& v, const string& num, const string& nick, int64_t ts) {
    auto& u = v.users[num]; string h = v.byNick(nick); if (h == num) { u.nick = nick; return; } if (h.empty()) { u.nick = nick; u.ts = ts; return; }
    int l = losers(v.users[h], u, ts); coverTransition(fmt("rename%d%d", l, same(v.users[h], u))); if (l & 1) { kills.insert(h); gone(v, h); } if (l & 2) { kills.insert(num); gone(v, num); } else { u.nick = nick; u.ts = ts; }
  }
  static bool covers(const string& a, const string& b) { return globm(a, b); }   // the masks used here contain no wildcard that a glob would misjudge
  static void addBan(ChanView& c, const string& b) { if (c.bans.count(b)) return; for (auto& x : c.bans) if (covers(x, b)) return; for (auto i = c.bans.begin(); i != c.bans.end();) if (covers(b, *i)) i = c.bans.erase(i); else ++i; c.bans.insert(b); }
  struct B { string ch; int64_t ts; set<char> modes; string key; int limit = 0; vector<string> bans; map<string, Member> m; string topic, topicBy; int64_t topicTs = 0; };
  bool mustGo(const NetView& v, const string& num, const B& b, const string& oldKey) { auto& u = v.users.at(num); return (b.key.size() && b.key != oldKey) || (b.modes.count('i') && !u.modes.count('o')) || (b.modes.count('r') && u.account.empty()) || (b.modes.count('Z') && !u.modes.count('z')); }
  // a burst for a channel arrives at a side that knows v
  void burst(NetView& v, const B& b, bool realUsersGo(const NetView&, const string&)) {
    auto it = v.chans.find(lower(b.ch)); if (it == v.chans.end()) { ChanView c; c.name = b.ch; c.ts = b.ts; c.modes = b.modes; c.key = b.key; c.limit = b.limit; for (auto& x : b.bans) addBan(c, x); c.members = b.m; v.chans[lower(b.ch)] = c; coverTransition("bnew"); return; }
    auto& c = it->second;
    if (b.ts < c.ts) {
      vector<string> out; for (auto& m : c.members) if (realUsersGo(v, m.first) && mustGo(v, m.first, b, c.key)) out.push_back(m.first); for (auto& x : out) c.members.erase(x);
      coverTransition(fmt("bold%d", (int)out.size())); c.ts = b.ts; c.modes = b.modes; c.key = b.key; c.limit = b.limit; c.bans.clear(); for (auto& x : b.bans) addBan(c, x); c.topic = ""; c.topicTs = 0; for (auto& m : c.members) m.second = Member(); for (auto& m : b.m) c.members[m.first] = m.second;
    } else if (b.ts == c.ts) {
      coverTransition("beq"); for (char x : b.modes) { c.modes.insert(x); if (x == 's') c.modes.erase('p'); } if (c.modes.count('s')) c.modes.erase('p');
      if (b.key.size() && (c.key.empty() || lower(b.key) < lower(c.key))) c.key = b.key; if (b.limit && (!c.limit || b.limit < c.limit)) c.limit = b.limit; for (auto& x : b.bans) addBan(c, x); for (auto& m : b.m) c.members[m.first] = m.second;
    } else { coverTransition("bnewer"); for (auto& m : b.m) c.members[m.first] = Member(); }
  }
  static bool real(const NetView& v, const string& num) { auto& u = v.users.at(num); auto i = v.servers.find(u.server); return i != v.servers.end() && i->second.name[0] == 's' && i->second.name != "svc.sim.net"; }
  NetView merge(const NetView& a, const NetView& b) {
    NetView r = a; for (auto& s : b.servers) r.servers[s.first] = s.second; for (auto& e : r.servers) if (a.servers.count(e.first)) e.second.uplink = a.servers.at(e.first).uplink;
    set<string> dead; for (auto& x : b.users) { string h = a.byNick(x.second.nick); if (h.empty() || a.users.count(x.first)) continue; int l = losers(a.users.at(h), x.second, x.second.ts); coverTransition(fmt("merge%d%d", l, same(a.users.at(h), x.second))); if (l & 1) dead.insert(h); if (l & 2) dead.insert(x.first); }
    for (auto& x : b.users) r.users[x.first] = x.second;
    for (auto& x : b.chans) {
      auto i = r.chans.find(x.first); if (i == r.chans.end()) { r.chans[x.first] = x.second; continue; }
      ChanView A = i->second, Bc = x.second; if (A.ts > Bc.ts) std::swap(A, Bc);   // A is the older one
      B m; m.ch = A.name; m.ts = A.ts; m.modes = A.modes; m.key = A.key; m.limit = A.limit; m.bans = vector<string>(A.bans.begin(), A.bans.end()); m.m = A.members;
      NetView t; t.users = r.users; t.servers = r.servers; t.chans[x.first] = Bc; burst(t, m, real); ChanView& c = t.chans[x.first]; c.name = i->second.name;
      if (A.ts == Bc.ts) { if (A.topicTs > Bc.topicTs) { c.topic = A.topic; c.topicTs = A.topicTs; } } else { c.topic = A.topic; c.topicTs = A.topicTs; }
      r.chans[x.first] = c;
    }
    for (auto& d : dead) { kills.insert(d); gone(r, d); } return r;
  }
  static vector<string> facts(const NetView& v) { vector<string> o; for (auto& x : canon(v)) if (x[0] != 'l' && !startsWith(x, "server ")) o.push_back(x); for (auto& x : v.chans) if (x.second.topic.size()) o.push_back("topicts " + x.second.name + fmt(" %lld", (long long)x.second.topicTs)); std::sort(o.begin(), o.end()); return o; }
  // --- applying a step and comparing
  map<int, string> nums(const NetView& v) { map<int, string> m; for (auto& s : sl) if (s.second.c && s.second.c->ok()) { string k = v.byNick(s.second.c->nick); if (k.empty()) w.fail("truth", s.second.c->who() + " is connected but not known"); m[s.first] = k; } return m; }
  bool told() { return p.real("eagain") == 0 && p.real("short") == 0 && !p.has("cap.client"); }
  void verify(const NetView& want, const map<int, string>& who, const string& what, const NetView* got0 = nullptr) {
    NetView got = got0 ? *got0 : dump(); string df = firstDiff(facts(want), facts(got)); if (df.size()) { string k = df.substr(df.find("] ") + 2); w.fail("conflict:" + k.substr(0, k.find(' ')), "after " + what + " the network should hold (A) but holds (B): " + df); }
    for (auto& x : who) { auto& s = sl[x.first]; bool alive = want.users.count(x.second);
      if (!alive) { if (!s.c->dead) w.fail("kill:missing", s.c->who() + " lost its nick but is still connected after " + what); if (told() && startsWith(s.c->reason, "eof") && !s.c->find("436")) w.fail("kill:silent", s.c->who() + " was not told about the collision after " + what); s.c = nullptr; }
      else if (!s.c->ok()) w.fail("kill:wrong", s.c->who() + " was disconnected (" + s.c->reason + ") after " + what); else s.c->mayDie = false; }
    if (pe && pe->live()) { set<string> d; for (size_t i = pcur; i < pe->log.size(); i++) if (pe->log[i].cmd == "D") d.insert(pe->log[i].arg(0)); if (d != kills) { string a, b; for (auto& x : kills) a += " " + x; for (auto& x : d) b += " " + x; w.fail("kill:link", "after " + what + " the link was told to remove" + b + " instead of" + a); } }
    for (auto i = pu.begin(); i != pu.end();) if (!want.users.count(i->second)) i = pu.erase(i); else ++i;
    kills.clear();
  }
  size_t pcur = 0; void arm() { kills.clear(); if (pe) pcur = pe->log.size(); for (auto& s : sl) if (s.second.c) s.second.c->mayDie = true; }
  int64_t now() { vector<Msg> out; return (int64_t)(w.s.now / SEC) + base; } int64_t base = 0;
  int64_t relTs(const string& rel, int64_t ref) { return ref + atoi(rel.c_str()); }
  NUser mkUser(const string& nick, const string& user, int ip) { NUser u; u.num = pe->newNum(); u.nick = nick; u.user = user; u.host = "fake.host"; u.server = pe->num; u.real = "fake user"; Addr a = Addr::parse(fmt("10.40.0.%d", ip + 2), 0); u.ip = b64(a.ip[12] << 24 | a.ip[13] << 16 | a.ip[14] << 8 | a.ip[15], 6); return u; }
  string introLine(const NUser& u) { return fmt("%s N %s 1 %lld %s %s %s %s :%s", pe->num.c_str(), u.nick.c_str(), (long long)u.ts, u.user.c_str(), u.host.c_str(), u.ip.c_str(), u.num.c_str(), u.real.c_str()); }
  static string burstLine(const string& from, const B& b) {
    string l = from + " B " + b.ch + fmt(" %lld", (long long)b.ts); string ms, args; for (char x : b.modes) if (x != 'k' && x != 'l') ms += x; if (b.limit) { ms += 'l'; args += fmt(" %d", b.limit); } if (b.key.size()) { ms += 'k'; args += " " + b.key; } if (ms.size()) l += " +" + ms + args;
    string mem; for (auto st : {"", "v", "o", "ov"}) { bool first = true; for (auto& m : b.m) { string s = string(m.second.op ? "o" : "") + (m.second.voice ? "v" : ""); if (s != st) continue; mem += (mem.size() ? "," : "") + m.first; if (first && s.size()) mem += ":" + s; first = false; } } if (mem.size()) l += " " + mem;
    if (b.bans.size()) l += " :%" + join(b.bans); return l;
  }
  // pb CH REL MODES KEY LIMIT BANS MEMBERS
  bool parseB(const vector<string>& a, const NetView& v, B& b, const set<string>& alive) {
    b.ch = a[1]; auto it = v.chans.find(lower(b.ch)); b.ts = relTs(a[2], it == v.chans.end() ? now() - 20 : it->second.ts); if (it != v.chans.end()) b.ch = it->second.name;
    if (a[3] != "-") for (char x : a[3]) b.modes.insert(x); if (a[4] != "-") { b.key = a[4]; b.modes.insert('k'); } b.limit = atoi(a[5].c_str()); if (b.limit) b.modes.insert('l'); if (a[6] != "-") { ChanView t; for (auto& x : splitBy(a[6], ';')) addBan(t, x); b.bans = vector<string>(t.bans.begin(), t.bans.end()); }
    for (auto& x : splitBy(a[7], ',')) { if (x.empty()) continue; int i = atoi(x.c_str()); if (!pu.count(i) || !alive.count(pu[i])) continue; if (it != v.chans.end() && it->second.members.count(pu[i])) continue; Member m; m.op = x.find('o') != string::npos; m.voice = x.find('v') != string::npos; b.m[pu[i]] = m; }
    return b.m.size();
  }
  void link(NetView& v) { pe = w.peer(0, 0); pe->num = b64(pe->numeric, 2); v.servers[pe->num] = NServer{pe->num, pe->name, ""}; pu.clear(); }
  void op(const string& o) {
    auto a = words(o); w.s.mix(hashstr(o)); w.s.runFor(1300 * MS); int s = a.size() > 1 ? atoi(a[1].c_str()) : 0; const string& k = a[0];
    if (k == "lc") {   // lc SLOT SRV NICK USER IP KIND
      auto& x = sl[s]; if (x.c) { x.c->mayDie = true; x.c->send("QUIT"); rest(); w.s.runFor(300 * MS); x.c->die("quit"); x.c = nullptr; } x.srv = atoi(a[2].c_str()) % n; for (auto& y : sl) if (y.second.c && lower(y.second.c->nick) == lower(a[3]) && (!edge_() || side(x.srv).count(y.second.srv))) return;
      for (auto& y : pu) (void)y; if (nickHeldByPeer(a[3])) return;
      Client* c = w.mk(x.srv, a[3], a[6] == "t" ? 6697 : 6668, fmt("10.40.0.%d", atoi(a[5].c_str()) + 2)); c->user = a[4]; c->checkView = true; c->connect(); w.until([&] { return c->ok(); }, 60 * SEC); if (!c->ok()) w.fail("harness:reg", c->who() + " " + c->reason); if (a[6] == "o") { c->send("OPER gop operpass"); } x.c = c; if (!held) rest(); return; }
    if (k == "half") { Client* c = w.mk(atoi(a[2].c_str()) % n, a[3], 6668, "10.50.0." + std::to_string(1 + ++seq % 250)); c->autoReg = false; c->mayDie = true; c->connect(); w.until([&] { return c->connected; }, 10 * SEC); c->send("NICK " + a[3]); w.s.runFor(300 * MS); half.push_back(c); return; }
    if (k == "acct") { auto& x = sl[s]; if (!x.c || edge >= 0) return; string num = svc->view.byNick(x.c->nick); if (num.empty() || svc->view.users[num].account.size()) return; svc->send(svc->num + " AC " + num + " acct" + std::to_string(s)); rest(); return; }
    if (k == "lnick") {   // a nick in use is refused, a free one is taken at once
      auto& x = sl[s]; if (!x.c) return; bool free = true; for (auto& y : sl) if (y.second.c && y.first != s && lower(side(x.srv).count(y.second.srv) || !held ? y.second.c->nick : heldNick[y.first]) == lower(a[2]) && (held || side(x.srv).count(y.second.srv))) free = false; if (side(x.srv).count(0) && nickHeldByPeer(a[2])) free = false;
      size_t m = x.c->log.size(); string old = x.c->nick; x.c->send("NICK " + a[2]); string pt = fmt("t%d", ++seq); x.c->send("PING :" + pt); w.until([&] { return x.c->dead || (x.c->find("PONG", m) && x.c->log.back().last() == pt); }, 10 * SEC); if (!held) rest(); bool refused = false; for (size_t i = m; i < x.c->log.size(); i++) { if (x.c->log[i].cmd == "433") refused = true; if (x.c->log[i].cmd == "438" || x.c->log[i].cmd == "437") { coverTransition("toofast"); if (!held) w.s.runFor(10 * SEC); return; } }
      if (x.c->dead) w.fail("nick:lost", x.c->who() + " was disconnected after asking for the nick " + a[2] + ": " + x.c->reason);
      if (refused == free || x.c->nick != (free ? a[2] : old)) w.fail("nick:use", x.c->who() + " asked for the nick " + a[2] + ", which is " + (free ? "free" : "in use") + ", and is now " + x.c->nick + (refused ? " (refused)" : "")); if (free) late.insert(s); coverTransition(free ? "lnick" : "inuse");
      if (free) for (auto h : half) if (h->live() && !h->find("433") && lower(h->wantNick) == lower(a[2]) && h->node == x.srv) { w.s.runFor(300 * MS); if (h->live()) w.fail("nick:half", "an unregistered connection keeps the nick " + a[2] + " that " + x.c->who() + " took"); }
      return; }
    if (k == "join" || k == "part" || k == "mode" || k == "topic") { auto& x = sl[s]; if (!x.c) return; string ch = a[2]; if (k == "join" && held) { for (auto& y : sl) if (y.second.c && y.second.c->chans.count(lower(ch)) && (y.second.srv <= edge) == (x.srv <= edge)) return; }
      string l = k == "join" ? "JOIN " + ch + (a.size() > 3 ? " " + a[3] : "") : k == "part" ? "PART " + ch : k == "topic" ? "TOPIC " + ch + " :" + a[3] : "MODE " + ch + " " + join(vector<string>(a.begin() + 3, a.end())); x.c->send(l); if (held) w.s.runFor(3 * SEC); else rest(); return; }
    if (k == "say") {   // who may speak after all that is decided by the state now in force, for every member
      string ch = a[2]; NetView v; if (edge < 0 && !held) v = dump();
      for (auto& x : sl) { Client* c = x.second.c; if (!c || !c->ok() || !c->chans.count(lower(ch)) || (s < 90 && x.first != s)) continue; size_t m0 = c->log.size(); c->send("PRIVMSG " + ch + fmt(" :said%d", ++seq)); if (held || edge >= 0) { w.s.runFor(300 * MS); continue; } rest();
        auto it = v.chans.find(lower(ch)); string num = v.byNick(c->nick); if (it == v.chans.end() || num.empty() || !it->second.members.count(num)) continue; auto& m = it->second.members[num]; bool ban = false; for (auto& b : it->second.bans) if (globm(b, c->nick + "!x@" + c->ip)) ban = true;
        auto& u = v.users[num]; auto& cm = it->second.modes; bool ok = m.op || m.voice || (!cm.count('m') && !ban && !(cm.count('r') && u.account.empty()) && !(cm.count('Z') && !u.modes.count('z'))), got = true; for (size_t i = m0; i < c->log.size(); i++) if (c->log[i].cmd == "404") got = false; coverTransition(fmt("say%d%d", ok, ban));
        if (ok != got) w.fail("conflict:speak", c->who() + (got ? " may" : " may not") + " speak in " + ch + ", where it is " + (ban ? "" : "not ") + "banned, after the channel was merged"); }
      return; }
    if (k == "omode") { auto& x = sl[s]; auto& y = sl[atoi(a[4].c_str())]; if (!x.c || !y.c) return; x.c->send("MODE " + a[2] + " " + a[3] + " " + y.c->nick); rest(); return; }
    // --- conflicts brought by a link
    if (k == "pintro" || k == "pnick" || k == "pb" || k == "pc" || k == "pj" || k == "pdrop") {
      if (!pe || edge >= 0) return; NetView v = dump(); auto who = nums(v); arm(); string what;
      if (k == "pintro") { if (pu.count(s)) return; string h = v.byNick(a[2]); NUser u = mkUser(a[2], a[4], atoi(a[5].c_str())); u.ts = relTs(a[3], h.empty() ? now() - 20 : v.users[h].ts); what = introLine(u); pe->send(what); intro(v, u); pu[s] = u.num; }
      else if (k == "pnick") { if (!pu.count(s)) return; string h = v.byNick(a[2]); int64_t ts = relTs(a[3], h.empty() ? now() : v.users[h].ts); what = fmt("%s N %s %lld", pu[s].c_str(), a[2].c_str(), (long long)ts); pe->send(what); if (h == pu[s] && v.users[h].nick == a[2]) {} else rename(v, pu[s], a[2], ts); }
      else if (k == "pb") { B b; set<string> al; for (auto& x : pu) al.insert(x.second); if (!parseB(a, v, b, al)) return; what = burstLine(pe->num, b); pe->send(what); burst(v, b, real); }
      else if (k == "pc" || k == "pj") { if (!pu.count(s)) return; string ch = a[2]; auto it = v.chans.find(lower(ch)); if (it != v.chans.end() && it->second.members.count(pu[s])) return; int64_t ts = relTs(a[3], it == v.chans.end() ? now() : it->second.ts); if (it != v.chans.end()) ch = it->second.name; what = pu[s] + (k == "pc" ? " C " : " J ") + ch + fmt(" %lld", (long long)ts); pe->send(what); size_t m0 = pe->log.size();
        Member m; m.op = k == "pc"; bool bounce = false; if (it == v.chans.end()) { ChanView c; c.name = ch; c.ts = ts; c.members[pu[s]] = m; v.chans[lower(ch)] = c; }
        else { auto& c = it->second; if (ts > c.ts) { if (m.op) bounce = true; m.op = false; } else if (ts < c.ts) { c.ts = ts; if (k == "pj") { c.modes.clear(); c.key = ""; c.limit = 0; for (auto& x : c.members) x.second = Member(); } } c.members[pu[s]] = m; }
        rest(); bool got = false; for (size_t i = m0; i < pe->log.size(); i++) if (pe->log[i].cmd == "M" && pe->log[i].arg(1) == "-o" && pe->log[i].arg(2) == pu[s]) got = true; if (got != bounce) w.fail("create:bounce", "after " + what + (got ? " the operator status was taken back" : " the operator status was not taken back from the link")); coverTransition(k + (bounce ? "b" : "") + (it == v.chans.end() ? "n" : "")); }
      else { what = "the link being lost"; pe->die("drops"); vector<string> x; for (auto& u : v.users) if (u.second.server == pe->num) x.push_back(u.first); for (auto& y : x) gone(v, y); v.servers.erase(pe->num); pe = nullptr; pu.clear(); }
      w.s.runFor(SEC); rest(); verify(v, who, what); for (auto h : half) if (k == "pintro" && h->live() && !h->find("433") && lower(h->wantNick) == lower(a[2])) w.fail("nick:half", "an unregistered connection keeps the nick " + a[2] + " that was introduced by a link"); return;
    }
    if (k == "plink") {   // plink users;... | bursts — the link comes with a state of its own
      if (pe || edge >= 0) return; NetView v = dump(); auto who = nums(v); link(v); arm(); pe->boot = now() - 1000; vector<string> items = splitBy(o.substr(6), '|');
      for (auto& it : items) { auto b = words(it); if (b.empty()) continue; if (b[0] == "u") { int i = atoi(b[1].c_str()); if (pu.count(i)) continue; bool dup = false; for (auto& y : mine) if (y == lower(b[2])) dup = true; if (dup) continue; mine.insert(lower(b[2])); string h = v.byNick(b[2]); NUser u = mkUser(b[2], b[4], atoi(b[5].c_str())); u.ts = relTs(b[3], h.empty() ? now() - 20 : v.users[h].ts); pe->burst.push_back(introLine(u)); intro(v, u); pu[i] = u.num; }
        else { B x; set<string> al; for (auto& u : v.users) al.insert(u.first); if (!parseB(b, v, x, al)) continue; if (bdone.count(lower(x.ch))) continue; bdone.insert(lower(x.ch)); pe->burst.push_back(burstLine(pe->num, x)); burst(v, x, real); } }
      mine.clear(); bdone.clear(); pe->connect(); w.until([&] { return pe->dead || (pe->linked() && pe->gotEA); }, 60 * SEC); if (!pe->linked()) w.fail("harness:link", pe->reason); w.s.runFor(SEC); rest(); verify(v, who, "linking a server with " + o.substr(6)); return; }
    // --- real servers
    if (k == "cut") { if (n < 2 || edge >= 0) return; edge = s % (n - 1); if (pe) { pe->die("goes"); pe = nullptr; pu.clear(); } late.clear(); for (auto& x : sl) if (x.second.c) x.second.c->mayDie = false; rest(); w.s.partition(w.node(edge)->ip, w.node(edge + 1)->ip); rstLink(w, edge, edge + 1); w.s.runFor(2 * SEC); return; }
    if (k == "heal") { if (edge < 0 || held) return; auto d = dump2(); auto A = nums2(d); arm(); NetView v = merge(d.first, d.second); w.s.heal(w.node(edge)->ip, w.node(edge + 1)->ip); int e = edge; edge = -1; if (!w.waitLinked(300 * SEC, {{e, e + 1}})) w.fail("liveness:link", "a healed link does not come back"); w.s.runFor(SEC); rest(); verify(v, A, "a merge"); return; }
    if (k == "hold") { if (n < 2 || edge >= 0) return; rest(); edge = s % (n - 1); held = true; late.clear(); for (auto& x : sl) if (x.second.c) heldNick[x.first] = x.second.c->nick; w.s.partition(w.node(edge)->ip, w.node(edge + 1)->ip); return; }
    if (k == "release") {   // what both sides did meanwhile crosses on the link
      if (!held) return; held = false; auto v0 = w.dumpAll("held"); NetView a = v0[0], b = v0[n - 1]; auto A = nums2({a, b}); arm(); NetView r = a; set<string> dead;
      // each side is the authority for its own users
      auto own = [&](const NetView& v, const string& num, bool left) { auto i = v.servers.find(num.substr(0, 2)); if (i == v.servers.end()) return false; for (int q = 0; q < n; q++) if (i->second.name == w.name(q)) return (q <= edge) == left; return left; };
      for (auto& x : b.users) if (own(b, x.first, false)) { r.users[x.first] = x.second; }
      for (auto& x : r.users) for (auto& y : r.users) if (own(a, x.first, true) && own(b, y.first, false) && lower(x.second.nick) == lower(y.second.nick)) { int l = losers(x.second, y.second, y.second.ts); coverTransition(fmt("cross%d%d", l, same(x.second, y.second))); if (l & 1) dead.insert(x.first); if (l & 2) dead.insert(y.first); }
      for (auto& x : b.chans) { auto i = r.chans.find(x.first); if (i == r.chans.end()) { r.chans[x.first] = x.second; continue; } ChanView& c = i->second; if (a.chans[x.first].ts == x.second.ts) { for (auto& m : x.second.members) if (!c.members.count(m.first) || own(b, m.first, false)) c.members[m.first] = m.second; } 
        else { bool bo = x.second.ts < c.ts; for (auto& m : c.members) if (bo) m.second.op = false; for (auto& m : x.second.members) if (!c.members.count(m.first)) { Member t = m.second; if (!bo) t.op = false; c.members[m.first] = t; } if (bo) { c.ts = x.second.ts; } coverTransition("xcreate"); } }
      for (auto& d : dead) { kills.insert(d); gone(r, d); } w.s.heal(w.node(edge)->ip, w.node(edge + 1)->ip); edge = -1; w.s.runFor(2 * SEC); rest(); verify(r, A, "commands crossing on the link"); return; }
    if (k == "wait") { w.s.runFor(s * MS); return; }
    if (k == "fold") { if (edge < 0) checkFold(w, "fold"); return; }
  }
  set<int> late; map<int, string> heldNick; set<string> mine, bdone; bool edge_() { return edge >= 0; }
  bool nickHeldByPeer(const string& nick) { if (!pe) return false; NetView v = w.dumpAll("peer")[0]; rest(); string h = v.byNick(nick); return h.size() && v.users[h].server == pe->num; }
  map<int, string> nums2(const std::pair<NetView, NetView>& d) { map<int, string> m; for (auto& s : sl) if (s.second.c && s.second.c->ok()) { auto& v = s.second.srv <= edge ? d.first : d.second; string k = v.byNick(s.second.c->nick); if (k.empty()) w.fail("truth", s.second.c->who() + " is connected but not known"); m[s.first] = k; } return m; }
  void run() {
    w.features["CONNECTFREQUENCY"] = "20"; w.features["IPCHECK_CLONE_LIMIT"] = "250";
    for (int i = 0; i < n; i++) { w.addServer("", i ? vector<int>{i - 1} : vector<int>{}); w.srv[i].tls = true; }
    w.start(); svc = w.service(0); svc->connect(); w.until([&] { return svc->linked(); }, 60 * SEC); rest();
    Client* t = w.mk(0, "clock", 6668, "10.60.0.1"); t->connect(); w.until([&] { return t->ok(); }, 60 * SEC); vector<Msg> out; w.query(t, "TIME", "391", out); base = (out.empty() ? 0 : atoll(out.back().arg(2).c_str())) - (int64_t)(w.s.now / SEC); sl[99].c = t;
    for (auto& o : p.ops) op(o); if (held) op("release"); if (edge >= 0) op("heal"); w.s.runFor(SEC); rest(); auto d = w.dumpAll("end"); checkConverged(w, d, "diverged"); checkFold(w, "fold");
  }
};
void gen3(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2); p.knobs.erase("slat.max"); p.knobs.erase("slat.min"); int mode = r.below(3), n = mode == 0 ? 1 + r.below(2) : 2 + r.below(2); p.set("n", n); p.set("mode", mode);
  vector<string> nicks = {"na", "nb", "nc", "Na"}, chs = {"#x", "#y"}, rel = {"-1", "0", "1", "-30", "30", "-5"}, bans = {"*!*@*.a.net", "*!*@x.a.net", "bad!*@*", "*!*@10.77.*", "bad!*@x.a.net", "*!*@10.40.0.*", "*!*@10.40.0.2"}, keys = {"ka", "kb"};
  bool chans = mode != 1 || r.chance(0.6), nk = mode != 1 || !chans; int ns = 2 + r.below(4);
  auto user = [&] { return string(r.chance(0.6) ? "a" : "b"); };
  auto nick = [&](int s) { return nk && r.chance(0.7) ? r.pick(nicks) : fmt("u%d%d", s, (int)r.below(3)); };
  auto bline = [&](bool relink) { string m; for (char x : {'n', 't', 'i', 'm', 's', 'r', 'Z'}) if (r.chance(x == 'i' || x == 'r' || x == 'Z' ? 0.15 : 0.25)) m += x; if (r.chance(0.1) && m.find('s') == string::npos) m += 'p'; string b; for (auto& x : bans) if (r.chance(0.2)) b += (b.size() ? ";" : "") + x; string mm; for (int i = 0; i < 5; i++) if (r.chance(0.5)) mm += (mm.size() ? "," : "") + std::to_string(i) + r.pick(vector<string>{"", "o", "v", "ov"}); (void)relink;
    return fmt("pb %s %s %s %s %d %s %s", r.pick(chs).c_str(), r.pick(rel).c_str(), m.size() ? m.c_str() : "-", r.chance(0.25) ? r.pick(keys).c_str() : "-", r.chance(0.25) ? 5 + (int)r.below(4) : 0, b.size() ? b.c_str() : "-", mm.size() ? mm.c_str() : "0o"); };
  auto lc = [&](int s) { p.op("lc %d %d %s %s %d %s", s, (int)r.below(n), nick(s).c_str(), user().c_str(), (int)r.below(2), r.pick(vector<string>{"p", "p", "t", "o"}).c_str()); };
  auto local = [&](int s) {
    switch (r.chance(0.3) ? 6 : r.below(10)) {
      case 0: case 1: p.op("lnick %d %s", s, nick(s).c_str()); break; case 2: case 3: case 4: if (chans) p.op("join %d %s %s", s, r.pick(chs).c_str(), r.chance(0.5) ? "ka" : ""); break; case 5: if (chans && r.chance(0.5)) p.op("part %d %s", s, r.pick(chs).c_str()); break;
      case 6: case 7: if (chans) p.op("mode %d %s %s", s, r.pick(chs).c_str(), r.pick(vector<string>{"+i", "-i", "+m", "+n", "+s", "+p", "+s", "+p", "-s", "-p", "+r", "+Z", "-Z", "-r", "+k ka", "+k kb", "-k ka", "-k kb", "+l 7", "+l 9", "-l", "+b bad!*@*", "+b *!*@*.a.net", "+b *!*@x.a.net", "-b bad!*@*", "+b *!*@10.77.*", "+b *!*@10.40.0.*", "+b *!*@10.40.0.2", "-b *!*@10.40.0.*"}).c_str()); break;
      case 8: if (chans) p.op("topic %d %s t%d", s, r.pick(chs).c_str(), (int)r.below(1000)); break; case 9: if (chans) p.op("omode %d %s %s %d", s, r.pick(chs).c_str(), r.pick(vector<string>{"+o", "-o", "+v"}).c_str(), (int)r.below(ns)); else if (r.chance(0.4)) p.op("acct %d", s); break; } };
  for (int i = 0; i < ns; i++) lc(i); for (int i = 0; i < ns; i++) if (r.chance(0.3)) p.op("acct %d", i); if (chans) for (int i = 0; i < ns; i++) if (r.chance(0.6)) p.op("join %d %s", i, r.pick(chs).c_str());
  if (mode == 1 && chans && r.chance(0.7)) { string c = r.pick(chs); for (int i = 0; i < ns; i++) p.op("join %d %s", i, c.c_str()); for (int i = 0; i < ns; i++) for (int j = 0; j < ns; j++) if (i != j && r.chance(0.7)) p.op("omode %d %s +o %d", i, c.c_str(), j); }
  int rounds = 2 + r.below(4);
  // a channel with bans on the younger side, members that already tried to speak, and an older channel with bans that overlap
  auto wipe = [&](bool split) {
    string c = r.pick(chs); int a = r.below(ns), b = r.below(ns); p.op("join %d %s", a, c.c_str()); p.op("join %d %s", b, c.c_str()); for (int i = 0; i < 3; i++) p.op("mode %d %s +b %s", r.chance(0.7) ? a : b, c.c_str(), r.pick(bans).c_str());
    p.op("say %d %s", r.chance(0.6) ? 99 : b, c.c_str());
    if (split) return; string l = bline(false); auto q = words(l); q[1] = c; q[2] = r.pick(vector<string>{"-5", "-30", "-1", "0"}); if (q[7] == "0o") q[7] = "0o,1,2v"; p.op("pintro 0 w0 0 a 0"); p.op("%s", join(q).c_str()); p.op("say 99 %s", c.c_str()); };
  if (mode == 0) {
    if (r.chance(0.6)) p.op("plink "); int ops = 10 + r.below(25);
    for (int i = 0; i < ops; i++) { int s = r.below(ns), q = r.below(5); if (chans && r.chance(0.06)) wipe(false); if (chans && r.chance(0.05)) p.op("say 99 %s", r.pick(chs).c_str());
      switch (r.below(16)) {
        case 0: case 1: p.op("pintro %d %s %s %s %d", q, r.pick(nicks).c_str(), r.pick(rel).c_str(), user().c_str(), (int)r.below(2)); break; case 2: p.op("pnick %d %s %s", q, r.pick(nicks).c_str(), r.pick(rel).c_str()); break; case 3: case 4: p.op("%s", bline(false).c_str()); break;
        case 5: p.op("pc %d %s %s", q, r.pick(chs).c_str(), r.pick(rel).c_str()); break; case 6: p.op("pj %d %s %s", q, r.pick(chs).c_str(), r.pick(vector<string>{"0", "0", "1", "-5"}).c_str()); break; case 7: p.op("pdrop"); break; case 8: if (r.chance(0.5)) p.op("half 0 %d %s", (int)r.below(n), r.pick(nicks).c_str()); break; case 9: lc(s); break;
        case 10: { string o = "plink "; for (int j = 0; j < 4; j++) if (r.chance(0.7)) o += fmt("u %d %s %s %s %d|", j, r.chance(0.5) ? r.pick(nicks).c_str() : fmt("p%d", j).c_str(), r.pick(rel).c_str(), user().c_str(), (int)r.below(2)); for (int j = 0; j < 2; j++) if (r.chance(0.7)) o += bline(true) + "|"; p.op("%s", o.c_str()); break; }
        default: local(s); } }
  } else if (mode == 1) {
    for (int i = 0; i < rounds; i++) { for (int j = r.below(6); j > 0; j--) local(r.below(ns)); p.op("cut %d", (int)r.below(2)); for (int j = 2 + r.below(25); j > 0; j--) { if (r.chance(0.06)) lc(r.below(ns)); else local(r.below(ns)); if (chans && r.chance(0.05)) wipe(true); } p.op("heal"); if (chans) for (auto& c : chs) p.op("say 99 %s", c.c_str()); }
  } else {
    for (int i = 0; i < rounds + 2; i++) { for (int j = r.below(4); j > 0; j--) local(r.below(ns)); p.op("hold %d", (int)r.below(2)); bool cn = r.chance(0.4); string x = r.pick(nicks); for (int s = 0; s < ns; s++) if (r.chance(0.6)) { if (cn) p.op("join %d #z%d", s, i); else p.op("lnick %d %s", s, r.chance(0.7) ? x.c_str() : nick(s).c_str()); } p.op("release"); }
  }
}
void run3(const Plan& p) { Conf c(p); c.run(); }
RegProp r3({"C03", "Conflicts", "", "", gen3, run3, 1, "", {}});
}
