// C13: connection limits per address and class.
#include "chaos.h"
#include "util.h"
namespace {
struct AddrSpec { const char *ip, *k64, *k48; };
const AddrSpec AS[] = {{"10.21.0.1", "10.21.0.1", ""}, {"10.21.0.2", "10.21.0.2", ""}, {"10.22.0.1", "10.22.0.1", ""}, {"10.22.0.2", "10.22.0.2", ""},
  {"fd01:1::5", "fd01:1/64", "fd01:1/48"}, {"fd01:1::6", "fd01:1/64", "fd01:1/48"}, {"fd01:1:0:9::1", "fd01:1:0:9/64", "fd01:1/48"},
  {"10.23.0.1", "10.23.0.1", ""}, {"fd02::1", "fd02/64", "fd02/48"}, {"fd02::2", "fd02/64", "fd02/48"}};
const int NADDR = 10, FEW1 = 2, FEW2 = 3;
struct Limit {
  struct E { int conn = 0, aLo = 0, aHi = 0; Time lo = 0, hi = 0; bool ex = false; };
  struct Slot { Client* c = nullptr; string fake; int addr = 0, srv = 0; bool reg = false, gone = true, mayGo = false, oper = false, few = false, half = false; map<int, bool> counted; };
  const Plan& p; World& w; int n; map<int, Slot> sl; vector<map<string, E>> e; vector<map<string, E>> e48; vector<int> few, opers; set<int> exempt; vector<Client*> wit; Peer* f = nullptr; bool linked = true, fakeUp = false;
  int L, P, L48, P48, D, M, C; int nn = 0; Time boot = 0, t0 = 0, lastEnd = 0; vector<string> caps; int witN = 0;
  explicit Limit(const Plan& p) : p(p), w(*W), n(p.num("n", 1)), e(n), e48(n), few(n), opers(n) { L = p.num("L", 4); P = p.num("P", 40); L48 = p.num("L48", 50); P48 = p.num("P48", 10); D = p.num("D", 600); M = p.num("M", 2); C = p.num("C", 3); }
  void rest() { w.s.runFor(20 * MS); w.settle(); w.until([&] { return w.s.quiet(); }, 60 * SEC); w.settle(); }
  bool v6(int a) { return AS[a].k48[0]; }
  string blocks() {
    string o = "Client { ip = \"*\"; class = \"Exempt\"; maxlinks = 200; };\n";
    o += fmt("Class { name = \"Few\"; pingfreq = 90 seconds; sendq = 1000000 bytes; maxlinks = %d; };\nClass { name = \"OpFew\"; pingfreq = 90 seconds; sendq = 1000000 bytes; maxlinks = 1; };\n", C);
    o += fmt("Client { ip = \"10.21.0.2\"; class = \"Exempt\"; maxlinks = %d; };\nClient { ip = \"fd01:1::/48\"; class = \"Exempt\"; maxlinks = %d; };\nClient { ip = \"10.22.0.*\"; class = \"Few\"; maxlinks = 200; };\n", M, M + 2);
    o += "Operator { local = yes; class = \"OpFew\"; host = \"*@*\"; password = \"$PLAIN$operpass\"; name = \"few\"; };\n";
    o += "Port { webirc = yes; port = 6670; };\nPort { websocket = yes; cloudflare = yes; port = 7003; };\nWebIRC { ip = \"10.30.0.1\"; password = \"wpass\"; };\n";
    if (exempt.size()) { o += "IPCheck {"; for (int a : exempt) o += fmt(" except \"%s\";", AS[a].ip); o += " };\n"; }
    return o;
  }
  void config() { for (int i = 0; i < n; i++) { w.srv[i].clientBlocks = blocks(); w.writeConfig(i); } }
  int cap(int a) { return a == 1 ? M : a >= 4 && a <= 6 ? M + 2 : 200; }
  static int64_t gapMin(E& e, Time a) { return (a - e.hi) / SEC - 1; }
  static int64_t gapMax(E& e, Time b) { return (b - e.lo) / SEC + 1; }
  void gap(E& e, int64_t per, Time a, Time b) { if (!e.ex) return; if (gapMin(e, a) > per) e.aLo = e.aHi = 0; else if (gapMax(e, b) > per) e.aLo = 0; }
  int grace(Time a, Time b) { if ((a - boot) / SEC > D + 2) return 2; if ((b - boot) / SEC < D - 2) return 0; return 1; }   // 2: throttling is certainly on
  // one connection attempt; seen: it was not refused as too fast
  void attempt(int s, int a, bool seen, Time b, const string& who) {
    if (exempt.count(a)) { if (!seen) w.fail("limit:exempt", who + " was refused as too fast although its address is exempt"); return; }
    int g = grace(t0, b); bool may48 = false, must48 = false; E* x = nullptr;
    if (v6(a)) { x = &e48[s][AS[a].k48]; gap(*x, P48, t0, b); x->ex = true; x->lo = t0; x->hi = b; x->aLo++; x->aHi++; may48 = g && x->aHi >= L48; must48 = g == 2 && x->aLo >= L48; }
    auto& k = e[s][AS[a].k64]; E pre = k; gap(k, P, t0, b); k.aLo++; k.aHi++; k.lo = t0; k.hi = b; bool fresh = !k.ex;
    bool may = !fresh && g && k.aHi >= L, must = !fresh && g == 2 && k.aLo >= L; string st = fmt(" (attempts %d-%d of %d%s)", k.aLo, k.aHi, L, x ? fmt(", /48 %d-%d of %d", x->aLo, x->aHi, L48).c_str() : "");
    if (must48 && seen) w.fail("limit:fast48", who + " was let in although its /48 reconnects too fast" + st);
    if (seen && must) w.fail("limit:fast", who + " was let in although it reconnects too fast" + st);
    if (!seen && !may && !may48) w.fail("limit:slow", who + " was refused as too fast although it is not" + st);
    coverTransition(fmt("att %d %d %d %d %d", a, seen, may, must, may48));
    k.ex = true;
    if (seen) { k.conn++; if (g == 2) { k.aHi = std::min(k.aHi, L - 1); if (fresh) k.aHi = k.aLo = 1; if (k.aLo > k.aHi) k.aLo = k.aHi; if (x) x->aHi = std::min(x->aHi, std::max(L48 - 1, x->aLo)); } }
    else if (must48) { if (fresh) { k = pre; return; } k.aLo = pre.aLo; k.aHi = pre.aHi; }
    else if (may48) { if (fresh) { k = pre; return; } k.aLo = std::min(pre.aLo, k.aLo); k.aHi = std::max(pre.aHi, k.aHi); }
    else k.aLo = std::max(k.aLo, L);
  }
  void disc(int s, int a, Time a0, Time b) { auto& k = e[s][AS[a].k64]; if (k.conn > 0 && --k.conn == 0) { gap(k, (int64_t)L * P, a0, b); k.lo = a0; k.hi = b; } }
  void remote(int s, Slot& x, bool burst) {
    int a = x.addr; if (exempt.count(a)) { x.counted[s] = false; return; } Time b = w.s.now;
    if (v6(a)) { auto& y = e48[s][AS[a].k48]; gap(y, P48, t0, b); y.ex = true; y.aLo++; y.aHi++; y.lo = t0; y.hi = b; }
    auto& k = e[s][AS[a].k64]; x.counted[s] = true; k.conn++;
    if (!k.ex) { k.ex = true; k.aLo = k.aHi = burst ? 0 : 1; k.lo = t0; k.hi = b; return; }
    gap(k, P, t0, b); if (!burst) { k.aLo++; k.aHi++; k.lo = t0; k.hi = b; }
  }
  void leave(Slot& x, Time a, Time b) { for (auto& y : x.counted) if (y.second) { disc(y.first, x.addr, a, b); y.second = false; } if (x.few) { few[x.srv]--; x.few = false; } if (x.oper) { opers[x.srv]--; x.oper = false; } x.gone = true; x.reg = false; }
  void reap() {
    for (auto& y : sl) { auto& x = y.second; if (x.gone || !x.c || !x.c->dead) continue;
      if (!x.mayGo && !(x.half && w.s.now - x.c->bornAt > 85 * SEC)) w.fail("limit:lost", x.c->who() + " lost its connection: " + x.c->reason);
      leave(x, lastEnd, w.s.now); }
  }
  bool reach(int a, int b) { return a == b || linked; }
  Client* make(int s, int a, int kind) {
    static const int PORT[] = {6668, 6670, 7003, 7002, 6697, 6667};
    string ip = AS[a].ip; if (kind == 1) ip = "10.30.0.1"; if (kind == 2) ip = fmt("10.31.0.%d", 1 + (int)w.rng.below(200)); if (kind == 2 && v6(a)) ip = fmt("fd31::%d", 1 + (int)w.rng.below(200));
    Client* c = w.mk(s, fmt("l%d", nn++), PORT[kind], ip); c->mayDie = true; if (kind == 2) c->transport = 1; if (kind == 3) c->wsHeaders = "CF-Connecting-IP: 10.66.6.6\r\n"; if (kind == 2) c->wsHeaders = string("CF-Connecting-IP: ") + AS[a].ip + "\r\n";
    if (kind == 1) { string h = fmt("h%d.web.net", c->id), ip2 = AS[a].ip; c->host = h; c->onOpen = [h, ip2](Client& c) { c.send("WEBIRC wpass id " + h + " " + ip2); }; }
    return c;
  }
  void shown(Slot& x) {                                   // the user shows its own address
    string h; vector<Msg> out; w.query(wit[x.srv], "USERIP " + x.c->nick, "340", out); for (auto& m : out) if (m.cmd == "340") h = m.last();
    size_t at = h.find('@'); string ip = at == string::npos ? "" : h.substr(at + 1); while (ip.size() && ip.back() == ' ') ip.pop_back(); if (ip.size() && ip[0] == '0' && ip[1] == ':') ip = ip.substr(1);
    if (Addr::parse(ip, 0).key() != Addr::parse(AS[x.addr].ip, 0).key()) w.fail("limit:address", x.c->who() + " is shown with address " + ip + " instead of " + AS[x.addr].ip);
  }
  void op(const string& o) {
    auto a = words(o); auto num = [&](size_t i) { return i < a.size() ? atoi(a[i].c_str()) : 0; }; w.s.mix(hashstr(o)); reap(); t0 = w.s.now; int s = num(1);
    if (a[0] == "wait") { w.s.runFor((Time)num(1) * SEC); rest(); reap(); return; }
    if (a[0] == "con") {                                  // con BASE K SRV ADDR KIND
      int k = num(2), sv = num(3) % n, ad = num(4) % NADDR, kind = num(5); vector<Slot*> g;
      for (int i = 0; i < k; i++) { auto& x = sl[s + i]; if (!x.gone) continue; x = Slot(); x.c = make(sv, ad, kind); x.addr = ad; x.srv = sv; x.gone = false; x.mayGo = true; g.push_back(&x); x.c->connect(); }
      if (g.empty()) return;
      w.until([&] { for (auto x : g) if (!x->c->dead && !x->c->registered) return false; return true; }, 80 * SEC); rest(); Time b = w.s.now;
      int fast = 0, ipfull = 0, clfull = 0, ok = 0; string who = g[0]->c->who();
      for (auto x : g) { auto c = x->c; if (!c->dead) { if (!c->registered) w.fail("limit:hang", c->who() + " is neither registered nor refused"); ok++; continue; }
        string r = c->reason + c->wsbuf;
        if (r.find("Too many connections from your host") != string::npos) ipfull++; else if (r.find("connection class is full") != string::npos) clfull++; else if (r.find("throttled") != string::npos || ((kind == 2 || kind == 4) && !c->opened && !c->wsOpen)) fast++; else w.fail("limit:reason", c->who() + " was refused: " + r); }
      int in = (int)g.size() - fast, before = e[sv][AS[ad].k64].conn; bool ex = exempt.count(ad);
      for (int i = 0; i < (int)g.size(); i++) attempt(sv, ad, i < in, b, who);
      int room = ex ? 200 : cap(ad) - before, want = std::min(in, std::max(room, 0));
      if (in - ipfull != want && !(ex && before > cap(ad)))   // exempted only after others were counted: unspecified
        w.fail("limit:host", fmt("%d of %d connections from %s were refused because of too many from it (%d already there, %d allowed)", ipfull, in, AS[ad].ip, before, cap(ad)));
      if (ad == FEW1 || ad == FEW2) { int want2 = std::min(in - ipfull, std::max(0, C - few[sv])); if (ok != want2) w.fail("limit:class", fmt("%d of %d connections were let into a class of %d holding %d", ok, in - ipfull, C, few[sv])); }
      else if (clfull) w.fail("limit:class", who + " was refused because its class is full");
      for (auto x : g) { auto c = x->c; if (c->dead) { x->gone = true; continue; } x->reg = true; x->mayGo = false; x->counted[sv] = !ex; if (ad == FEW1 || ad == FEW2) { x->few = true; few[sv]++; } }
      if (!ex) for (int i = 0; i < ipfull + clfull; i++) disc(sv, ad, t0, b);
      auto& E = e[sv][AS[ad].k64];
      for (auto x : g) if (x->reg && !ex) for (auto& m : x->c->log) if (m.cmd == "NOTICE" && m.last().find(" ca ") != string::npos) {
        int cn = 0, at = 0; size_t q = m.last().find("on "); if (sscanf(m.last().c_str() + q, "on %d ca %d(", &cn, &at) != 2) continue;
        if (g.size() == 1) {
          if (cn != E.conn) w.fail("limit:count", x->c->who() + fmt(" was told of %d connections from its address, %d exist", cn, E.conn));
          if (at < E.aLo || at > E.aHi) w.fail("limit:attempts", x->c->who() + fmt(" was told of %d attempts instead of %d-%d", at, E.aLo, E.aHi)); E.aLo = E.aHi = at;
        } else if (cn > before + in || cn < 1) w.fail("limit:count", x->c->who() + fmt(" was told of %d connections from its address", cn));
      }
      for (auto x : g) if (x->reg) { shown(*x); for (int t = 0; t < n; t++) if (t != sv && linked) remote(t, *x, false); }
      return;
    }
    if (a[0] == "bad") {                                  // strangers claiming an address: 0 wrong password, 1 wrong gateway, 2 second WEBIRC, 3 no header on the forwarding port, 4 WEBIRC on a normal port
      int sv = num(1) % n, ad = num(2) % NADDR, k = num(3); string ip = AS[ad].ip; if (k == 4 && (ad = 0, true)) ip = AS[1].ip;
      Client* c = w.mk(sv, fmt("l%d", nn++), k == 3 ? 7003 : k == 4 ? 6668 : 6670, k == 1 ? "10.30.0.2" : k == 3 ? "10.31.0.9" : k == 4 ? "10.24.0.1" : "10.30.0.1"); c->mayDie = true; if (k == 3) c->transport = 1;
      c->onOpen = [=](Client& c) { c.send(string("WEBIRC ") + (k == 0 ? "wrong" : "wpass") + " id bad.web.net " + (k == 2 ? "10.24.0.3" : ip)); if (k == 2) c.send("WEBIRC wpass id bad.web.net " + ip); };
      c->connect(); w.until([&] { return c->dead || c->registered; }, 100 * SEC); rest(); if (!c->dead) w.fail("limit:claim", c->who() + fmt(" was let in with a claim of another address (%d)", k)); coverTransition(fmt("bad %d", k)); return;
    }
    if (a[0] == "half") { auto& x = sl[s]; if (!x.gone) return; int sv = num(2) % n, ad = num(3) % NADDR; if (v6(ad)) return; x = Slot(); x.addr = ad; x.srv = sv; x.gone = false; x.mayGo = true; x.half = true; x.c = make(sv, ad, 0); x.c->autoReg = false; x.c->onOpen = [](Client& c) { c.send("NICK " + c.wantNick); }; x.c->connect(); w.s.runFor(2500 * MS); rest(); bool in = !x.c->dead; if (!in && x.c->reason.find("throttled") == string::npos) w.fail("limit:reason", x.c->who() + " was refused: " + x.c->reason); attempt(sv, ad, in, w.s.now, x.c->who()); if (in) x.counted[sv] = !exempt.count(ad); else x.gone = true; return; }
    if (a[0] == "split") { if (n < 2 || !linked) return; linked = false; w.s.partition(w.node(0)->ip, w.node(1)->ip); rstLink(w, 0, 1); w.s.runFor(2 * SEC); rest(); for (auto& y : sl) { auto& x = y.second; if (x.gone) continue; for (auto& z : x.counted) if (z.first != x.srv && !(x.fake.size() && z.first == 0) && z.second) { disc(z.first, x.addr, t0, w.s.now); z.second = false; } } return; }
    if (a[0] == "join") { if (n < 2 || linked) return; w.s.healAll(); if (!w.waitLinked(1500 * SEC)) w.fail("harness:link", "no link"); w.s.runFor(3 * SEC); rest(); linked = true; reap(); t0 = lastEnd; for (auto& y : sl) { auto& x = y.second; if (!x.gone && (x.reg || x.fake.size())) for (int t = 0; t < n; t++) if (t != x.srv && !(x.fake.size() && t == 0)) remote(t, x, true); } return; }
    if (a[0] == "exc") { int ad = num(1) % NADDR; bool rm = exempt.count(ad); if (rm) exempt.erase(ad); else exempt.insert(ad); config(); for (int i = 0; i < n; i++) w.s.signal(w.node(i), 1); w.s.runFor(2 * SEC); rest(); coverTransition(fmt("exc %d", rm)); return; }
    if (a[0] == "cmax") { C = num(1); config(); for (int i = 0; i < n; i++) w.s.signal(w.node(i), 1); w.s.runFor(2 * SEC); rest(); return; }
    if (a[0] == "ru") {                                   // a user of another server
      if (!f) return; auto& x = sl[s]; if (!x.gone) return; int ad = num(2) % NADDR; if (v6(ad)) return;
      if (!fakeUp) return; x = Slot(); x.addr = ad; x.srv = -1; x.gone = false; x.fake = f->user(fmt("l%d", nn++), w.node(0)->wall(), "fake", "fake.host", "+i", AS[ad].ip); rest(); if (f->dead) w.fail("limit:peer", "the link was lost: " + f->reason); for (int t = 0; t < n; t++) if (t == 0 || linked) remote(t, x, false); return;
    }
    if (a[0] == "fdown") { if (!f || !fakeUp) return; f->die("gone", num(1)); fakeUp = false; w.s.runFor(2 * SEC); rest(); for (auto& y : sl) if (y.second.fake.size() && !y.second.gone) leave(y.second, t0, w.s.now); return; }
    if (a[0] == "fup") {                                  // fup BASE K ADDR: links again, bringing K users
      if (!f || fakeUp) return; int k = num(2), ad = num(3) % NADDR; if (v6(ad)) return; f = w.peer(0, 0); vector<Slot*> g; for (int i = 0; i < k; i++) { auto& x = sl[s + i]; if (!x.gone) continue; x = Slot(); x.addr = ad; x.srv = -1; x.gone = false; x.fake = "?"; g.push_back(&x); }
      Peer* q = f; q->num = b64(q->numeric, 2); for (auto x : g) { string u = q->newNum(); x->fake = u; Addr ip = Addr::parse(AS[ad].ip, 0); unsigned v = ip.ip[12] << 24 | ip.ip[13] << 16 | ip.ip[14] << 8 | ip.ip[15]; q->burst.push_back(fmt("%s N l%d 1 %lld fake fake.host +i %s %s :fake user", q->num.c_str(), nn++, (long long)w.node(0)->wall(), b64(v, 6).c_str(), u.c_str())); }
      q->connect(); if (!w.until([&] { return q->linked(); }, 60 * SEC)) w.fail("harness:peer", q->reason); rest(); fakeUp = true; for (auto x : g) for (int t = 0; t < n; t++) if (t == 0 || linked) remote(t, *x, true); return;
    }
    if (!sl.count(s)) return; auto& x = sl[s]; if (x.gone) return;
    if (a[0] == "quit") {
      string how = a[2];
      if (x.fake.size()) { if (!fakeUp) return; f->send(x.fake + " Q :bye"); rest(); Time b = w.s.now; if (!linked && n > 1) { leave(x, t0, b); return; } leave(x, t0, b); return; }
      x.mayGo = true; Client* c = x.c;
      if (how == "quit") c->send("QUIT :bye"); else if (how == "fin") c->die("leaves"); else if (how == "rst") c->die("leaves", true);
      else if (how == "kill" && x.reg) { int from = linked ? num(3) % n : x.srv; wit[from]->send("KILL " + c->nick + " :go"); }
      else if (how == "over" && x.half) { Client* z = wit[x.srv]; string back = z->nick; z->send("NICK " + c->wantNick); w.until([&] { return c->dead; }, 20 * SEC); w.s.runFor(31 * SEC); z->send("NICK " + back); w.s.runFor(SEC); rest(); if (!c->dead) { x.mayGo = false; return; }
        if (z->nick != back) w.fail("harness:over", "nick " + z->nick); auto& k = e[x.srv][AS[x.addr].k64]; if (x.counted[x.srv]) { if (k.aLo > 1) k.aLo--; if (k.aHi > 1) k.aHi--; } }
      else c->send("QUIT :bye");
      w.until([&] { return c->dead; }, 30 * SEC); rest(); if (!c->dead) w.fail("limit:stays", c->who() + " is still connected after " + how); leave(x, t0, w.s.now); coverTransition("quit " + how); return;
    }
    if (!x.c || x.c->dead) return;
    if (a[0] == "fin" && x.half && !x.reg) {
      int sv = x.srv, ad = x.addr; x.c->send("USER u 0 * :r"); w.until([&] { return x.c->dead || x.c->registered; }, 30 * SEC); rest(); bool full = !exempt.count(ad) && e[sv][AS[ad].k64].conn > cap(ad), cf = (ad == FEW1 || ad == FEW2) && few[sv] >= C;
      if (x.c->dead) { if (x.c->reason.find("Too many connections from your host") != string::npos ? !full : x.c->reason.find("class is full") != string::npos ? !cf || full : w.s.now - x.c->bornAt < 85 * SEC) w.fail("limit:half", x.c->who() + " was refused: " + x.c->reason); leave(x, t0, w.s.now); return; }
      if (full || cf) w.fail("limit:half", x.c->who() + (full ? " was let in although its address holds too many connections" : " was let in although its class is full")); x.reg = true; x.half = false; x.mayGo = false; if (ad == FEW1 || ad == FEW2) { x.few = true; few[sv]++; } for (int t = 0; t < n; t++) if (t != sv && linked) remote(t, x, false); return;
    }
    if (!x.reg) return;
    if (a[0] == "oper") { if (x.oper) return; size_t m = x.c->log.size(); x.c->send("OPER few operpass"); rest(); if (x.c->dead) return; bool ok = false; for (auto& y : x.c->since(m)) if (y.cmd == "381") ok = true; if (ok != (opers[x.srv] < 1)) w.fail("limit:oper", x.c->who() + (ok ? " became operator although the class is full" : " could not become operator although the class has room")); if (ok) { x.oper = true; opers[x.srv]++; } coverTransition(fmt("oper %d", ok)); return; }
    if (a[0] == "deop") { if (!x.oper) return; x.c->send("MODE " + x.c->nick + " -o"); rest(); x.oper = false; opers[x.srv]--; return; }
  }
  void run() {
    for (int i = 0; i < n; i++) { w.addServer("", i ? vector<int>{0} : vector<int>{}); w.srv[i].tls = true; }
    w.features["IPCHECK_CLONE_LIMIT"] = std::to_string(L); w.features["IPCHECK_CLONE_PERIOD"] = std::to_string(P); w.features["IPCHECK_48_CLONE_LIMIT"] = std::to_string(L48); w.features["IPCHECK_48_CLONE_PERIOD"] = std::to_string(P48); w.features["IPCHECK_CLONE_DELAY"] = std::to_string(D);
    if (p.num("ex")) exempt = {7, 8};
    for (int i = 0; i < n; i++) w.srv[i].clientBlocks = blocks();
    w.start(); boot = w.s.now;
    for (int i = 0; i < n; i++) { Client* c = w.mk(i, fmt("wit%d", i), 6668, fmt("10.24.1.%d", i + 1)); c->connect(); wit.push_back(c); }
    if (p.num("fake")) { f = w.peer(0, 0); f->connect(); if (!w.until([&] { return f->linked(); }, 60 * SEC)) w.fail("harness:peer", f->reason); fakeUp = true; }
    if (!w.waitReg()) w.fail("harness:reg", "witness"); rest(); for (auto c : wit) c->send("OPER gop operpass"); rest(); lastEnd = w.s.now;
    for (auto& o : p.ops) { op(o); lastEnd = w.s.now; if (f && fakeUp && f->dead) w.fail("limit:peer", "the link was lost: " + f->reason); for (auto c : wit) if (!c->ok()) w.fail("limit:witness", c->who() + " was disconnected: " + c->reason); }
    reap();
  }
};
void gen13(Plan& p, Rng& r) {
  genNetKnobs(p, r, 1); p.setr("rstloss", 0); int n = 1 + r.below(2); p.set("n", n); p.set("fake", r.chance(0.5)); p.set("ex", r.chance(0.6));
  p.set("L", vector<int>{2, 3, 4, 6}[r.below(4)]); p.set("P", vector<int>{40, 40, 25, 120}[r.below(4)]); p.set("L48", vector<int>{50, 4, 7}[r.below(3)]); p.set("P48", vector<int>{10, 40, 90}[r.below(3)]); p.set("D", vector<int>{5, 5, 5, 100, 600}[r.below(5)]); p.set("M", 2 + r.below(3)); p.set("C", 2 + r.below(3));
  int P = p.num("P"), L = p.num("L"), ns = 12, m = 12 + r.below(40); vector<int> pool; for (int i = 0, c = 1 + r.below(3); i < c; i++) pool.push_back(r.below(NADDR)); if (r.chance(0.3)) pool = {8, 9}; if (r.chance(0.2)) pool = {4, 5, 6}; if (r.chance(0.2)) pool = {2, 3};
  p.op("wait 9");
  for (int i = 0; i < m; i++) {
    int s = r.below(ns), ad = r.chance(0.9) ? r.pick(pool) : r.below(NADDR), k = r.below(100);
    if (k < 38) p.op("con %d %d %d %d %d", s, r.chance(0.75) ? 1 : (int)r.range(2, 4), (int)r.below(n), ad, vector<int>{0, 0, 0, 5, 1, 1, 2, 2, 3, 4}[r.below(10)]);
    else if (k < 54) p.op("quit %d %s %d", s, r.pick(vector<string>{"quit", "fin", "rst", "kill", "over"}).c_str(), (int)r.below(2));
    else if (k < 66) p.op("wait %d", r.pick(vector<int>{1, 5, P / 2, P + 6, P + 6, P * L + 8, 200, 700}));
    else if (k < 67) p.op("wait %d", r.pick(vector<int>{3900, 61000, 66000}));
    else if (k < 70) p.op("half %d %d %d", s, (int)r.below(n), ad); else if (k < 72) { p.op("half %d %d %d", s, (int)r.below(n), ad); p.op("%s %d over", r.chance(0.5) ? "quit" : "fin", s); } else if (k < 74) p.op("fin %d", s);
    else if (k < 77) p.op("split"); else if (k < 80) p.op("join");
    else if (k < 82) p.op("exc %d", r.chance(0.5) ? ad : vector<int>{7, 8}[r.below(2)]); else if (k < 83) p.op("cmax %d", (int)r.range(2, 5));
    else if (k < 87) p.op("ru %d %d", s, ad); else if (k < 89) p.op("fdown %d", (int)r.below(2)); else if (k < 91) p.op("fup %d %d %d", s, (int)r.below(4), ad);
    else if (k < 94) p.op("bad %d %d %d", (int)r.below(n), ad, (int)r.below(5)); else if (k < 98) p.op("oper %d", s); else p.op("deop %d", s);
  }
}
void run13(const Plan& p) { Limit l(p); l.run(); }
RegProp reg13({"C13", "Connection limits", "Plans: on 1-2 servers and a scripted one, single and simultaneous connections of every kind (plain, throttled port, WebSocket, TLS, WEBIRC and forwarding gateways) from IPv4 and IPv6 addresses come and go in every way, with exemptions changed at run time, splits and long waits; a model counts connections and attempts.", "delays, segmentation, resets, link loss, rehash, long time spans", gen13, run13, 1, "", {}});
}
