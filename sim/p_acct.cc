// C16: accounts and SASL.
#include "chaos.h"
#include "util.h"
namespace {
struct Acct {
  struct Sess { string server, cookie; int slot; Client* c; bool alive; Time at; int64_t timeout; };
  struct Cl { Client* c = nullptr; size_t cur = 0; bool sasl = false, done = false, capNotify = false, ended = false, onChan = false, x = false, acFirst = false; string acct, id, fl; int sess = -1; string full() const { return acct + (acct.size() && id.size() ? ":" + id + (fl.size() ? ":" + fl : "") : ""); } string num; };
  const Plan& p; World& w; map<int, Cl> cl; Peer* svc = nullptr; Peer* old = nullptr; int n; vector<Sess> ss; vector<Client*> wit; map<Client*, size_t> wcur; size_t xcur = 0; int64_t cfTs = 1; bool up = false, haveServer = false, haveMechs = false; int64_t timeout = 30; string mechs; set<string> granted; int texts = 0; map<Client*, size_t> capCur; map<string, string> intro;
  explicit Acct(const Plan& p) : p(p), w(*W), n(p.num("n", 1)) {}
  vector<string> expect; // numerics expected at the client since its cursor
  bool avail() { return up && haveServer && haveMechs; }
  void rest() { w.s.runFor(20 * MS); w.settle(); w.until([&] { return w.s.quiet(); }, 60 * SEC); w.settle(); }
  static bool isSasl(const string& c) { return c == "900" || c == "903" || c == "904" || c == "905" || c == "906" || c == "907" || c == "908" || c == "AUTHENTICATE"; }
  vector<string> got(Cl& k) { vector<string> v; for (; k.cur < k.c->log.size(); k.cur++) { auto& m = k.c->log[k.cur]; if (isSasl(m.cmd)) v.push_back(m.cmd == "AUTHENTICATE" ? m.cmd + " " + m.last() : m.cmd); } return v; }
  void compare(int slot, const char* cls, const string& what) {
    auto& k = cl[slot]; auto g = got(k);
    if (k.c->dead) { expect.clear(); return; }
    if (g != expect) w.fail(cls, k.c->who() + " after " + what + " expected [" + join(expect) + "] and received [" + join(g) + "]");
    expect.clear();
  }
  // nobody else hears anything about it
  void others(int slot, const string& what) { for (auto& x : cl) if (x.first != slot && x.second.c) { auto& k = x.second; auto g = got(k); if (g.size() && !k.c->dead) w.fail("sasl:other", k.c->who() + " received [" + join(g) + "] after " + what); } }
  void reap(Time margin = 0) {
    for (auto& x : cl) { auto& k = x.second; if (k.sess >= 0 && k.c->dead) { ss[k.sess].alive = false; k.sess = -1; } }
    // sessions that may run out during the next step: pass the moment first
    Time lim = 0; set<size_t> x; for (bool more = true; more;) { more = false; for (size_t i = 0; i < ss.size(); i++) { auto& s = ss[i]; if (s.alive && !x.count(i) && std::max(w.s.now + margin, lim) > s.at + s.timeout * SEC - 8 * SEC) { x.insert(i); lim = std::max(lim, s.at + s.timeout * SEC + 5 * SEC); more = true; } } }
    if (x.empty()) return;
    if (w.s.now < lim) w.s.runUntil(lim); rest();
    for (size_t i : x) { auto& s = ss[i]; auto& k = cl[s.slot]; s.alive = false; k.sess = -1; if (!k.c->dead) { expect = {"904"}; compare(s.slot, "sasl:timeout", "its session ran out of time"); } }
    others(-1, "someone else's timeout");
  }
  vector<Msg> queries() { vector<Msg> v; if (!svc) return v; for (; xcur < svc->log.size(); xcur++) if (svc->log[xcur].cmd == "XQ" || svc->log[xcur].cmd == "XQUERY") v.push_back(svc->log[xcur]); return v; }
  bool newQuery() { for (size_t i = xcur; i < svc->log.size(); i++) if (svc->log[i].cmd == "XQ" || svc->log[i].cmd == "XQUERY") return true; return false; }
  void svcUp() {
    svc = w.service(0); svc->connect();
    if (!w.until([&] { return svc->linked(); }, 60 * SEC)) w.fail("harness:svc", svc->reason);
    rest(); up = true; xcur = svc->log.size();
  }
  void checkCaps(bool before) {
    bool now = avail();
    for (auto& x : cl) { auto& k = x.second; if (!k.c || !k.c->ok()) continue;
      int nw = 0, dl = 0; for (size_t i = capCur[k.c]; i < k.c->log.size(); i++) { auto& m = k.c->log[i]; if (m.cmd == "CAP" && m.arg(1) == "NEW" && startsWith(m.arg(2), "sasl")) nw++; if (m.cmd == "CAP" && m.arg(1) == "DEL" && m.arg(2) == "sasl") { dl++; k.sasl = false; } }
      capCur[k.c] = k.c->log.size();
      int en = k.capNotify && !before && now, ed = k.capNotify && before && !now;
      if (nw != en || dl != ed) w.fail("cap:notify", k.c->who() + fmt(" received %d CAP NEW and %d CAP DEL for sasl instead of %d and %d", nw, dl, en, ed));
    }
    for (auto& x : cl) if (x.second.c && !x.second.c->ok()) capCur[x.second.c] = x.second.c->log.size();
  }
  void config(const string& key, const string& val) {
    bool b = avail(); svc->send(fmt("%s CF %lld %s :%s", svc->num.c_str(), (long long)++cfTs, key.c_str(), val.c_str())); rest();
    if (key == "sasl.timeout") timeout = val.empty() ? 30 : atoll(val.c_str());
    if (key == "sasl.mechanisms") { mechs = val; haveMechs = val.size(); }
    if (key == "sasl.server") haveServer = val.size();
    checkCaps(b);
  }
  bool mechOk(const string& m) { for (auto& x : splitBy(mechs, ',')) if (lower(x) == lower(m)) return true; return false; }
  void watch(Cl& k, const string& act, bool joined = false, int account = 0) {   // what the witnesses saw of k
    for (auto wc : wit) {
      int acn = 0; for (size_t i = wcur[wc]; i < wc->log.size(); i++) { auto& m = wc->log[i]; if (lower(m.nick()) != lower(k.c->nick)) continue;
        if (m.cmd == "ACCOUNT") { acn++; if (m.arg(0) != k.acct) w.fail("acct:notify", wc->who() + " was told the account " + m.arg(0) + " of " + k.c->who() + " instead of " + k.acct); }
        if (m.cmd == "JOIN") { string want = k.acct.empty() ? "*" : k.acct; if (m.arg(1) != want) w.fail("acct:join", wc->who() + " saw " + k.c->who() + " join with account " + m.arg(1) + " instead of " + want); joined = false; } 
        if (m.cmd == "PRIVMSG") {
          auto t = m.tagMap(); string a = t.count("account") ? t["account"] : ""; if (a != k.acct) w.fail("acct:tag", wc->who() + " saw a message of " + k.c->who() + " tagged with account '" + a + "' instead of '" + k.acct + "'");
          string host = m.prefix.substr(m.prefix.find('@') + 1), want = k.x && k.acct.size() ? k.acct + ".users.undernet.org" : k.c->ip; if (host != want) w.fail("acct:host", wc->who() + " saw the host " + host + " of " + k.c->who() + " instead of " + want);
        }
      }
      if (joined) w.fail("acct:join", wc->who() + " did not see " + k.c->who() + " join");
      if (acn != account) w.fail("acct:notify", wc->who() + fmt(" received %d account notifications about ", acn) + k.c->who() + fmt(" instead of %d after ", account) + act);
    }
    for (auto wc : wit) wcur[wc] = wc->log.size();
  }
  void mark() { for (auto wc : wit) wcur[wc] = wc->log.size(); }
  void whois(Cl& k, const string& at) {
    vector<Msg> out; string r = w.query(wit[0], "WHOIS " + k.c->nick, "318", out); string a; bool found = false; for (auto& m : out) { if (m.cmd == "311") found = true; if (m.cmd == "330") a = m.arg(2); }
    if (!found) w.fail("acct:whois", "WHOIS does not find " + k.c->who());
    if (a != k.acct) w.fail("acct:whois", "WHOIS shows account '" + a + "' for " + k.c->who() + " instead of '" + k.acct + "' " + at);
  }
  void op(const string& o) {
    auto a = words(o); string rest_ = o.size() > a[0].size() ? o.substr(a[0].size() + 1) : ""; int s = a.size() > 1 ? atoi(a[1].c_str()) : 0; w.s.mix(hashstr(o)); reap(a[0] == "wait" ? atoi(a[1].c_str()) * MS : a[0] == "au" || a[0] == "end" ? 13 * SEC : a[0] == "sp" ? 30 * SEC : a[0] == "bu" ? 8 * SEC : 4 * SEC); mark();
    if (a[0] == "wait") { w.s.runFor(atoi(a[1].c_str()) * MS); rest(); for (auto& x : cl) if (x.second.sess >= 0) { reap(); break; } return; }
    if (a[0] == "cl") {
      auto& k = cl[s]; if (k.c && !k.c->dead) return;
      if (k.sess >= 0) { ss[k.sess].alive = false; }
      k = Cl(); k.c = w.mk(atoi(a[2].c_str()) % n, fmt("a%d", s), atoi(a[3].c_str())); Client* c = k.c; c->autoReg = false; c->mayDie = true; int mode = atoi(a[4].c_str()); k.capNotify = mode == 1;
      c->onOpen = [mode](Client& c) { c.send(mode == 1 ? "CAP LS 302" : "CAP LS"); c.send("CAP REQ :sasl"); if (mode == 2) c.send("CAP REQ :-sasl"); c.send("NICK " + c.wantNick); c.send("USER " + c.user + " 0 * :r"); };
      c->connect(); w.s.runFor(3000 * MS); rest();
      if (c->dead) w.fail("client:lost", c->who() + " was refused: " + c->reason);
      k.sasl = c->capsAck.count("sasl") && mode != 2; if (c->capsAck.count("sasl") != avail()) w.fail("cap:req", c->who() + (avail() ? " was refused the sasl capability" : " was granted the sasl capability although there is no login service"));
      k.cur = c->log.size(); capCur[c] = c->log.size(); return;
    }
    if (a[0] == "svcdown") { if (!up) return; intro.clear(); bool b = avail(); svc->die("service goes away", a.size() > 1); up = false; w.s.runFor(500 * MS); rest(); checkCaps(b); return; }
    if (a[0] == "svcup") { if (up) return; bool b = avail(); svcUp(); checkCaps(b); return; }
    if (a[0] == "cf") { if (up) config(a[1], a.size() > 2 ? a[2] : ""); return; }
    if (a[0] == "rep") {                                  // rep SEL VERB...   SEL: index from the end of the list of sessions, or x: no such session
      if (!up) return; string sel = a[1], verb = o.substr(o.find(' ', 4) + 1); int i = sel == "x" ? -1 : (int)ss.size() - 1 - atoi(sel.c_str()); if (sel != "x" && i < 0) return;
      string server = i < 0 ? "AB" : ss[i].server, cookie = i < 0 ? std::to_string(9000 + w.rng.below(100)) : ss[i].cookie; int slot = i < 0 ? -1 : ss[i].slot; Cl* k = i < 0 ? nullptr : &cl[slot];
      bool alive = i >= 0 && ss[i].alive && !k->c->dead; bool reg = alive && k->c->ok(); auto vw = words(verb);
      if (vw[0] == "OK" && vw.size() > 1 && alive && !reg) granted.insert(splitBy(vw[1], ':')[0].substr(0, 12));
      svc->send(svc->num + " XR " + server + " sasl:" + cookie + " :" + verb); w.s.runFor(300 * MS); rest();
      if (alive) {
        if (vw[0] == "OK") { ss[i].alive = false; k->sess = -1; k->done = true; if (reg) expect = {"900", "903"}; else { expect = {"903"}; if (vw.size() > 1) { auto f = splitBy(vw[1], ':'); k->acct = f[0].substr(0, 12); k->id = f.size() > 1 ? f[1] : ""; k->fl = f.size() > 2 && f[2] != "0" ? f[2] : ""; if (vw.size() > 2 && vw[2] == "+x") k->x = true; } } }
        else if (vw[0] == "NO") { ss[i].alive = false; k->sess = -1; expect = {"904"}; }
        else if (vw[0] == "SASL") expect = {"AUTHENTICATE " + vw[1]};
        compare(slot, "sasl:reply", "the reply '" + verb + "' to its session"); coverTransition("rep " + vw[0] + (reg ? " reg" : " unreg"));
      } else coverTransition("rep stale");
      others(alive ? slot : -1, alive ? "a reply for another session" : "a reply for a session that is over"); return;
    }
    if (a[0] == "bu") {   // the service introduces a user of its own, logged in
      if (!up) return; string nick = fmt("svu%d", s); if (intro.count(nick)) return; svc->user(nick, 1700000000, "svc", "h.x", "+ri " + a[2], "10.9.9.9"); rest(); auto f = splitBy(a[2], ':'); Cl t; t.acct = f[0].substr(0, 12); t.id = f.size() > 1 ? f[1] : ""; t.fl = f.size() > 2 && f[2] != "0" ? f[2] : ""; intro[nick] = t.full(); vector<Msg> out; w.query(wit[0], "WHOIS " + nick, "318", out); string ac; for (auto& m : out) if (m.cmd == "330") ac = m.arg(2); if (ac != t.acct) w.fail("acct:whois", "WHOIS shows account '" + ac + "' for " + nick + ", which was introduced with " + a[2]); coverTransition("bu"); return;
    }
    if (a[0] == "sp") {   // a stranger on the server port tries to log in
      if (!up) return; queries(); Client* c = w.mk(s % n, "x", 4400); c->autoReg = false; c->mayDie = true; c->onOpen = [](Client& c) { c.send("CAP REQ :sasl"); c.send("AUTHENTICATE PLAIN"); c.send("PONG 5"); }; c->connect(); w.s.runFor(9 * SEC); rest();
      for (auto& q : queries()) svc->send(svc->num + " XR " + q.prefix + " " + q.arg(1) + " :OK evil:1:0"); w.s.runFor(SEC); rest(); others(-1, "a stranger's AUTHENTICATE"); c->die("done"); return;
    }
    if (!cl.count(s)) return; auto& k = cl[s]; Client* c = k.c; if (!c || c->dead) return;
    if (a[0] == "au") {
      string arg = a[2]; if (arg == "LONG") arg = string(atoi(a[3].c_str()), 'A'); queries(); Time ts = w.s.now; c->send("AUTHENTICATE " + arg); if (c->ok()) w.s.runFor(300 * MS); else { size_t l0 = c->log.size(); w.until([&] { return c->dead || (c->log.size() > l0 && isSasl(c->log.back().cmd)) || newQuery(); }, 12 * SEC); ts = w.s.now; } rest(); auto q = queries(); bool wantq = false; Time t0 = ts;
      if (c->dead) return;
      if (!k.sasl) ; else if (k.done || k.acct.size()) expect = {"907"}; else if (!avail()) expect = {"904"}; else if (arg.size() > 400) expect = {"905"};
      else if (arg == "*") { expect = {"906"}; if (k.sess >= 0) { ss[k.sess].alive = false; k.sess = -1; } }
      else if (k.sess < 0 && !mechOk(arg)) expect = {"908"};
      else wantq = true;
      compare(s, "sasl:request", "AUTHENTICATE " + arg.substr(0, 20));
      others(s, "someone else's AUTHENTICATE");
      if (q.size() != wantq) w.fail("sasl:query", fmt("the login service received %zu queries instead of %d after AUTHENTICATE ", q.size(), wantq) + arg.substr(0, 20) + " of " + c->who());
      if (wantq) {
        auto v = words(q[0].last()); string cookie = startsWith(q[0].arg(1), "sasl:") ? q[0].arg(1).substr(5) : "?"; string sn = svc->view.byName(w.name(c->node));
        if (q[0].prefix != sn) w.fail("sasl:query", "a query for " + c->who() + " came from " + q[0].prefix);
        if (v.empty() || v[0] != "SASL" || v.back() != arg) w.fail("sasl:query", "malformed query for " + c->who() + ": " + q[0].raw);
        if (k.sess < 0) {
          if (c->ok() ? v.size() != 3 || v[1] != svc->view.byNick(c->nick) : v.size() != 4 || v[1] != c->ip || v[2] != "_") w.fail("sasl:query", "a query does not identify " + c->who() + ": " + q[0].raw);
          for (auto& o : ss) if (o.alive && o.server == sn && o.cookie == cookie) w.fail("sasl:query", "two live sessions share the cookie " + cookie);
          k.sess = ss.size(); ss.push_back({sn, cookie, s, c, true, t0, timeout});
        } else if (ss[k.sess].cookie != cookie || v.size() != 2) w.fail("sasl:query", "a continuation of " + c->who() + " was sent as " + q[0].raw);
      }
      coverTransition("au " + arg.substr(0, 5) + (c->ok() ? " reg" : " unreg"));
      return;
    }
    if (a[0] == "end") { if (c->ok()) return; c->send("CAP END"); w.until([&] { return c->dead || c->ok(); }, 10 * SEC); rest(); if (c->dead && w.s.now - c->bornAt > 80 * SEC) return; if (c->dead) w.fail("client:lost", c->who() + " was refused: " + c->reason); if (!c->ok()) w.fail("acct:reg", c->who() + " is not registered after CAP END");
      if (k.done) expect = {"900"}; compare(s, "sasl:reg", "registering"); others(s, "someone else registering");
      if (k.done) for (auto& m : c->log) if (m.cmd == "900" && k.acct.size() && m.arg(2) != k.acct) w.fail("sasl:reg", c->who() + " was told it is logged in as '" + m.arg(2) + "' instead of '" + k.acct + "'");
      whois(k, "after registering"); return; }
    if (a[0] == "drop") { c->die("dropped", a.size() > 2); w.s.runFor(100 * MS); rest(); if (k.sess >= 0) ss[k.sess].alive = false; k.sess = -1; return; }
    if (!c->ok()) return;
    if (a[0] == "join") { c->send("JOIN #acct"); rest(); if (c->chans.count("#acct")) { watch(k, "JOIN", !k.onChan); k.onChan = true; } return; }
    if (a[0] == "say") { if (!k.onChan) return; c->send(fmt("PRIVMSG #acct :t%d", ++texts)); rest(); for (auto wc : wit) { bool f = false; for (size_t i = wcur[wc]; i < wc->log.size(); i++) if (wc->log[i].cmd == "PRIVMSG" && wc->log[i].last() == fmt("t%d", texts)) f = true; if (!f) w.fail("acct:say", "message lost"); } watch(k, "PRIVMSG"); return; }
    if (a[0] == "hide") { c->send("MODE " + c->nick + " +x"); rest(); k.x = true; watch(k, "+x"); return; }
    if (a[0] == "ac") {   // ac SLOT ACCOUNT [ID [FLAGS]]
      if (!up) return; string num = svc->view.byNick(c->nick); if (num.empty()) w.fail("acct:view", "the service does not know " + c->who()); string was = k.acct, id = a.size() > 3 ? a[3] : ""; bool fresh = was.empty() && a[2].size() <= 12, same = was.size() && was == a[2] && (id.empty() || k.id.empty() || id == k.id);
      if (fresh) { granted.insert(a[2]); k.acct = a[2]; k.id = id; } if ((fresh || same) && a.size() > 4) k.fl = a[4] == "0" ? "" : a[4];
      svc->send(svc->num + " AC " + num + " " + a[2] + (id.size() ? " " + id : "") + (a.size() > 4 ? " " + a[4] : "")); rest(); watch(k, "ACCOUNT", false, k.onChan && was.empty() && k.acct.size()); whois(k, "after ACCOUNT"); coverTransition(fmt("ac%d%d%d", fresh, same, (int)a.size())); return; }
    if (a[0] == "who") { whois(k, "when asked"); return; }
  }
  void run() {
    for (int i = 0; i < n; i++) { w.addServer("", i ? vector<int>{i - 1} : vector<int>{}); w.srv[i].tls = false; }
    w.start(); svcUp();
    for (int i = 0; i < n; i++) { Client* c = w.mk(i, fmt("wit%d", i), 6668); c->caps = {"account-notify", "extended-join", "account-tag"}; c->connect(); wit.push_back(c); }
    if (!w.waitReg()) w.fail("harness:reg", "witnesses"); rest();
    for (auto c : wit) { c->send("JOIN #acct"); rest(); }
    config("sasl.server", "svc.sim.net"); config("sasl.mechanisms", "PLAIN,EXTERNAL");
    for (auto& o : p.ops) op(o);
    reap();
    Time lim = w.s.now; for (auto& s : ss) if (s.alive) lim = std::max(lim, s.at + s.timeout * SEC + 5 * SEC); w.s.runUntil(lim); rest();
    for (auto& s : ss) if (s.alive && !s.c->dead) { auto& k = cl[s.slot]; s.alive = false; if (k.c != s.c) continue; k.sess = -1; expect = {"904"}; compare(s.slot, "sasl:timeout", "its session ran out of time"); }
    others(-1, "nothing at all");
    auto d = w.dumpAll("accounts");
    for (auto& x : d) for (auto& u : x.second.users) {
      auto& v = u.second; Cl* k = nullptr; for (auto& y : cl) if (y.second.c && y.second.c->ok() && lower(y.second.c->nick) == lower(v.nick)) k = &y.second;
      string want = k ? k->full() : intro.count(v.nick) ? intro[v.nick] : ""; if (v.account != want) w.fail("acct:state", w.name(x.first) + " has account '" + v.account + "' for " + v.nick + " instead of '" + want + "'");
      if (v.modes.count('x') != (k && k->x)) w.fail("acct:state", w.name(x.first) + " has the wrong +x for " + v.nick);
    }
    checkConverged(w, d, "converge");
  }
};
void gen16(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2); p.set("short", 0); p.knobs.erase("short"); int n = 1 + r.below(2); p.set("n", n); int nc = 2 + r.below(3); int ops = 15 + r.below(35);
  vector<string> args = {"PLAIN", "PLAIN", "PLAIN", "EXTERNAL", "plain", "SCRAM", "+", "*", "*", "dGVzdA==", "LONG 400", "LONG 401"};
  vector<string> ids = {"42", "42", "77", "1700000000", "3000000000", "4294967338", "18446744073709551615"}, fls = {"0", "5", "8", "2147483648", "4294967296", "9223372036854775815"};
  vector<string> verbs = {"OK", "SASL +", "SASL Zm9v", "NO bad password", "NO x", "XX what"};
  if (r.chance(0.4)) p.op("cf sasl.timeout %d", vector<int>{24, 30, 40, 70}[r.below(4)]);
  auto cls = [&](int s) { p.op("cl %d %d %d %d", s, (int)r.below(n), vector<int>{6668, 6668, 6668, 7002}[r.below(4)], (int)(r.chance(0.05) ? 2 : r.below(2))); };
  for (int i = 0; i < nc; i++) if (r.chance(0.7)) cls(i);
  for (int i = 0; i < ops; i++) {
    int s = r.below(nc), k = r.below(40);
    if (k < 12) { p.op("au %d %s", s, r.pick(args).c_str()); if (r.chance(0.5)) p.op("rep 0 %s", r.chance(0.6) ? fmt("OK %s%s", fmt("acc%d", (int)r.below(6)).c_str(), vector<string>{"", ":77", ":77:5", ":77:5 +x", ":3000000000:9223372036854775815"}[r.below(5)].c_str()).c_str() : r.pick(verbs).c_str()); }
    else if (k < 17) p.op("rep %d %s", (int)r.below(4), r.chance(0.5) ? fmt("OK acc%d:1:0%s", (int)r.below(6), r.chance(0.4) ? " +x" : "").c_str() : r.pick(verbs).c_str());
    else if (k == 17) p.op("rep x OK evil:1:0"); else if (k == 18) p.op("rep 0 OK averylongaccountname:5");
    else if (k < 21) cls(s); else if (k < 25) p.op("end %d", s); else if (k < 27) p.op("join %d", s); else if (k < 29) p.op("say %d", s); else if (k == 29) p.op("hide %d", s);
    else if (k < 32) {   // logins from outside, and later changes of their flags
      string ac = r.chance(0.1) ? "averylongaccountname" : fmt("acc%d", (int)r.below(6)), id = r.pick(ids); p.op("ac %d %s%s", s, ac.c_str(), r.chance(0.5) ? (" " + id + (r.chance(0.6) ? " " + r.pick(fls) : "")).c_str() : "");
      for (int j = r.below(3); j > 0; j--) p.op("ac %d %s %s%s", s, r.chance(0.9) ? ac.c_str() : "acc1", r.chance(0.8) ? id.c_str() : r.pick(ids).c_str(), r.chance(0.8) ? (" " + r.pick(fls)).c_str() : ""); }
    else if (r.chance(0.03)) p.op("bu %d %s%s", (int)r.below(4), r.chance(0.3) ? "averylongaccountname" : "acc3", r.chance(0.7) ? (":" + r.pick(ids) + (r.chance(0.6) ? ":" + r.pick(fls) : "")).c_str() : "");
    else if (k < 34) p.op("drop %d%s", s, r.chance(0.5) ? " rst" : ""); else if (k == 34) p.op("wait %d", vector<int>{1000, 6000, 31000, 70000}[r.below(4)]);
    else if (k == 35) p.op(r.chance(0.5) ? "svcdown" : "svcdown rst"); else if (k == 36) p.op("svcup"); else if (k == 37) p.op("cf sasl.mechanisms %s", vector<string>{"", "PLAIN", "EXTERNAL", "PLAIN,EXTERNAL"}[r.below(4)].c_str()); else if (k == 38) p.op("cf sasl.timeout %d", vector<int>{24, 30, 40, 70}[r.below(4)]); else p.op(r.chance(0.3) ? "sp %d" : "who %d", s);
  }
}
void run16(const Plan& p) { Acct a(p); a.run(); }
RegProp reg16({"C16", "Logins", "Plans: 2-4 clients on 1-2 servers start, continue, abort SASL sessions before and after registration while the login service answers live, finished, aborted, timed-out and unknown sessions, sets accounts, disconnects and returns, and changes the settings; a model predicts every numeric, query and account.", "delays, segmentation, disconnects, loss of the service, late replies", gen16, run16, 1, "", {}});
}
