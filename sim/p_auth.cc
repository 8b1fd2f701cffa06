// C09 registration: every connection is either registered exactly once, after everything required happened, or closed within a bounded time.
#include "world.h"
#include "util.h"

namespace {
struct Step { Time d; string tok; };
struct Reg { int id = 0; Client* c = nullptr; vector<Step> steps; size_t next = 0; int dns = 0, ident = 0; string ia; bool started = false;
  bool N = false, U = false, O = false, capOpen = false, capMay = false, swallow = false, gone = false, wrongPass = false, rightPass = false; string cookie; Time lastStep = 0; set<string> nicks; int n001 = 0; Time at001 = 0; bool idle = false; Time doneAt = 0; Time oWait = 0; set<int> bad; Time startAt = 0; };
struct IaSt { bool late = false, kEarly = false, done = false, killed = false, touched = false, sawC = false; string host, user, fuser, ip, account; bool tainted = false; Time doneAt = 0; };
struct Run9 {
  const Plan& p; World& w; vector<std::unique_ptr<Reg>> regs; map<string, Reg*> byIp; map<string, IaSt> ia; SockP iaSock; string iaBuf; Peer* obs = nullptr; int iaSpawns = 0; bool iaUp = false, iaRequired = false; Time iaDownAt = 0;
  bool dnsOn, identOn; Rng rng;
  explicit Run9(const Plan& p) : p(p), w(*W) { dnsOn = p.num("dns"); identOn = p.num("ident"); rng = Rng(p.seed ^ 0xa17); }
  string hostOf(Reg& r) { return fmt("host%d.example.net", r.id); }
  // ---- iauth helper
  void iaSend(const string& l) { if (iaSock && iaUp) { tracef("  iauth >> %s", l.c_str()); string o = l + "\n"; w.s.swrite(iaSock, o.data(), o.size()); } }
  void iaStart(SockP io) {
    iaSpawns++; iaSock = io; iaBuf.clear(); iaUp = true;
    io->onEvent = [this, io] { if (io != iaSock) return; iaBuf += w.s.sread(io); size_t e; while ((e = iaBuf.find('\n')) != string::npos) { string l = iaBuf.substr(0, e); iaBuf.erase(0, e + 1); while (l.size() && l.back() == '\r') l.pop_back(); iaLine(l); } if (io->rfin || io->rstSeen) { iaUp = false; iaDownAt = w.s.now; } };
    iaSend("V :sim-iauth"); iaSend("O " + p.str("iapol", "U")); iaRequired = p.str("iapol", "U").find('R') != string::npos;
    if (p.num("iadebug")) iaSend("G 2");
  }
  void iaLine(const string& l) {
    tracef("  iauth << %s", l.c_str());
    auto a = words(l); if (a.size() < 2) return;
    string fd = a[0];
    if (a[1] == "C" && a.size() >= 6) {
      auto it = byIp.find(a[2]); if (it == byIp.end()) { iaSend("D " + fd + " " + a[2] + " " + a[3]); return; } Reg* r = it->second; ia[a[2]].sawC = true;
      string id = fd + " " + a[2] + " " + a[3]; string ip0 = a[2], port = a[3];
      Time d = 0; string curIp = a[2];
      for (auto& s : splitBy(r->ia, ',')) {
        if (s.empty()) continue;
        if (s[0] == '+') { d += atoi(s.c_str() + 1) * MS; continue; }
        string cmd = s.substr(0, 1), arg = s.size() > 2 ? s.substr(2) : ""; for (auto& ch : arg) if (ch == '_') ch = ' ';
        string myIp = curIp; if (cmd == "I" && arg != "junk") curIp = arg;
        w.s.after(d, [this, cmd, arg, fd, ip0, port, myIp, s, r] {
          if (!iaUp) return; auto& st = ia[ip0];
          if (cmd == "!") { iaSend("K " + fd + " 9.9.9.9 " + port + " :wrong client"); return; }    // stale identification: must be ignored
          if (cmd == "?") { iaSend("D"); iaSend("Q x y z"); iaSend("K 99999 1.2.3.4 5 :x"); iaSend("D -1 a b"); return; }
          if (cmd == "X") { w.s.sclose(iaSock, rng.chance(0.3)); iaUp = false; iaDownAt = w.s.now; return; }
          st.touched = true; if (cmd == "u") st.tainted = true; if (r->n001 || w.s.now > r->startAt + 70 * SEC) st.late = true; if (st.done || st.killed || st.late) { if (cmd == "D" || cmd == "R") st.done = true; if (cmd == "K" || cmd == "k") st.killed = true; iaSend(cmd + " " + fd + " " + myIp + " " + port + (arg.size() ? " " + arg : "")); return; }
          if (cmd == "D" || cmd == "R") { st.done = true; st.doneAt = w.s.now; if (cmd == "R") st.account = arg.substr(0, arg.find(':')); }
          if (cmd == "K" || cmd == "k") st.killed = st.kEarly = true;
          if (cmd == "N" && arg.size()) st.host = arg; if (cmd == "U") st.user = arg; if (cmd == "o") st.fuser = arg; if (cmd == "u") st.tainted = true; if (cmd == "I" && arg != "junk") { st.ip = arg; }
          iaSend(cmd + " " + fd + " " + myIp + " " + port + (arg.size() ? (cmd == "K" || cmd == "k" || cmd == "C" ? " :" : " ") + arg : ""));
        });
      }
    }
  }
  // ---- ident servers
  void identFor(Reg& r) {
    int k = r.ident; if (k == 0) return;    // refused
    string ip = r.c->ip; int id = r.id;
    w.s.tcpActors[Addr::parse(ip, 113).str()] = [this, k, id](SockP s) {
      SockP keep = s; auto buf = std::make_shared<string>(); auto done = std::make_shared<bool>(false);
      s->onEvent = [this, keep, buf, k, id, done] {
        *buf += w.s.sread(keep); auto e = buf->find("\r\n"); if (keep->rfin || keep->rstSeen) { keep->onEvent = nullptr; w.s.sclose(keep); return; }
        if (e == string::npos || *done) return; *done = true; string q = buf->substr(0, e); Time d = 0; string ans = q + " : USERID : UNIX : id" + std::to_string(id) + "\r\n";
        while (ans.find("  ") != string::npos) ans.erase(ans.find("  "), 1);
        if (k == 2) return;                                   // never answers
        if (k == 3) ans = q + " : ERROR : NO-USER\r\n";
        if (k == 4) { ans = ""; int n = rng.below(700); for (int i = 0; i < n; i++) ans += (char)rng.below(256); }
        if (k == 5) { w.s.sclose(keep, true); return; }
        if (k == 6) d = 8500 * MS + rng.below(1500) * MS;     // around the time limit
        if (k == 7) { ans = "999, 999 : USERID : UNIX : evil\r\n"; }
        w.s.after(d, [this, keep, ans] { w.s.swrite(keep, ans.data(), ans.size()); });
      };
    };
  }
  // ---- clients
  void step(Reg* r) {
    Client* c = r->c; if (r->gone || c->dead) return;
    if (r->next >= r->steps.size()) { r->idle = true; r->doneAt = w.s.now; return; }
    auto& s = r->steps[r->next]; char t = s.tok[0];
    if (t == 'O' && r->cookie.empty() && !r->n001 && r->oWait < 20) { r->oWait++; w.s.after(500 * MS, [this, r] { step(r); }); return; }
    r->next++; r->lastStep = w.s.now;
    if (!r->n001) exec(r, s.tok);
    if (r->gone) return;
    Time d = r->next < r->steps.size() ? r->steps[r->next].d : 0;
    w.s.after(std::max<Time>(d, 1), [this, r] { step(r); });
  }
  void exec(Reg* r, const string& tok) {
    Client* c = r->c;
    if (r->swallow && lower(tok) != "x") { r->swallow = false; c->send("NICK other"); return; }
    switch (tok[0]) {
      case 'N': { string n = tok.size() > 1 ? tok.substr(1) : fmt("nick%d", r->id); c->send("NICK " + n); if (n.size() <= 12 && !isdigit(n[0])) { r->N = true; r->nicks.insert(lower(n)); } break; }
      case 'U': c->send(fmt("USER user%d x x :real %d", r->id, r->id)); r->U = true; break;
      case 'B': c->send("USER sobad x x :real bad"); r->U = true; r->bad.insert(5); break;
      case 'W': c->send("PASS sesame"); r->rightPass = true; r->wrongPass = false; break;
      case 'w': c->send("PASS wrong"); r->wrongPass = true; r->rightPass = false; break;
      case 'L': c->send("CAP LS 302"); r->capMay = true; r->capOpen = !(r->N && r->U && r->O); break;
      case 'Q': c->send("CAP REQ :away-notify"); r->capMay = true; r->capOpen = !(r->N && r->U && r->O); break;
      case 'E': c->send("CAP END"); r->capOpen = r->capMay = false; break;
      case 'G': c->send("FOO bar :baz"); break;
      case 'J': c->send("JOIN #pre"); break;
      case 'M': c->send("PRIVMSG nick0 :not yet"); break;
      case 'P': c->send("PING :x"); break;
      case 'O': if (r->cookie.size()) { c->send("PONG :" + r->cookie); r->O = true; } break;
      case 'o': c->send("PONG :12345"); break;
      case 'S': r->bad.insert(1); c->send("SERVER bad.net 1 1 1 J10 AA]]] :x"); break;
      case 'Z': r->bad.insert(4); c->app(string("NI\0CK x\r\n", 9)); break;
      case 'T': r->bad.insert(3); c->app("GARBAGE ni"); r->swallow = true; break;                       // a line never finished: swallows what follows
      case 'X': case 'x': r->gone = true; c->mayDie = true; c->reason = "left"; c->die("left", tok[0] == 'x'); break;
      case 'q': r->bad.insert(2); c->send("QUIT :bye"); break;
    }
  }
  bool needPass(Reg& r) { return p.num("pw") && r.c->port == 6668; }
  bool conform(Reg& r) { return r.N && r.U && r.O && !r.capMay && !r.gone && r.bad.empty(); }
  void onMsg(Reg* r, Msg& m) {
    Client* c = r->c;
    if (m.cmd == "PING") { if (r->n001) c->send("PONG :" + m.last()); else r->cookie = m.last(); }
    if (m.cmd == "001") {
      r->n001++; r->at001 = w.s.now;
      if (r->n001 > 1) w.fail("reg:twice", c->who() + " was welcomed twice");
      if (!r->N || !r->U || !r->O) w.fail("reg:early", fmt("%s was welcomed before sending %s%s%s", c->who().c_str(), r->N ? "" : "NICK ", r->U ? "" : "USER ", r->O ? "" : "the PONG cookie"));
      if (r->capOpen) w.fail("reg:early", c->who() + " was welcomed while its capability negotiation was open");
      if (needPass(*r) && !r->rightPass && !(p.num("ia") && (r->ia.find("I.") != string::npos || r->ia.find("D.") != string::npos))) w.fail("reg:password", c->who() + " was welcomed without the password");
      if (killed(*r)) w.fail("reg:kline", c->who() + " was welcomed although a Kill block matches it");
      auto& st = ia[c->ip];
      if (p.num("ia") && st.kEarly && !st.late && iaSpawns == 1 && iaUp) w.fail("reg:iauth", c->who() + " was welcomed although the authorization helper rejected it");
      if (p.num("ia") && iaRequired && st.sawC && !st.done && iaSpawns == 1 && iaUp) w.fail("reg:iauth", c->who() + " was welcomed although the authorization helper has not accepted it");
      if (!r->nicks.count(lower(m.arg(0)))) w.fail("reg:nick", c->who() + " was welcomed as " + m.arg(0));
      coverTransition(fmt("reg dns%d ident%d ia%s", r->dns, r->ident, r->ia.c_str()));
    } else if (!r->n001 && (m.cmd == "JOIN" || m.cmd == "PRIVMSG")) w.fail("reg:acted", c->who() + " acted before registering: " + m.raw);
  }
  bool killed(Reg& r) { return p.num("kill") && r.id % 5 == 4 && !(p.num("ia") && r.ia.find("I.1") != string::npos); }
  void run() {
    w.addServer(); auto& s0 = w.srv[0]; s0.tls = true;
    w.features["NODNS"] = dnsOn ? "FALSE" : "TRUE"; w.features["NOIDENT"] = identOn ? "FALSE" : "TRUE"; w.features["IPCHECK"] = "FALSE";
    if (dnsOn) { s0.dns = w.dns.ip; w.dns.start(); auto& d = w.dns; d.pSilent = p.real("d.silent"); d.pServfail = p.real("d.servfail"); d.pBogusId = p.real("d.bogus"); d.pGarbage = p.real("d.garbage"); d.pDup = p.real("d.dup"); d.pTrunc = p.real("d.trunc"); d.pSpoofSrc = p.real("d.spoof"); d.pWrongName = p.real("d.wrong"); d.delayMax = p.num("d.delay") * MS; }
    if (p.num("ia")) { s0.iauth = "IAuth { program = \"/bin/iauth\" \"x\"; };\n"; w.s.onExec = [this](Node*, vector<string>, SockP io, SockP) { iaStart(io); }; }
    string um = identOn ? "username = \"*\"; " : ""; s0.clientBlocks = string("Client { " + um + " ip = \"*\"; class = \"Local\"; maxlinks = 200; };\n") + (p.num("pw") ? "Client { " + um + "ip = \"10.20.*\"; port = 6668; class = \"Exempt\"; password = \"sesame\"; maxlinks = 200; };\n" : "") + "Client { " + um + "ip = \"*\"; port = 6697; class = \"Exempt\"; maxlinks = 200; };\n";
    if (p.num("kill")) s0.extra += "Kill { host = \"*@10.77.*\"; reason = \"not here\"; };\nKill { host = \"*\"; username = \"*bad\"; reason = \"bad\"; };\n";
    w.start();
    obs = w.peer(0, 0); obs->connect(); if (!w.until([&] { return obs->linked(); }, 60 * SEC)) w.fail("harness:obs", obs->reason);
    w.s.runFor(5 * SEC);
    size_t fds0 = w.node(0)->fds.size();
    for (auto& op : p.ops) {
      auto a = words(op); if (a.empty()) continue; w.s.mix(hashstr(op));
      if (a[0] == "wait") { w.s.runFor(atoi(a[1].c_str()) * MS); continue; }
      if (a[0] != "c" || a.size() < 7) continue;
      // c ID PORT DNS IDENT IASCRIPT STEPS
      auto r = std::make_unique<Reg>(); r->id = atoi(a[1].c_str()); int port = atoi(a[2].c_str()); r->dns = atoi(a[3].c_str()); r->ident = atoi(a[4].c_str()); r->ia = a[5] == "-" ? "" : a[5];
      Time d = 0; for (auto& t : splitBy(a[6], ',')) { if (t.empty()) continue; if (t[0] == '+') d += atoi(t.c_str() + 1) * MS; else { r->steps.push_back({d, t}); d = 0; } }
      string ip = p.num("kill") && r->id % 5 == 4 ? fmt("10.77.0.%d", r->id + 1) : fmt("10.20.1.%d", r->id + 1);
      if (byIp.count(ip)) continue;
      Client* c = w.mk(0, fmt("nick%d", r->id), port, ip); c->autoReg = c->autoPong = false; c->mayDie = true; r->c = c; Reg* q = r.get(); byIp[ip] = q; regs.push_back(std::move(r));
      if (dnsOn) { auto oct = splitBy(ip, '.'); string rev = oct[3] + "." + oct[2] + "." + oct[1] + "." + oct[0] + ".in-addr.arpa"; string h = hostOf(*q);
        if (q->dns == 3) h = fmt("ba d!%d.example.net", q->id); if (q->dns == 5) h = fmt("other%d.example.net", q->id);
        if (q->dns) w.dns.ptr[rev] = h;
        if (q->dns == 1 || q->dns == 3) w.dns.fwd[lower(h)] = {ip}; if (q->dns == 2) w.dns.fwd[lower(h)] = {"10.66.0.1"}; if (q->dns == 4) w.dns.fwd[lower(h)] = {"10.66.0.1", ip, "10.66.0.2"}; }
      identFor(*q);
      c->onMsg = [this, q](Client&, Msg& m) { onMsg(q, m); };
      c->onOpen = [this, q](Client&) { if (!q->started) { q->started = true; q->startAt = w.s.now; w.s.after(q->steps.empty() ? 1 : q->steps[0].d + 1, [this, q] { step(q); }); } };
     
      c->connect();
    }
    // everything ends within a bounded time
    Time lim = w.s.now + 700 * SEC;
    w.until([&] { for (auto& r : regs) if (!(r->c->dead || r->n001) ) return false; return true; }, lim - w.s.now);
    for (auto& r : regs) if (!r->c->dead && !r->n001) w.fail("reg:stuck", fmt("%s is neither registered nor closed %d s after its last step", r->c->who().c_str(), (int)((w.s.now - r->lastStep) / SEC)));
    w.settle(100 * SEC, false); w.s.runFor(2 * SEC);
    for (auto& rp : regs) {
      Reg& r = *rp; Client* c = r.c; auto& st = ia[c->ip];
      bool iaLost = st.late || iaSpawns > 1 || (p.num("ia") && !iaUp);
      bool over = c->reason.find("Overridden") != string::npos, disturbed = p.real("d.silent") + p.real("d.servfail") + p.real("d.bogus") + p.real("d.garbage") + p.real("d.wrong") + p.real("d.spoof") + p.real("d.trunc") + p.real("d.delay") + p.real("udp.drop") + p.real("d.dup") > 0;
      if (!r.n001) {
        bool slowHelp = p.num("ia") && st.doneAt > r.startAt + 70 * SEC, slowCli = !r.doneAt || r.doneAt > r.startAt + 70 * SEC;
        if (conform(r) && !slowHelp && !slowCli && !r.wrongPass && (!needPass(r) || r.rightPass) && !(p.num("kill") && r.id % 5 == 4) && !(p.num("ia") && (st.killed || (iaRequired && (!st.done || iaLost)))) && !over && r.nicks.size() == 1 && !collides(r) && !st.tainted && c->reason != "left")
          w.fail("reg:refused", fmt("%s did everything required and was not registered: %s", c->who().c_str(), c->reason.c_str()));
        coverTransition("noreg " + c->reason);
        continue;
      }
      if (c->dead) { if (!r.gone) { bool quit = false; for (auto& s : r.steps) if (s.tok == "q" || s.tok == "X" || s.tok == "x") quit = true; if (!quit && !(p.num("ia") && st.killed)) w.fail("reg:lost", c->who() + " was registered and then lost: " + c->reason); } continue; }
      string num = obs->view.byNick(c->nick); if (num.empty()) w.fail("reg:unknown", "the network does not know registered client " + c->who());
      auto& u = obs->view.users[num];
      set<string> hosts, users; string ip = st.ip.size() && st.touched ? st.ip : c->ip;
      bool valid = dnsOn && (r.dns == 1 || r.dns == 4), mayIp = !valid || disturbed || p.num("lat.max") > 300000 || st.ip.size();
      if (valid) hosts.insert(lower(hostOf(r))); if (mayIp) { hosts.insert(ip); hosts.insert(c->ip); }
      if (st.host.size()) { if (st.ip.empty() && !disturbed) hosts.clear(); hosts.insert(lower(st.host)); }
      if (iaLost) { hosts.insert(c->ip); if (valid) hosts.insert(lower(hostOf(r))); }
      if (p.num("kill") && !st.touched && u.user.size() >= 3 && u.user.substr(u.user.size() - 3) == "bad") w.fail("reg:kline", fmt("%s is registered with user name %s although a Kill block matches it", c->who().c_str(), u.user.c_str()));
      string plain = fmt("user%d", r.id);
      if (r.bad.count(5)) { users.insert("sobad"); users.insert("~sobad"); }
      if (!identOn) users.insert(plain); else { bool slow = p.num("lat.max") > 300000 || p.real("eagain") > 0 || p.num("chunk") || p.real("short") > 0; if (r.ident == 1) users.insert(fmt("id%d", r.id)); if (r.ident != 1 || slow) users.insert("~" + plain); if (r.ident == 6) users.insert(fmt("id%d", r.id)); if (r.ident == 4) users.insert("*"); if (r.ident == 7) users.insert("evil"); if (p.num("chunk") || p.real("short") > 0) for (auto& x : vector<string>(users.begin(), users.end())) if (x[0] != '~') for (size_t k = 1; k < x.size(); k++) users.insert(x.substr(0, k)); }
      if (st.late && r.ia.find(".iu") != string::npos) users.insert(fmt("iu%d", r.id)); if (st.late && r.ia.find(".io") != string::npos) users.insert(fmt("io%d", r.id)); if (st.late && r.ia.find(".ia") != string::npos) hosts.insert(fmt("ia%d.example.org", r.id)); if (st.user.size()) { users.insert(st.user); } if (st.fuser.size()) { users.clear(); users.insert(st.fuser); if (st.user.size()) users.insert(st.user); }
      if (iaLost) { users.insert(plain); users.insert("~" + plain); if (r.ident == 1 || r.ident == 6) users.insert(fmt("id%d", r.id)); if (r.ident == 7) users.insert("evil"); }
      if (!st.late && !users.count("*") && !st.tainted && !users.count(u.user)) w.fail("reg:user", fmt("%s got user name %s, allowed: %s", c->who().c_str(), u.user.c_str(), join(vector<string>(users.begin(), users.end())).c_str()));
      if (!st.late && !hosts.count(lower(u.host))) w.fail("reg:host", fmt("%s got host name %s, allowed: %s", c->who().c_str(), u.host.c_str(), join(vector<string>(hosts.begin(), hosts.end())).c_str()));
      if (p.num("ia") && !iaLost && u.account.substr(0, u.account.find(':')) != st.account && !(st.account.find(' ') != string::npos)) w.fail("reg:account", fmt("%s got account [%s], the helper gave [%s]", c->who().c_str(), u.account.c_str(), st.account.c_str()));
      coverTransition("host " + string(u.host == ip ? "ip" : "name") + fmt(" %d %d", r.dns, r.ident));
    }
    // a later connection is served as if nothing had happened
    Client* z = w.mk(0, "later", 6667, "10.20.3.3"); z->mayDie = true; z->connect();
    if (!w.until([&] { return z->registered || z->dead; }, 300 * SEC) || z->dead) w.fail("reg:later", "a later connection could not register: " + z->reason);
    vector<Msg> o; w.query(z, "LUSERS", "255", o); 
    for (auto& m : o) if (m.cmd == "253") w.fail("reg:unknown-count", "LUSERS still counts unregistered connections after all are gone: " + m.raw);
    int liveN = 0; for (auto& r : regs) if (r->c->ok()) liveN++;
    for (auto& m : o) if (m.cmd == "255") { int n = 0; for (auto& x : words(m.last())) if (isdigit(x[0])) { n = atoi(x.c_str()); break; } if (n != liveN + 1) w.fail("reg:count", fmt("LUSERS counts %d clients, %d are connected", n, liveN + 1)); }
    for (auto& c : w.cl) if (!c->dead) c->send("QUIT :end");
    w.s.runFor(20 * SEC); size_t fds1 = w.node(0)->fds.size(); 
    if (fds1 > fds0 + (p.num("ia") ? 2 : 0)) w.fail("reg:fds", fmt("%zu descriptors open after every client left, %zu before", fds1, fds0));
    if (obs->view.users.size()) w.fail("reg:ghost", "the network still knows " + obs->view.users.begin()->second.nick + " after everyone left");
  }
  bool collides(Reg& r) { for (auto& o : regs) if (o.get() != &r) for (auto& n : o->nicks) if (r.nicks.count(n)) return true; return false; }
};
void gen9(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2); p.knobs.erase("short"); if (r.chance(0.7)) p.knobs.erase("chunk");
  bool dns = r.chance(0.6), ident = r.chance(0.5), ia = r.chance(0.5); p.set("dns", dns); p.set("ident", ident); p.set("ia", ia); p.set("pw", r.chance(0.3)); p.set("kill", r.chance(0.3));
  if (ia) { string pol; for (char c : string("ARTUW")) if (r.chance(0.5)) pol += c; if (pol.empty()) pol = "U"; p.knobs["iapol"] = pol; if (r.chance(0.2)) p.set("iadebug", 1); }
  if (dns && r.chance(0.5)) { static const char* K[] = {"d.silent", "d.servfail", "d.bogus", "d.garbage", "d.dup", "d.trunc", "d.spoof", "d.wrong"}; for (int i = 0; i < 3; i++) p.setr(K[r.below(8)], r.chance(0.5) ? 0.15 : 0.6); if (r.chance(0.6)) p.set("d.delay", vector<int>{2000, 9000, 12000, 30000}[r.below(4)]); }
  if (dns && r.chance(0.2)) p.setr("udp.drop", 0.3);
  int n = 2 + r.below(8); bool clash = r.chance(0.2);
  for (int i = 0; i < n; i++) {
    vector<string> t{"N", "U", "O"};
    if (clash && r.chance(0.4)) t[0] = "Nsame";
    if (r.chance(0.35)) { t.push_back("L"); if (r.chance(0.3)) t.push_back("Q"); }
    r.shuffle(t);
    // a PONG before the NICK can only wait for ever
    auto pos = [&](char c) { for (size_t k = 0; k < t.size(); k++) if (t[k][0] == c) return (int)k; return -1; };
    if (pos('O') < pos('N')) std::swap(t[pos('O')], t[pos('N')]);
    if (pos('L') >= 0 && r.chance(0.85)) t.insert(t.begin() + (r.chance(0.6) ? t.size() : pos('L') + 1), "E");
    if (r.chance(0.3)) t.insert(t.begin() + r.below(t.size() + 1), r.pick(vector<string>{"G", "J", "M", "P", "o", "o", "S", "Z", "U", "N9bad", "Nalt" + std::to_string(i), "E", "B", "B"}));
    if (p.num("pw")) { if (r.chance(0.8)) t.insert(t.begin(), r.chance(0.8) ? "W" : "w"); }
    if (r.chance(0.12)) t.erase(t.begin() + r.below(t.size()));
    if (r.chance(0.15)) t.insert(t.begin() + r.below(t.size() + 1), r.pick(vector<string>{"X", "x", "q", "T"}));
    string st; for (auto& x : t) { if (r.chance(0.5)) st += fmt("+%d,", vector<int>{1, 20, 300, 3000, 8900, 9100, 20000}[r.below(7)]); st += x + ","; }
    string is = "-";
    if (ia) { is = ""; auto wait = [&] { if (r.chance(0.7)) is += fmt("+%d,", vector<int>{1, 50, 1000, 5000, 8999, 10000, 40000}[r.below(7)]); };
      int k = r.below(4); for (int j = 0; j < k; j++) { wait(); is += r.pick(vector<string>{fmt("N.ia%d.example.org", i), fmt("U.iu%d", i), fmt("o.io%d", i), fmt("u.un%d", i), fmt("I.10.88.0.%d", i + 1), "M.+i", "M.+iw", "M", "C.answer_me", "!", "?", "d", "N", "I.junk"}) + ","; }
      wait(); is += r.pick(vector<string>{"D", "D", "D", "D", "D.Exempt", "D.Nope", fmt("R.acc%d", i), fmt("R.acc%d:77", i), fmt("R.acc%d:77:3", i), "K.go_away", "k.go", ""}); if (r.chance(0.15)) is += ",+200,D"; if (r.chance(0.05)) is += ",X"; if (r.chance(0.1)) is += ",+5000,K.late";
      if (is.empty()) is = "-"; }
    if (r.chance(0.5)) p.op("wait %d", vector<int>{1, 30, 500, 4000}[r.below(4)]);
    p.op("c %d %d %d %d %s %s", i, vector<int>{6667, 6668, 6668, 6697}[r.below(4)], (int)r.below(6), (int)r.below(8), is.c_str(), st.c_str());
  }
}
void run9(const Plan& p) { Run9 r(p); r.run(); }
RegProp reg9({"C09", "Registration", "Plans: 2-9 connections, each with a script of registration steps in any order and timing, DNS and ident and authorization-helper behaviour.", "DNS loss, delay, spoofing, truncation, garbage, wrong ids; ident refusal, silence, garbage, resets, lateness; helper delays, stale answers, malformed lines, death; disconnects at any step; short reads and writes, delays", gen9, run9, 1, "", {}});
}
