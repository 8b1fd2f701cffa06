// C23: what connections and commands take from the server is given back; the same activity repeated needs no more of it.
#include "chaos.h"
#include "util.h"
namespace {
struct Leak {
  const Plan& p; World& w; int n; vector<Client*> gop; Peer* svc = nullptr; long long cfTs = 0; string answer; int iaSeq = 0; vector<Client*> cur;
  void onSvc(Peer& pe, Msg& m) { if (m.cmd == "XQ" && m.p.size() >= 2 && answer != "none") pe.send(pe.num + " XR " + m.prefix + " " + m.arg(1) + " :" + answer); }
  void relink() { svc = w.service(0); svc->onMsg = [this](Peer& pe, Msg& m, const string&) { onSvc(pe, m); }; svc->connect(); w.until([&] { return svc->linked(); }, 120 * SEC); rest(SEC); }
  // the authorization helper: says yes, no or nothing
  SockP iaSock, iaErr; string iaBuf; bool iaUp = false; void iaSend(const string& l) { if (!iaSock || !iaUp) return; string o = l + "\n"; w.s.swrite(iaSock, o.data(), o.size()); }
  void iaStop() { iaUp = false; auto x = iaSock, y = iaErr; iaSock = iaErr = nullptr; if (x) w.s.sclose(x); if (y) w.s.sclose(y); }
  void iaStart(SockP io, SockP er) { if (iaSock) iaStop(); iaSock = io; iaErr = er; iaBuf.clear(); iaUp = true; io->onEvent = [this, io] { if (io != iaSock) return; iaBuf += w.s.sread(io); size_t e; while ((e = iaBuf.find('\n')) != string::npos) { auto a = words(iaBuf.substr(0, e)); iaBuf.erase(0, e + 1); if (a.size() >= 5 && a[1] == "C") ia(a[0] + " " + a[2] + " " + a[3], a[0] + " " + a[2] + " " + a[3]); } if (io->rfin || io->rstSeen) iaStop(); }; iaSend("V :sim"); iaSend("O U"); iaSend("a"); iaSend("A * ver :1.0"); iaSend("s"); iaSend("S one :line one"); }
  void ia(const string& id, const string&) { switch (iaSeq++ % 7) { case 0: iaSend("N " + id + " ho.st.name"); iaSend("D " + id); break; case 1: iaSend("U " + id + " usr"); iaSend("R " + id + " acct:1700000000:5"); break; case 2: iaSend("C " + id + " :what is the word"); iaSend("D " + id + " Exempt"); break; case 3: iaSend("M " + id + " +i"); iaSend("D " + id); break; case 4: iaSend("o " + id + " fusr"); iaSend("D " + id); break; case 5: iaSend("G 1"); iaSend("X " + w.name(0) + " rt :query"); iaSend("D " + id); break; default: iaSend("d " + id); iaSend("D " + id); } }
  explicit Leak(const Plan& p) : p(p), w(*W), n(p.num("n", 1)) {}
  void rest(Time d = 0) { w.s.runFor(d + 300 * MS + 4 * p.num("lat.max", 1500)); }
  Client* mk(int s, int tr, const string& nick, int ipn) { Client* c = w.mk(s, nick, tr == 1 ? 7002 : tr == 2 ? 6697 : 6668, fmt("10.44.%d.%d", s, 1 + ipn)); c->transport = tr; c->mayDie = true; return c; }
  void leave(Client* c, int how, int s) {
    if (!c || c->dead) return; c->mayDie = true;
    switch (how % 7) { case 0: c->send("QUIT :bye"); break; case 1: c->die("rst", true); return; case 2: c->die("fin"); return; case 3: gop[s]->send("KILL " + c->nick + " :begone"); break; case 4: c->send("JOIN #flood"); for (int i = 0; i < 5; i++) c->raw(string(700, 'x')); rest(); c->die("rst", true); return;
      case 5: { c->stalled = true; for (int i = 0; i < 30; i++) c->send("VERSION"); w.s.runFor(SEC); c->die("rst", true); return; } case 6: gop[s]->send("GLINE !+*@" + c->ip + " " + w.name(s) + " 60 :out"); rest(SEC); break; }
    rest(SEC); if (!c->dead) c->die("gone");
  }
  void act(Client* c, const string& acts, int s) {
    string me = c->nick, ch = "#l" + std::to_string(s);
    for (char a : acts) { if (c->dead) return;
      switch (a) {
        case 'j': c->send("JOIN " + ch + ",#m,&loc"); break; case 'p': c->send("PART " + ch + " :so long"); break; case 'b': c->send("MODE " + ch + " +bbb a!*@* *!b@* *!*@c.d"); c->send("MODE " + ch + " -b+b a!*@* *!*@*.e"); break;
        case 'k': c->send("MODE " + ch + " +kl secret 5"); c->send("TOPIC " + ch + " :some topic or other"); break; case 'i': c->send("INVITE gop" + std::to_string(s) + " " + ch); c->send("INVITE gop" + std::to_string((s + 1) % n) + " " + ch); gop[s]->send("INVITE " + me + " #none"); break;
        case 'I': gop[s]->send("JOIN #gi"); gop[s]->send("MODE #gi +i"); gop[s]->send("INVITE " + me + " #gi"); rest(); break; case 'G': gop[s]->send("PART #gi"); break;
        case 's': c->send("SILENCE +*!*@bad.host,-*!x@*,~*!*@ok.host"); c->send("SILENCE -*!*@bad.host"); gop[s]->send("PRIVMSG " + me + " :hello"); break; case 'a': c->send("AWAY :gone fishing"); break; case 'n': c->send("NICK x" + me); rest(); break;
        case 'm': c->send("PRIVMSG gop" + std::to_string((s + 1) % n) + " :hi there"); c->send("PRIVMSG nobody :hi"); c->send("NOTICE " + ch + " :hi"); c->send("@+typing=active TAGMSG " + ch); break; case 'd': c->send("MODE " + ch + " +D"); break;
        case 'w': c->send("WHO * %tcuihsnfdlar,77"); c->send("WHOIS gop0"); c->send("WHOWAS " + me); c->send("LIST"); c->send("NAMES"); c->send("LINKS"); c->send("MAP"); c->send("LUSERS"); c->send("MOTD"); c->send("INFO"); break;
        case 'W': c->stalled = true; c->send("LIST"); c->send("WHO *"); c->send("HELP"); c->send("INFO"); rest(); break; case 'x': c->send("MODE " + me + " +xid"); break; case 'v': c->send("WATCH +a"); c->send("FOO :bar"); c->send(string(480, 'z')); break;
        case 'c': c->send("CAP LS 302"); c->send("CAP REQ :away-notify echo-message message-tags"); c->send("CAP REQ :-away-notify"); c->send("CAP LIST"); break; case 'u': c->send("USERHOST gop0 nobody"); c->send("ISON gop0 x y z"); c->send("USERIP gop0"); break;
        case 'S': c->send("AUTHENTICATE PLAIN"); rest(); c->send("AUTHENTICATE AGEAYgBj"); rest(); break; case 'A': if (svc && svc->live()) { string nm = svc->view.byNick(me); if (nm.size()) svc->send(svc->num + " AC " + nm + " acct" + std::to_string(s) + " 1700000000 7"); rest(); } break;
        case 'o': c->send("OPER gop operpass"); break; case 'O': c->send("OPER gop wrong"); break; case 'K': c->send("JOIN " + ch); gop[s]->send("JOIN " + ch); rest(); gop[s]->send("OPMODE " + ch + " +o gop" + std::to_string(s)); gop[s]->send("KICK " + ch + " " + me + " :out"); rest(); gop[s]->send("PART " + ch); break;
        case 'P': c->send("PRIVMSG f0u :to the fake"); c->send("WHOIS f0u f0u"); break; case 't': c->send("STATS u"); c->send("TIME"); c->send("ADMIN"); c->send("VERSION " + w.name((s + 1) % n)); c->send("PING :x"); break; }
      w.s.runFor(200 * MS); }
    rest();
  }
  void op(const string& o) {
    auto a = words(o); w.s.mix(hashstr(o)); int s = atoi(a[1].c_str()) % n; const string& k = a[0]; coverTransition(k);
    if (k == "reg") {   // reg S COUNT TR ACTS LEAVE
      int cnt = atoi(a[2].c_str()), tr = atoi(a[3].c_str()), how = atoi(a[5].c_str()); vector<Client*> v; for (int i = 0; i < cnt; i++) { Client* c = mk(s, tr, fmt("u%d", i), i); if (a[4].find('S') != string::npos) c->caps = {"sasl"}; if (a[4][0] == 't') c->caps = {"message-tags", "echo-message"}; c->connect(); v.push_back(c); if (i & 1) continue; w.s.runFor(50 * MS); }
      w.until([&] { for (auto c : v) if (!c->registered && !c->dead) return false; return true; }, 60 * SEC); for (auto c : v) if (c->ok()) { act(c, a[4], s); coverTransition("acts " + a[4].substr(0, 1)); } for (auto c : v) leave(c, how++, s); coverTransition(fmt("leave%d", how % 7)); return; }
    if (k == "early") {   // early S STAGE TR LEAVE
      int st = atoi(a[2].c_str()), tr = atoi(a[3].c_str()), how = atoi(a[4].c_str()); for (int i = 0; i < 3; i++) { Client* c = mk(s, tr, fmt("e%d", i), 20 + i); c->autoReg = false; c->autoPong = st != 5;
        c->onOpen = [st, tr](Client& c) { switch (st) { case 1: c.send("NICK early"); break; case 2: c.send("CAP LS 302"); c.send("NICK early"); c.send("USER a b c :d"); break; case 3: c.send("CAP REQ :sasl"); c.send("NICK early"); c.send("AUTHENTICATE PLAIN"); c.send("AUTHENTICATE AGEAYgBj"); break; case 4: c.raw("GET / HT"); break; case 5: c.send("NICK early"); c.send("USER a b c :d"); break; case 6: c.raw(string("\x16\x03\x01\x02\x00\x01", 6)); break; case 7: c.send("PASS x"); c.send("NICK early"); c.send("USER a b c :d"); c.send("QUIT"); break; default: break; } };
        if (tr == 3) { c->transport = 0; c->port = 7002; } if (tr == 4) { c->transport = 0; c->port = 6697; } c->connect(); w.s.runFor(2 * SEC); if (how == 0) c->die("rst", true); else if (how == 1) c->die("fin"); else cur.push_back(c); } if (how == 2) w.s.runFor(130 * SEC); for (auto c : cur) if (!c->dead) c->die("gone"); cur.clear(); coverTransition(fmt("early%d.%d", st, how)); return; }
    if (k == "peer") {   // peer S KIND LEAVE
      string kd = a[2]; int how = atoi(a[3].c_str()); Peer* f = w.peer(s, 0); if (kd == "pass") f->pass = "wrong"; if (kd == "half") f->autoHandshake = false; if (kd == "name") f->name = "zz.unknown.net"; if (kd == "noeb") f->autoEB = false;
      f->connect(); if (kd == "half") { w.s.runFor(3 * SEC); f->send("PASS :linkpass"); w.s.runFor(3 * SEC); } else w.until([&] { return f->dead || (f->linked() && f->gotEA); }, 20 * SEC);
      if (f->live() && kd == "full") { string u = f->user("f0u", 1700000100, "fake", "h.x"), u2 = f->user("f0v", 1700000100, "fake2", "h.y"); f->send(f->num + " B #fb 1600000000 +stk key " + u + ":o," + u2 + ":%*!*@x.y a!*@*"); f->send(f->num + " B #l" + std::to_string(s) + " 1500000000 +n " + u2 + ":o"); f->send(u + " T #fb 1600000000 1700000000 :a topic"); f->send(f->num + " S leaf.f0.net 2 0 1700000000 J10 ZZAAB +6 :leaf"); f->send("ZZ N onleaf 2 1700000000 u h.z AKKgEC ZZAAA :r"); f->send(u + " A :away now"); f->send(u + " U * *!*@sil.enced,+*!*@sil.two,+~*!*@ok.three,+*!x@sil.four"); f->send(u + " I gop" + std::to_string(s) + " #fb"); f->send(u + " P " + "gop" + std::to_string(s) + " :x"); f->send(f->num + " GL * +*@1.2.3.4 60 1700000000 :r");
        rest(SEC); if (how & 8) f->send(u + " Q :bye"); if (how & 16) f->send(u2 + " N newnick 1700000300"); if (how & 32) f->send(u + " L #fb :part"); rest(SEC); }
      switch (how & 7) { case 0: f->die("rst", true); break; case 1: f->die("fin"); break; case 2: if (f->live()) f->send(f->num + " SQ " + w.name(s) + " 0 :split"); break; case 3: gop[s]->send("SQUIT f0.sim.net :go"); break; case 4: f->send("Y :error"); break; default: f->stalled = true; w.s.runFor(2 * SEC); f->die("rst", true); } rest(2 * SEC); if (!f->dead) f->die("done"); rest(2 * SEC); coverTransition("peer " + kd + fmt("%d", how & 7)); return; }
    if (k == "conn") { gop[s]->send("CONNECT f" + a[2] + ".sim.net 4400"); w.s.runFor(30 * SEC); return; }
    if (k == "ban") { int v = atoi(a[2].c_str()); Client* g = gop[s]; switch (v) { case 0: g->send("GLINE !+*@10.99.0.1 " + w.name(s) + " 60 :r"); rest(); g->send("GLINE -*@10.99.0.1 " + w.name(s) + " 60 :r"); break; case 1: g->send("GLINE !+*@10.99.0.* * 60 :global"); break; case 2: g->send("GLINE !+#badch * 60 :chan"); break; case 3: g->send("JUPE +jup.e.net " + w.name(s) + " 60 :j"); rest(); g->send("JUPE -jup.e.net " + w.name(s) + " 60 :j"); break; case 4: g->send("JUPE +jup2.e.net * 60 :j"); break; case 5: g->send("GLINE !+$Rspam*bot " + w.name(s) + " 60 :r"); break; default: g->send("GLINE"); g->send("JUPE"); } rest(SEC); return; }
    if (k == "iad") { if (iaUp) iaStop(); w.s.runFor(5 * SEC); if (a[2] == "1") { w.s.signal(w.node(0), 1); w.s.runFor(3 * SEC); } int before = iaSeq; Client* c = mk(0, 0, "iac", 44); c->connect(); w.s.runFor(30 * SEC); if (iaUp && iaSeq == before && c->registered) w.fail("iauth:idle", "a client registered without the authorization helper, which was started again, being asked"); coverTransition(iaUp ? "helper back" : "helper gone"); c->die("rst", true); w.s.runFor(30 * SEC); return; }
    if (k == "rehash") { if (a[2] == "h") { w.s.signal(w.node(s), 1); } else gop[s]->send("REHASH" + (a[2] == "f" ? string() : " " + a[2])); rest(3 * SEC); return; }
    if (k == "set") { Client* g = gop[s]; g->send("SET NETWORK Foo" + a[2]); g->send("SET HIDDEN_HOST h" + a[2] + ".x.y"); g->send("GET NETWORK"); g->send("SET NOSUCH x"); g->send("SET LOG SYSTEM LEVEL INFO"); rest(); g->send("RESET NETWORK"); g->send("RESET HIDDEN_HOST"); g->send("RESET LOG SYSTEM LEVEL"); g->send("SET"); rest(); return; }
    if (k == "info") { Client* g = gop[s]; for (char c : string("acdefgGhijJklmoprRstTuUvwxyz")) g->send(string("STATS ") + c + " " + w.name(s)); g->send("STATS nosuch"); g->send("TRACE"); g->send("TRACE " + w.name(s)); g->send("PRIVS gop0"); g->send("CHECK x"); g->send("HASH"); g->send("UPING f0.sim.net"); g->send("RPING f0.sim.net"); g->send("WALLOPS :x"); g->send("CLOSE"); g->send("PROTO"); g->send("ASLL *"); rest(SEC); return; }
    if (k == "nc") {   // nc S V: network configuration comes and goes
      if (!svc->live()) return; Time t = w.node(0)->wall() / 1; auto cf = [&](const string& key, const string& v) { svc->send(svc->num + fmt(" CF %lld ", (long long)++cfTs) + key + " :" + v); }; if (cfTs < t) cfTs = t; int v = atoi(a[2].c_str());
      cf("x.k" + a[2], "one"); cf("x.k" + a[2], "two and longer"); cf("sasl.mechanisms", "PLAIN,EXTERNAL"); cf("sline.hold_timeout", "20"); rest(); gop[s]->send("STATS C"); if (v & 1) cf("x.k" + a[2], ""); if (v & 2) { svc->send(svc->num + " CF 5 x.k" + a[2] + " :old"); svc->send(svc->num + " CF 5 x.k :"); } rest(); cf("x.k" + a[2], ""); cf("sasl.mechanisms", ""); return; }
    if (k == "sl") {   // sl S V ANSWER: messages held for a spam filter
      if (!svc->live()) return; int v = atoi(a[2].c_str()); long long t = w.node(0)->wall(); if (cfTs < t) cfTs = t; svc->send(svc->num + fmt(" CF %lld sline.server :", (long long)++cfTs) + svc->name); answer = a[3];
      svc->send(svc->num + fmt(" SL + %lld %lld A :%s", (long long)++cfTs, t + 300, "sp(a+)m")); svc->send(svc->num + fmt(" SL + %lld %lld P :%s", (long long)++cfTs, t + 300, "([bad")); svc->send(svc->num + fmt(" SL + %lld %lld C :%s", (long long)++cfTs, t + 300, v & 1 ? "noc.p" : "(x)(y)?z")); rest(SEC);
      Client* c = mk(s, 0, "slu", 40); Client* d = mk((s + 1) % n, 0, "sld", 41); c->connect(); d->connect(); w.until([&] { return c->registered && d->registered; }, 60 * SEC); if (v & 2) c->send("JOIN #sl"); d->send("JOIN #sl"); rest();
      c->send("PRIVMSG sld :this is spaam"); c->send("NOTICE sld :spam"); c->send("PRIVMSG #sl :xz nocap spaaam"); c->send("WALLCHOPS #sl :spam"); c->send("PRIVMSG sld@" + w.name((s + 1) % n) + " :spam"); c->send("PART #sl :spam"); c->send("PRIVMSG slu :spam myself"); rest(SEC); if (v & 4) c->die("rst", true); if (v & 8) d->send("QUIT :spam"); if (v & 16) gop[s]->send("SQUIT " + svc->name + " :x"); rest(v & 32 ? 80 * SEC : SEC);
      if (!c->dead) c->send("QUIT :spaam"); if (!d->dead) d->die("x"); rest(2 * SEC); if (!c->dead) c->die("gone"); rest(3 * SEC); if (svc->dead) relink(); return; }
    if (k == "conf") {   // conf S V: another configuration comes and goes
      int v = atoi(a[2].c_str()); string ec = w.extraConf; auto ft = w.features;
      if (v & 1) w.extraConf += "Class { name = \"Extra\"; pingfreq = 1 minutes 30 seconds; sendq = 9999; usermode = \"+i\"; };\nClient { ip = \"10.45.*\"; class = \"Extra\"; password = \"zz\"; };\nKill { host = \"*@10.46.*\"; reason = \"no\"; };\n";
      if (v & 2) w.extraConf += "Jupe { nick = \"Aaa,Bbb\"; };\nQuarantine { \"#qq\" = \"why\"; };\nConnect { name = \"zz.sim.net\"; host = \"10.3.3.3\"; password = \"q\"; port = 4400; class = \"Server\"; hub = \"*.zz\"; };\n";
      if (v & 4) w.extraConf += "Operator { host = \"*@*\"; password = \"$PLAIN$x\"; name = \"exop\"; class = \"Local\"; kill = no; };\nUWorld { name = \"uu.sim.net\"; };\nMotd { host = \"*.zz\"; file = \"other.motd\"; };\n"; if (v & 8) { w.features["NETWORK"] = "Elsewhere"; w.features["MAXSILES"] = "3"; } if (v & 16) w.extraConf += "Class { name = ; };\n";
      w.writeConfig(s); w.s.signal(w.node(s), 1); rest(3 * SEC); gop[s]->send("STATS i"); w.extraConf = ec; w.features = ft; w.writeConfig(s); w.s.signal(w.node(s), 1); rest(3 * SEC); return; }
    if (k == "split") { if (n < 2) return; if (a[2] == "s") gop[0]->send("SQUIT " + w.name(1) + " :x"); else { vector<SockP> v; w.s.partition({w.node(0)->ip}, {w.node(1)->ip}); w.s.runFor(250 * SEC); w.s.healAll(); } rest(SEC); w.until([&] { return w.isLinked(0, 1); }, 900 * SEC); rest(5 * SEC); return; }
  }
  struct M { int64_t blocks, bytes; size_t fds; map<string, int64_t> use; };
  // what the server itself counts as in use; some of it comes from pools made at start and never shows in its memory
  map<string, int64_t> inUse(int i) {
    map<string, int64_t> r; Client* g = gop[i]; size_t m = g->log.size(); for (string t : {"x", "z"}) { size_t m2 = g->log.size(); g->send("STATS " + t); w.until([&] { return g->find("219", m2) != nullptr; }, 60 * SEC); }
    for (size_t q = m; q < g->log.size(); q++) { auto& x = g->log[q]; if (x.cmd != "249") continue; auto a = words(x.last()); for (auto& want : vector<string>{"Clients:", "Connections:", "Servers:", "Links:", "Bans:", "Classes:", "Confs:"}) if (a.size() > 2 && a[0] == want && (a[1] == "inuse" || a[1] == "inuse:")) r[want] = atoll(a[2].c_str()); if (a.size() > 2 && a[0] == "S-line") r["held messages"] = atoll(a[3].c_str()); for (size_t k = 0; k + 1 < a.size(); k++) for (auto& want : vector<string>{"Users", "Channels", "Members", "Invites", "Glines", "Jupes", "Attached", "Listeners", "requests"}) if (a[k] == want && a[0] != "Whowas") r[want] = atoll(a[k + 1].c_str()); }
    return r; } vector<vector<M>> hist;
  void measure() { vector<M> v; for (int i = 0; i < n; i++) v.push_back({w.node(i)->liveBlocks, w.node(i)->liveBytes, w.node(i)->fds.size(), i < (int)gop.size() ? inUse(i) : map<string, int64_t>()}); hist.push_back(v); tracef("cycle %d: %lld blocks %lld bytes %d fds", (int)hist.size(), (long long)v[0].blocks, (long long)v[0].bytes, (int)v[0].fds); }
  void cycle() {
    for (auto& o : p.ops) op(o);
    for (auto g : gop) if (!g->ok()) w.fail("harness:gop", g->who() + " " + g->reason);
    if (svc->dead) relink();
    for (auto g : gop) { g->send("PART #gi,#l0,#l1,#flood"); g->send("AWAY"); } w.s.runFor(100 * SEC); for (auto g : gop) { g->send("GLINE"); g->send("JUPE"); g->send("SILENCE -*"); } w.s.runFor(700 * SEC);
    if (n > 1) w.until([&] { return w.isLinked(0, 1); }, 900 * SEC); w.settle(); for (auto g : gop) { g->log.clear(); } if (svc) svc->log.clear(); measure(); for (auto g : gop) g->log.clear();
  }
  // grows by about the same in every one of the last k cycles
  bool linear(int i, size_t from, bool bytes, int64_t least, int64_t& per) { int64_t lo = INT64_MAX, hi = 0, tot = 0; size_t c = 0; for (size_t j = from; j < hist.size(); j++, c++) { int64_t d = bytes ? hist[j][i].bytes - hist[j - 1][i].bytes : hist[j][i].blocks - hist[j - 1][i].blocks; lo = std::min(lo, d); hi = std::max(hi, d); tot += d; } per = tot / (int64_t)c; return lo >= least && lo * 2 >= per; }
  void run() {
    w.features["IPCHECK_CLONE_LIMIT"] = "250"; w.features["NICKNAMEHISTORYLENGTH"] = "3"; w.features["CONNECTFREQUENCY"] = "30"; w.features["NICK_DELAY"] = "1"; w.features["CONNECTTIMEOUT"] = "30"; w.features["PINGFREQUENCY"] = "60"; if (p.num("dns")) { w.features["NODNS"] = "FALSE"; w.features["NOIDENT"] = "FALSE"; w.dns.start(); w.dns.pSilent = 0.2; w.dns.pServfail = 0.2; for (int s = 0; s < 2; s++) for (int i = 1; i < 60; i++) if (i % 3) { string h = fmt("h%d-%d.example.net", s, i); w.dns.ptr[fmt("%d.%d.44.10.in-addr.arpa", i, s)] = h; if (i % 2) w.dns.fwd[h] = {fmt("10.44.%d.%d", s, i)}; } }
    for (int i = 0; i < n; i++) { w.addServer("", i ? vector<int>{i - 1} : vector<int>{}); w.srv[i].tls = true; if (p.num("ia") && !i) { w.srv[0].iauth = "IAuth { program = \"/bin/iauth\" \"x\"; };\n"; w.s.onExec = [this](Node*, vector<string>, SockP io, SockP er) { iaStart(io, er); }; } if (p.num("dns")) { w.srv[i].dns = w.dns.ip; } if (p.num("sq", 0)) w.srv[i].sendqC = 60000; }
    w.start(); svc = w.service(0); svc->onMsg = [this](Peer& pe, Msg& m, const string&) { onSvc(pe, m); }; svc->connect(); w.until([&] { return svc->linked(); }, 60 * SEC); for (int i = 0; i < n; i++) { gop.push_back(w.client(i, fmt("gop%d", i))); } if (!w.waitReg()) w.fail("harness:reg", "gop"); for (auto g : gop) g->send("OPER gop operpass"); w.settle();
    measure(); for (int i = 0; i < 6; i++) cycle();
    auto verdict = [&](size_t from) -> string { for (int i = 0; i < n; i++) { int64_t per = 0; if (linear(i, from, false, 1, per)) return w.name(i) + fmt(" keeps %lld more blocks of memory each time the same things are done", (long long)per); if (linear(i, from, true, 16, per)) return w.name(i) + fmt(" keeps %lld more bytes of memory each time the same things are done", (long long)per); for (auto& u : hist.back()[i].use) { bool grows = true; for (size_t j = from; j < hist.size(); j++) if (hist[j][i].use[u.first] <= hist[j - 1][i].use[u.first]) grows = false; if (grows) return w.name(i) + " counts more " + u.first + fmt(" in use each time the same things are done, %lld by now", (long long)u.second); } } return ""; };
    for (size_t j = 1; j < hist.size(); j++) for (int i = 0; i < n; i++) if (hist[j][i].fds > hist[0][i].fds) { string l; for (auto& f : w.node(i)->fds) l += fmt(" %d:%s", f.first, f.second->kind == Sock::FILE_ ? f.second->path.c_str() : f.second->remote.str().c_str()); w.fail("leak:fd", w.name(i) + fmt(" has %d descriptors open after the cycle %d, %d before the first:", (int)hist[j][i].fds, (int)j, (int)hist[0][i].fds) + l); }
    if (verdict(3).size()) { for (int i = 0; i < 8; i++) cycle(); string v = verdict(hist.size() - 10); if (v.size()) w.fail("leak:memory", v); coverTransition("unsure"); }
  }
};
void gen23(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2); p.knobs.erase("cap.client"); p.knobs.erase("cap.server"); p.knobs.erase("slat.max"); p.knobs.erase("slat.min"); int n = 1 + r.below(2); p.set("n", n); if (r.chance(0.3)) p.set("sq", 1); if (r.chance(0.25)) p.set("dns", 1); if (r.chance(0.3)) p.set("ia", 1); if (p.has("dns") || p.has("ia")) p.knobs.erase("short");
  static const string A = "jpbkiIGsanmdwWxvcuSAoOKPt";
  for (int i = 2 + r.below(6); i > 0; i--) { int s = r.below(n); switch (r.below(20)) { case 0: case 1: case 2: case 3: { string acts; for (int j = 1 + r.below(7); j > 0; j--) acts += A[r.below(A.size())]; p.op("reg %d %d %d %s %d", s, 1 + (int)r.below(3), vector<int>{0, 0, 0, 1, 2}[r.below(5)], acts.c_str(), (int)r.below(7)); break; }
    case 4: case 5: case 6: p.op("early %d %d %d %d", s, (int)r.below(8), (int)r.below(5), (int)r.below(3)); break; case 7: case 8: p.op("peer %d %s %d", s, vector<string>{"full", "full", "full", "pass", "half", "name", "noeb"}[r.below(7)].c_str(), (int)r.below(64)); break;
    case 9: p.op("conn %d %d", s, 1 + (int)r.below(3)); break; case 10: case 18: p.op("ban %d %d", s, (int)r.below(7)); break; case 11: p.op("rehash %d %s", s, vector<string>{"h", "f", "m", "l", "q"}[r.below(5)].c_str()); break; case 12: p.op("%s %d %d", r.chance(0.5) ? "set" : "info", s, (int)r.below(9)); break; case 13: p.op("nc %d %d", s, (int)r.below(4)); break; case 14: case 15: p.op("sl %d %d %s", s, (int)r.below(64), vector<string>{"YES", "NO", "none", "YES"}[r.below(4)].c_str()); break; case 16: case 17: p.op("conf %d %d", s, (int)r.below(32)); break; case 19: if (p.has("ia")) { p.op("iad 0 %d", (int)r.below(2)); break; } default: if (r.chance(0.3)) p.op("split 0 %s", r.chance(0.5) ? "s" : "p"); else p.op("info %d", s); } }
}
void run23(const Plan& p) { Leak b(p); b.run(); }
RegProp reg23({"C23", "Resources", "Plans: a random list of activities (connections of all kinds ended at any stage in any way, channel and user commands, bans, links made and broken, failing handshakes, rehashes, settings, queries) is carried out over and over; after each round everybody leaves and all timeouts pass, and descriptors and memory of each server are compared.", "delays, segmentation, resets, half-open connections, splits", gen23, run23, 1, "", {}});
}
