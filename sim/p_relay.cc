// C17/C18: negotiated extensions, message tags and notifications; message filters (SILENCE, +R, +c, +d, away).
#include "chaos.h"
#include "util.h"
namespace {
const vector<string> CAPS = {"account-notify", "away-notify", "chghost", "echo-message", "extended-join", "invite-notify", "userhost-in-names", "message-tags", "server-time", "account-tag", "cap-notify", "sasl"};
string feat(const string& c) { string f = "CAP_"; for (char x : c) if (x != '-') f += toupper(x); if (c == "message-tags") f = "CAP_MESSAGE_TAGS"; if (c == "server-time") f = "CAP_SERVER_TIME"; if (c == "account-tag") f = "CAP_ACCOUNT_TAG"; if (c == "userhost-in-names") f = "CAP_UHNAMES"; if (c == "extended-join") f = "CAP_EXTJOIN"; return f; }
struct Relay {
  struct Mem { bool op = false, voice = false, dly = false; };
  struct Ch { string name; map<int, Mem> m; set<char> modes; };
  struct U { Client* c = nullptr; int srv = 0; string ip, acct, awayNet, awayLoc; bool x = false, away = false, oper = false, R = false, d = false, cc = false; map<string, bool> sil; set<string> want, act; bool v302 = false, capped = false; int pings = 0; set<int> silKnown; };
  const Plan& p; World& w; int n; Peer* svc = nullptr; map<int, U> us; map<string, Ch> ch; set<string> off; string deny; int seq = 0; bool strict = true;
  map<string, string> opTags; int opSlot = -1; bool opMsg = false; int64_t opWall = 0; map<string, set<string>> acctOf; map<string, string> realOf; bool loose = false;
  explicit Relay(const Plan& p) : p(p), w(*W), n(p.num("n", 1)) { for (auto& c : CAPS) if (c != "cap-notify" && p.num("off." + c)) off.insert(c); deny = p.str("deny", "*"); }
  void rest() { w.settle(); }
  bool avail(const string& c) { return c != "sasl" && !off.count(c) && std::find(CAPS.begin(), CAPS.end(), c) != CAPS.end(); }
  bool allowedTag(const string& k) { if (k[0] != '+') return false; string nm = k.substr(1); auto l = splitBy(deny, ','); bool all = false, hit = false, ok = false; for (auto& x : l) { if (x == "*") all = true; else if (x[0] == '-') { if (all && x.substr(1) == nm) ok = true; } else if (x == nm) hit = true; } return all ? ok : !hit; }
  string vis(const U& u) { return u.x && u.acct.size() ? u.acct + ".users.undernet.org" : u.ip; }
  string pfx(const U& u) { return u.c->nick + "!" + u.c->user + "@" + vis(u); }
  int byNick(const string& k) { for (auto& x : us) if (x.second.c && lower(x.second.c->nick) == lower(k)) return x.first; return -1; }
  bool tg(const U& u) { return u.act.count("message-tags"); }
  static string unesc(const string& v) { string o; for (size_t i = 0; i < v.size(); i++) { if (v[i] != '\\') { o += v[i]; continue; } if (++i >= v.size()) break; switch (v[i]) { case ':': o += ';'; break; case 's': o += ' '; break; case 'r': o += '\r'; break; case 'n': o += '\n'; break; default: o += v[i]; } } return o; }
  static map<string, string> tags(const string& t) { map<string, string> r; for (auto& x : splitBy(t, ';')) if (x.size()) { auto e = x.find('='); r[x.substr(0, e)] = e == string::npos ? "" : unesc(x.substr(e + 1)); } return r; }
  int64_t isoTime(const string& s) { int Y, M, D, h, m, sec, ms; char z; if (s.size() != 24 || sscanf(s.c_str(), "%d-%d-%dT%d:%d:%d.%d%c", &Y, &M, &D, &h, &m, &sec, &ms, &z) != 8 || z != 'Z') return -1; struct tm t = {}; t.tm_year = Y - 1900; t.tm_mon = M - 1; t.tm_mday = D; t.tm_hour = h; t.tm_min = m; t.tm_sec = sec; return timegm(&t); }
  // every line a client gets has the form it negotiated, at that point of its stream
  void line(int s, Client& c, Msg& m) {
    auto& u = us[s]; auto bad = [&](const string& k, const string& t) { w.fail("form:" + k, c.who() + " with [" + ::join(vector<string>(u.act.begin(), u.act.end())) + "] " + t + ": " + m.raw.substr(0, 300)); };
    auto T = tags(m.tags); bool tm = u.act.count("server-time") || tg(u), ac = u.act.count("account-tag") || tg(u); bool user = m.prefix.find('!') != string::npos;
    if (T.count("time") && !tm) bad("time", "got a time tag it did not ask for"); if (T.count("account") && !ac) bad("account", "got an account tag it did not ask for"); bool plus = false;
    for (auto& x : T) { if (x.first[0] == '+') { plus = true; if (!tg(u)) bad("tags", "got a client tag it did not ask for"); if (!allowedTag(x.first)) bad("denied", "got a client tag that is denied"); } else if (x.first != "time" && x.first != "account") bad("tags", "got an unknown tag"); }
    if (m.cmd != "PING" && m.cmd != "ERROR" && m.cmd != "CAP" && c.registered && !T.count("time") && tm) bad("notime", "got a line without a time tag");
    if (T.count("time")) { int64_t t = isoTime(T["time"]); int64_t lo = opWall - 1, hi = w.node(u.srv)->wall() + 1; if (t < 0) bad("timefmt", "got a malformed time tag"); if (t < lo || t > hi) bad("timeval", fmt("got a time tag outside of [%lld,%lld] (%lld)", (long long)lo, (long long)hi, (long long)t)); }
    bool msg = m.cmd == "PRIVMSG" || m.cmd == "NOTICE" || m.cmd == "TAGMSG";
    if (plus && !loose && !(msg && user && opMsg) && !(opSlot == s || (user && opSlot >= 0 && us[opSlot].c && lower(m.nick()) == lower(us[opSlot].c->nick)))) bad("stray", "got client tags with a line no one attached them to");
    if (user && c.registered && ac && acctOf.count(lower(m.nick())) && m.cmd != "ACCOUNT" && m.cmd != "NICK") { auto& set = acctOf[lower(m.nick())]; string got = T.count("account") ? T["account"] : ""; if (!set.count(got)) bad("acctval", "got a wrong account tag (should be " + (set.empty() ? "" : *set.begin()) + ")"); }
    if (m.cmd == "TAGMSG" && !tg(u)) bad("tagmsg", "got a TAGMSG"); if (m.cmd == "ACCOUNT" && !u.act.count("account-notify")) bad("accountn", "got an ACCOUNT line"); if (m.cmd == "AWAY" && !u.act.count("away-notify")) bad("away", "got an AWAY line"); if (m.cmd == "CHGHOST" && !u.act.count("chghost")) bad("chghost", "got a CHGHOST line");
    if (m.cmd == "INVITE" && lower(m.arg(0)) != lower(c.nick) && !u.act.count("invite-notify")) bad("invite", "got an INVITE for another user");
    if (m.cmd == "JOIN") { bool e = u.act.count("extended-join"); if ((m.p.size() == 3) != e || (!e && m.p.size() != 1)) bad("join", "got a JOIN of the wrong form"); if (e && realOf.count(lower(m.nick())) && (m.arg(2) != realOf[lower(m.nick())] || !acctOf[lower(m.nick())].count(m.arg(1) == "*" ? "" : m.arg(1)))) bad("joinval", "got a JOIN with a wrong account or name"); }
    if (m.cmd == "353" && m.arg(2) != "*") for (auto& x : words(m.last())) if ((x.find('!') != string::npos) != (u.act.count("userhost-in-names") > 0)) bad("names", "got a NAMES entry of the wrong form");
    if (msg && user && lower(m.nick()) == lower(c.nick) && opSlot == s && lower(m.arg(0)) != lower(c.nick) && !u.act.count("echo-message")) bad("echo", "got its own message back");
    if (m.cmd == "CAP" && m.arg(1) == "ACK" && m.p.size() == 3) for (auto& x : words(m.last())) { if (x[0] == '-') u.act.erase(x.substr(1)); else u.act.insert(x); } if (m.cmd == "CAP" && m.arg(1) == "DEL") for (auto& x : words(m.last())) u.act.erase(x);
  }
  // --- expectations of one step
  map<int, multiset<string>> want, opt; set<int> skip;
  void exp(int s, const string& l) { want[s].insert(l); }
  string T(int to, int from, bool withTags) { auto& r = us[to]; map<string, string> t; auto& f = us[from]; if ((r.act.count("account-tag") || tg(r)) && f.acct.size()) t["account"] = f.acct; if (withTags && tg(r)) for (auto& x : opTags) if (allowedTag(x.first)) t[x.first] = x.second; string o; for (auto& x : t) o += x.first + "=" + x.second + ";"; return o; }
  string canonLine(const Msg& m) { string o; for (auto& x : tags(m.tags)) if (x.first != "time" && !(x.first == "account" && m.cmd == "ACCOUNT")) o += x.first + "=" + x.second + ";"; return o + "|" + m.prefix + " " + m.cmd + " " + ::join(m.p, " "); }
  static bool interesting(const Msg& m) { static const set<string> k = {"PRIVMSG", "NOTICE", "TAGMSG", "AWAY", "CHGHOST", "INVITE", "301", "401", "404", "403", "477", "421", "411", "412", "396", "489", "442", "441", "511", "ACCOUNT"}; if (!k.count(m.cmd)) return false; return !(m.cmd == "NOTICE" && m.prefix.find('!') == string::npos); }
  map<int, size_t> mk; void mark() { mk.clear(); for (auto& x : us) if (x.second.c) mk[x.first] = x.second.c->log.size(); want.clear(); opt.clear(); skip.clear(); }
  void compare(const string& what) {
    rest(); for (auto& x : us) { if (!x.second.c || !mk.count(x.first) || skip.count(x.first)) continue; auto& c = *x.second.c; if (c.dead) w.fail("lost", c.who() + " was lost after " + what + ": " + c.reason); auto W = want[x.first]; auto O = opt[x.first]; vector<string> extra;
      for (size_t i = mk[x.first]; i < c.log.size(); i++) { auto& m = c.log[i]; if (m.cmd == "439") { coverTransition("toofast"); return; } if (!interesting(m)) continue; string k = isdigit(m.cmd[0]) ? m.cmd + " " + m.arg(1) + (m.cmd == "301" ? " " + m.last() : "") : canonLine(m); auto j = W.find(k); if (j != W.end()) { W.erase(j); continue; } j = O.find(k); if (j != O.end()) { O.erase(j); continue; } extra.push_back(k); }
      if (murky.size()) { for (auto j = W.begin(); j != W.end();) if (isMurky(*j)) j = W.erase(j); else ++j; extra.erase(std::remove_if(extra.begin(), extra.end(), [&](const string& y) { return isMurky(y); }), extra.end()); }
      if (W.size() || extra.size()) { string t; for (auto& y : W) t += " [" + y + "]"; string e; for (auto& y : extra) e += " [" + y + "]"; w.fail(W.size() ? extra.size() ? "wrong" : "missing" : "extra", "after " + what + " " + c.who() + (t.size() ? " was not sent" + t : "") + (e.size() ? " was sent" + e : "")); } }
    for (auto& x : want) for (auto& y : x.second) { coverTransition("got:" + words(y.substr(y.find('|') + 1)).back().substr(0, 0) + y.substr(0, 4)); break; }
  }
  bool shares(int a, int b, bool hideA) { for (auto& k : ch) if (k.second.m.count(a) && k.second.m.count(b) && !(hideA && k.second.m[a].dly)) return true; return false; }
  bool silenced(int from, int to) { auto& f = us[from]; string alt = f.acct.empty() ? "" : vis(f) == f.ip ? f.acct + ".users.undernet.org" : f.ip; bool pos = false; for (auto& s : us[to].sil) { string k = s.first; bool hit = globm(k, f.c->nick + "!" + f.c->user + "@" + vis(f)) || globm(k, f.c->nick + "!" + f.c->user + "@" + f.ip) || (alt.size() && globm(k, f.c->nick + "!" + f.c->user + "@" + alt)); if (hit && s.second) return false; if (hit) pos = true; } return pos; }
  // a delayed member becomes visible; those in the channel may be told it is away
  set<string> murky;   // a message no one behind a link can hear is not sent there and does not reveal its sender there
  bool isMurky(const string& l) { for (auto& x : murky) if (l.find("|" + x + "!") != string::npos && (l.find(" AWAY") != string::npos || l.find(" ACCOUNT ") != string::npos || l.find(" CHGHOST ") != string::npos)) return true; return false; }
  void reveal(int s, Ch& k, bool some = false) { if (!k.m[s].dly) return; k.m[s].dly = false; auto& u = us[s]; for (auto& m : k.m) if ((some || us[m.first].d) && us[m.first].srv != u.srv) murky.insert(u.c->nick); if (!u.away) return; for (auto& r : us) if (r.second.c && r.first != s && r.second.act.count("away-notify")) { opt[r.first].insert(T(r.first, s, false) + "|" + pfx(u) + " AWAY " + u.awayLoc); opt[r.first].insert(T(r.first, s, true) + "|" + pfx(u) + " AWAY " + u.awayLoc); if (u.awayNet != u.awayLoc) { opt[r.first].insert(T(r.first, s, false) + "|" + pfx(u) + " AWAY " + u.awayNet); opt[r.first].insert(T(r.first, s, true) + "|" + pfx(u) + " AWAY " + u.awayNet); } } }
  // one message to one target
  void toUser(int s, const string& cmd, int t, const string& text, bool directed) {
    auto& f = us[s]; auto& r = us[t]; string suffix = " " + cmd + " " + r.c->nick + (cmd == "TAGMSG" ? "" : " " + text); bool loud = cmd != "NOTICE"; bool local = f.srv == r.srv; (void)directed;
    if (r.R && s != t && f.acct.empty() && !f.oper) { if (loud) exp(s, "477 " + r.c->nick); coverTransition("f:R" + cmd); return; }
    bool sil = silenced(s, t); if (sil && local) { coverTransition("f:sil" + cmd); return; }
    if (r.cc && s != t && !f.oper && murky.count(f.c->nick)) { skip.insert(s); skip.insert(t); return; }
    if (r.cc && s != t && !f.oper && !shares(s, t, true)) { coverTransition("f:cc" + cmd); if (sil) skipEcho(s, t, suffix); return; }
    string away = r.away && loud ? "301 " + r.c->nick + " " + (local ? r.awayLoc : r.awayNet) : ""; string echo = T(s, s, true) + "|" + pfx(f) + suffix; bool echoes = f.act.count("echo-message");
    if (sil) { coverTransition("f:silR" + cmd); if (away.size()) opt[s].insert(away); if (echoes) opt[s].insert(echo); return; }
    if (away.size()) exp(s, away); if (cmd != "TAGMSG" || tg(r)) exp(t, T(t, s, local) + "|" + pfx(f) + suffix); if (echoes) exp(s, echo); coverTransition("m:" + cmd + (local ? "l" : "r") + (echoes ? "e" : "") + (away.size() ? "a" : "") + (tg(r) ? "t" : ""));
  }
  void skipEcho(int s, int, const string&) { (void)s; }
  void toChan(int s, const string& cmd, const string& name, const string& text, int level) {
    auto i = ch.find(lower(name)); auto& f = us[s]; bool loud = cmd != "NOTICE" || level; if (i == ch.end()) { if (loud) exp(s, "403 " + name); return; } auto& k = i->second; bool in = k.m.count(s);
    if (!in && k.modes.count('n')) { if (loud) exp(s, "404 " + (level ? name : k.name)); return; } if (in) reveal(s, k, level > 0); string c = level ? "NOTICE" : cmd; string suffix = " " + c + " " + (level ? "@" : "") + k.name + (cmd == "TAGMSG" ? "" : " " + string(level == 1 ? "@ " : level == 2 ? "+ " : "") + text);
    for (auto& m : k.m) { if (m.first == s) continue; auto& r = us[m.first]; if (r.d) continue; if (level == 1 && !m.second.op) continue; if (level == 2 && !m.second.op && !m.second.voice) continue; if (cmd == "TAGMSG" && !tg(r)) continue; exp(m.first, T(m.first, s, r.srv == f.srv) + "|" + pfx(f) + suffix); }
    if (f.act.count("echo-message")) exp(s, T(s, s, true) + "|" + pfx(f) + suffix); coverTransition("c:" + cmd + std::to_string(level) + (in ? "i" : "o"));
  }
  void capCmd(int s, const string& l) {
    auto& u = us[s]; Client* c = u.c; size_t m = c->log.size(); auto a = words(l); string arg = l.find(':') != string::npos ? l.substr(l.find(':') + 1) : a.size() > 2 ? a[2] : ""; auto before = u.act; c->send(l); w.s.runFor(MS); c->send("PING :" + fmt("c%d", ++seq)); string tk = fmt("c%d", seq);
    auto done = [&] { for (size_t i = m; i < c->log.size(); i++) if (c->log[i].cmd == "PONG" && c->log[i].last() == tk) return true; return c->dead; };
    if (c->registered) { if (!w.until(done, 60 * SEC) || c->dead) w.fail("cap:lost", c->who() + " after " + l + " " + c->reason); } else { u.pings++; auto seen = [&] { int k = 0; for (auto& x : c->log) k += x.cmd == "451"; return k >= u.pings || c->dead; }; if (!w.until(seen, 90 * SEC) || c->dead) w.fail("cap:lost", c->who() + " after " + l + " " + c->reason); }
    vector<Msg> r; for (size_t i = m; i < c->log.size(); i++) if (c->log[i].cmd == "CAP") r.push_back(c->log[i]); string all; string kind; for (size_t i = 0; i < r.size(); i++) { if (kind.size() && kind != r[i].arg(1)) w.fail("cap:reply", c->who() + " asked " + l + " and got both " + kind + " and " + r[i].raw); kind = r[i].arg(1); if ((r[i].p.size() == 4) != (i + 1 < r.size())) w.fail("cap:cont", c->who() + " asked " + l + " and a reply is wrongly continued: " + r[i].raw); all += " " + r[i].last(); }
    auto got = words(all); set<string> G(got.begin(), got.end()); if (kind != "NAK" && G.size() != got.size()) w.fail("cap:dup", c->who() + " asked " + l + " and got " + all);
    auto expect = [&](const string& k, const set<string>& want) { if (kind != k || G != want) w.fail("cap:" + k, c->who() + " asked " + l + ", should get " + k + " [" + ::join(vector<string>(want.begin(), want.end())) + "] and got " + kind + " [" + all + "]"); };
    if (a[1] == "LS") { u.capped = true; if (a.size() > 2 && atoi(a[2].c_str()) >= 302) { u.v302 = true; u.act.insert("cap-notify"); } set<string> e; for (auto& x : CAPS) if (avail(x) && !(u.v302 && x == "cap-notify")) e.insert(x); expect("LS", e); coverTransition(u.v302 ? "ls302" : "ls"); }
    else if (a[1] == "LIST") { set<string> e; for (auto& x : u.want) e.insert(x); auto alt = e; alt.insert("cap-notify"); if (kind == "LIST" && u.v302 && G == alt) {} else expect("LIST", e); coverTransition("list"); }
    else if (a[1] == "REQ") { u.capped = true; bool ok = true; auto nw = before; auto nwant = u.want; set<string> ack; for (auto& x : words(arg)) { bool neg = x[0] == '-'; string k = lower(neg ? x.substr(1) : x); bool known = std::find(CAPS.begin(), CAPS.end(), k) != CAPS.end(); if (!known || (off.count(k)) || (!neg && k == "sasl") || (neg && k == "cap-notify" && u.v302)) { ok = false; break; } ack.erase(k); ack.erase("-" + k); ack.insert((neg ? "-" : "") + k); if (neg) { nw.erase(k); nwant.erase(k); } else { nw.insert(k); nwant.insert(k); } }
      if (ok) { expect("ACK", ack); u.act = nw; u.want = nwant; coverTransition("ack"); } else { if (kind != "NAK" || r.size() != 1 || r[0].last() != arg) w.fail("cap:NAK", c->who() + " asked " + l + ", should be refused as a whole and got " + kind + " [" + all + "]"); if (u.act != before) w.fail("cap:NAK", "a refused request changed something"); coverTransition("nak"); } }
    else if (kind.size()) w.fail("cap:reply", c->who() + " sent " + l + " and got " + kind);
  }
  void op(const string& o) {
    auto a = words(o); w.s.mix(hashstr(o)); auto q = [&](size_t i) { return i < a.size() ? a[i] : string(); }; auto rest_of = [&](size_t i) { return i < a.size() ? ::join(vector<string>(a.begin() + i, a.end())) : string(); }; const string& k = a[0]; int s = atoi(q(1).c_str());
    opTags.clear(); opSlot = s; opMsg = false; opWall = w.node(0)->wall(); for (int i = 1; i < n; i++) opWall = std::min<int64_t>(opWall, w.node(i)->wall()); if (k == "idle") opSlot = -1;
    if (k == "conn") {   // conn SLOT SRV TRANSPORT | cap lines
      auto& u = us[s]; if (u.c) return; u = U(); u.srv = atoi(q(2).c_str()) % n; int tr = atoi(q(3).c_str()); string nick = fmt("u%d", s); if (byNick(nick) >= 0) return; u.ip = fmt("10.61.%d.%d", s, ++seq % 250 + 1); Client* c = w.mk(u.srv, nick, tr == 1 ? 7002 : 6668, u.ip); u.c = c; c->transport = tr == 1 ? 1 : 0; c->user = fmt("user%d", s); c->real = fmt("real name %d", s); c->autoReg = false; acctOf[lower(nick)] = {""}; realOf[lower(nick)] = c->real; c->onMsg = [this, s](Client& cc, Msg& m) { line(s, cc, m); }; c->checkView = true;
      bool opened = false; c->onOpen = [&](Client&) { opened = true; }; c->connect(); w.until([&] { return opened || c->dead; }, 30 * SEC); c->onOpen = nullptr; if (c->dead) w.fail("harness:conn", c->reason); opWall = 0;
      auto ls = splitBy(rest_of(4), '|'); bool early = q(4) == "E"; (void)early; c->send("NICK " + nick); for (auto& l : ls) if (words(l).size() > 1) capCmd(s, l); c->send("USER " + c->user + " 0 * :" + c->real); if (u.capped) { w.s.runFor(3 * SEC); rest(); if (c->registered) w.fail("cap:early", c->who() + " was registered before it ended the negotiation"); c->send("CAP END"); }
      if (!w.until([&] { return c->ok() || c->dead; }, 60 * SEC) || c->dead) w.fail("cap:reg", c->who() + " was not registered: " + c->reason); rest(); return; }
    if (k == "split") {   // the link between two servers fails and comes back: what one side learnt of the other's filters is gone
      int e = s; if (e + 1 >= n) return; for (auto& x : ch) { if (x.second.modes.count(68)) return; for (auto& m : x.second.m) if (m.second.dly) return; } if (n > 2) for (auto& x : us) if (x.second.away && x.second.awayNet != x.second.awayLoc) return; loose = true; rstLink(w, e, e + 1); w.s.runFor(2 * SEC); if (!w.waitLinked(400 * SEC, {{e, e + 1}})) w.fail("liveness:link", "a broken link does not come back"); rest(); w.s.runFor(3 * SEC); rest(); loose = false; for (auto& x : us) if (x.second.c && x.second.c->dead) w.fail("lost", x.second.c->who() + " was lost in a split: " + x.second.c->reason); for (auto& x : us) x.second.awayNet = x.second.awayLoc; coverTransition("split"); return; }
    if (k == "idle") { w.s.runFor(atoi(q(1).c_str()) * SEC); rest(); return; }
    auto it = us.find(s); if (it == us.end() || !it->second.c) return; U& u = it->second; Client* c = u.c; mark();
    if (k == "cap") { capCmd(s, rest_of(2)); return; }
    if (k == "msg" || k == "dmsg") {   // msg SLOT CMD TAGS TARGETS TEXT
      string cmd = q(2), tgs = q(3), l; opMsg = true; if (tgs != "-") { for (auto& x : tags(tgs)) if (x.first[0] == '+') opTags[x.first] = x.second; l = "@" + tgs + " "; } string text = rest_of(5); string tl; set<string> done; vector<string> ts = splitBy(q(4), ',');
      for (auto& t : ts) { string x = t; if (t[0] == '=') { int z = atoi(t.c_str() + 1); if (!us.count(z) || !us[z].c) x = "nobody" + t.substr(1); else x = us[z].c->nick; if (seq % 3 == 0) x[0] = toupper(x[0]); } tl += (tl.size() ? "," : "") + x; }
      l += cmd + " " + tl + (cmd == "TAGMSG" ? "" : " :" + text); c->send(l); if (cmd == "TAGMSG" && !tg(u)) exp(s, "421 TAGMSG");
      else for (auto& x : splitBy(tl, ',')) { if (!done.insert(lower(x)).second) continue; if (x[0] == '#') toChan(s, cmd, x, text, 0); else if (x.find('@') != string::npos) exp(s, "401 " + x); else { int t = byNick(x); if (t < 0) { if (cmd != "NOTICE") exp(s, "401 " + x); } else toUser(s, cmd, t, text, false); } }
      compare(l); return; }
    if (k == "wall") { opMsg = true; string cmd = q(2); toChan(s, "PRIVMSG", q(3), rest_of(4), cmd == "WALLCHOPS" ? 1 : 2); c->send(cmd + " " + q(3) + " :" + rest_of(4)); compare(o); return; }
    if (k == "cmsg") {   // cmsg SLOT CMD TARGET CHAN TEXT
      opMsg = true; int t = atoi(q(3).c_str()); if (!us.count(t) || !us[t].c) return; auto& r = us[t]; string cmd = q(2), c2 = cmd == "CNOTICE" ? "NOTICE" : "PRIVMSG", kn = q(4), text = rest_of(5); auto i = ch.find(lower(kn)); bool loud = cmd != "CNOTICE"; string suffix = " " + c2 + " " + r.c->nick + " " + text;
      if (i == ch.end()) exp(s, "403 " + kn); else if (!i->second.m.count(s)) exp(s, "442 " + i->second.name); else if (!i->second.m[s].op && !i->second.m[s].voice) exp(s, "489 " + i->second.name); else if (!i->second.m.count(t)) exp(s, "441 " + r.c->nick);
      else if (r.R && s != t && u.acct.empty() && !u.oper) { if (loud) exp(s, "477 " + r.c->nick); } else { bool sil = silenced(s, t), local = u.srv == r.srv; string aw = r.away && loud ? "301 " + r.c->nick + " " + (local ? r.awayLoc : r.awayNet) : ""; if (sil) { if (!local && aw.size()) opt[s].insert(aw); } else { if (aw.size()) exp(s, aw); exp(t, T(t, s, local) + "|" + pfx(u) + suffix); if (s != t && u.act.count("echo-message")) opt[s].insert(T(s, s, true) + "|" + pfx(u) + suffix); } }
      c->send(cmd + " " + r.c->nick + " " + kn + " :" + text); compare(o); return; }
    if (k == "sil") {   // the list as the server shows it is the one that counts
      string m0 = rest_of(2); c->send("SILENCE " + m0); rest(); bool full = false; for (size_t i = mk[s]; i < c->log.size(); i++) if (c->log[i].cmd == "511") full = true; auto old = u.sil; size_t m = c->log.size(); c->send("SILENCE"); rest(); u.sil.clear(); int ends = 0; for (size_t i = m; i < c->log.size(); i++) { if (c->log[i].cmd == "271") { string x = c->log[i].last(); bool e = x[0] == '~'; if (e) x = x.substr(1); u.sil[x] = e; } if (c->log[i].cmd == "272") ends++; } if (ends != 1) w.fail("silence:list", c->who() + " asked for its silences and got no proper end");
      // the change took effect: added masks are covered, removed ones gone, the rest is unchanged
      set<string> touched; for (auto& x : splitBy(m0, ',')) { bool del = x[0] == '-'; string b = x[0] == '-' || x[0] == '+' ? x.substr(1) : x; bool e = b[0] == '~'; if (e) b = b.substr(1); touched.insert(b); bool there = false; for (auto& y : u.sil) if ((y.second == e || y.second) && globm(y.first, b)) there = true;    if (del && u.sil.count(b) && u.sil[b] == e) w.fail("silence:del", c->who() + " removed the silence " + x + " and still has it"); if (!del && !there && !full) { bool later = false; for (auto& y : splitBy(m0, ',')) if (y[0] == '-') later = true; if (!later) w.fail("silence:add", c->who() + " added the silence " + x + " and does not have it"); } }
      for (auto& x : old) if (!u.sil.count(x.first)) { bool cov = false; for (auto& t : touched) if (globm(t, x.first)) cov = true; if (!cov) w.fail("silence:lost", c->who() + " lost the silence " + x.first + " by SILENCE " + m0); } if (u.sil.size() > 25) w.fail("silence:max", "more silences than allowed"); if (full && old.size() + splitBy(m0, 44).size() <= 25) w.fail("silence:full", c->who() + " is told its silence list is full"); coverTransition(fmt("sil%d", (int)u.sil.size())); return; }
    if (k == "um") { string m = q(2); c->send("MODE " + c->nick + " " + m); bool add = m[0] == '+'; char f = m[1]; bool hid = u.x && u.acct.size(); if (f == 'R') u.R = add; if (f == 'd') u.d = add; if (f == 'c') u.cc = add; if (f == 'x' && add && !hid) { if (u.acct.size()) { hide(s); } else { u.x = true; } } compare(o); return; }
    if (k == "oper") { c->send("OPER gop operpass"); rest(); if (c->umodes.find('o') == string::npos) w.fail("harness:oper", c->who()); u.oper = true; return; }
    if (k == "acct") { if (u.acct.size() || !svc) return; string num = svc->view.byNick(c->nick); if (num.empty()) w.fail("harness:svc", "service does not know " + c->nick); string ac = fmt("acc%d", s); acctOf[lower(c->nick)].insert(ac); u.acct = ac; bool x = u.x; u.x = false; for (auto& r : us) if (r.second.c && r.second.act.count("account-notify") && (r.first == s || shares(s, r.first, true))) exp(r.first, "|" + pfx(u) + " ACCOUNT " + ac); if (x) { hide(s); } svc->send(svc->num + " AC " + num + " " + ac); compare(o); acctOf[lower(c->nick)] = {ac}; return; }
    if (k == "away") { string t = rest_of(2); if (t.empty() && !u.away) return; bool was = u.away; c->send(t.empty() ? "AWAY" : "AWAY :" + t); u.away = t.size(); u.awayLoc = t; if (!was) u.awayNet = t; if (!was || t.empty()) for (auto& r : us) if (r.second.c && r.first != s && r.second.act.count("away-notify") && shares(s, r.first, true)) exp(r.first, T(r.first, s, false) + "|" + pfx(u) + " AWAY" + (t.empty() ? " " : " " + t)); compare2(o); return; }
    if (k == "join") { string kn = q(2); auto& kk = ch[lower(kn)]; if (kk.m.count(s)) return; if (kk.name.empty()) kk.name = kn; Mem m; m.op = kk.m.empty(); m.dly = kk.modes.count('D') && !m.op; c->send("JOIN " + kn); if (u.away && !m.dly) for (auto& r : us) if (r.second.c && r.first != s && r.second.act.count("away-notify")) { string l = T(r.first, s, false) + "|" + pfx(u) + " AWAY " + u.awayLoc; string l2 = T(r.first, s, false) + "|" + pfx(u) + " AWAY " + u.awayNet; if (kk.m.count(r.first) && r.second.srv == u.srv) exp(r.first, l); else { opt[r.first].insert(l); if (l2 != l) opt[r.first].insert(l2); } } kk.m[s] = m; compare2(o); if (!c->chans.count(lower(kn))) w.fail("harness:join", c->who() + " cannot join " + kn); return; }
    if (k == "part") { string kn = lower(q(2)); if (!ch.count(kn) || !ch[kn].m.count(s)) return; c->send("PART " + kn); ch[kn].m.erase(s); if (ch[kn].m.empty()) ch.erase(kn); compare(o); return; }
    if (k == "cm") { string kn = lower(q(2)); if (!ch.count(kn) || !ch[kn].m.count(s) || !ch[kn].m[s].op) return; auto& kk = ch[kn]; string md = q(3); if (md[1] == 'o' || md[1] == 'v') { int t = atoi(q(4).c_str()); if (!us.count(t) || !kk.m.count(t) || t == s) return; (md[1] == 'o' ? kk.m[t].op : kk.m[t].voice) = md[0] == '+'; if (md[0] == '+') reveal(t, kk); c->send("MODE " + kn + " " + md + " " + us[t].c->nick); } else { c->send("MODE " + kn + " " + md); if (md[0] == '+') kk.modes.insert(md[1]); else kk.modes.erase(md[1]); } compare(o); return; }
    if (k == "inv") { int t = atoi(q(2).c_str()); string kn = lower(q(3)); if (!us.count(t) || !us[t].c || t == s || !ch.count(kn) || !ch[kn].m.count(s) || !ch[kn].m[s].op || ch[kn].m.count(t)) return; auto& kk = ch[kn]; auto& r = us[t]; size_t m0 = c->log.size(); c->send("INVITE " + r.c->nick + " " + kn); rest(); if (!c->find("341", m0)) { coverTransition("noinvite"); return; } if (silenced(s, t)) { skip.insert(s); for (auto& m : kk.m) skip.insert(m.first); coverTransition("invsil"); compare(o); return; } exp(t, T(t, s, r.srv == u.srv) + "|" + pfx(u) + " INVITE " + r.c->nick + " " + kk.name); if (r.away) opt[s].insert("301 " + r.c->nick + " " + (r.srv == u.srv ? r.awayLoc : r.awayNet));
      for (auto& m : kk.m) { auto& x = us[m.first]; if (m.first == s || !m.second.op || !x.act.count("invite-notify")) continue; string l = T(m.first, s, x.srv == u.srv) + "|" + pfx(u) + " INVITE " + r.c->nick + " " + kk.name; if (x.srv == u.srv || x.srv == r.srv) exp(m.first, l); else opt[m.first].insert(l); } coverTransition("inv"); compare(o); return; }
    if (k == "nick") { string nk = q(2); if (byNick(nk) >= 0) return; string old = c->nick; acctOf[lower(nk)] = acctOf[lower(old)]; realOf[lower(nk)] = c->real; c->send("NICK " + nk); rest(); if (murky.count(old)) murky.insert(c->nick); if (c->nick != old) { acctOf.erase(lower(old)); realOf.erase(lower(old)); if (lower(old) != lower(nk)) coverTransition("nick"); } return; }
    if (k == "gone") { string old = lower(c->nick); c->mayDie = true; if (q(2) == "q") { c->send("QUIT :leaving"); rest(); } c->die("gone", q(2) == "r"); for (auto i = ch.begin(); i != ch.end();) { i->second.m.erase(s); if (i->second.m.empty()) i = ch.erase(i); else ++i; } opSlot = -1; w.s.runFor(200 * MS); rest(); u.c = nullptr; acctOf.erase(old); realOf.erase(old); us.erase(s); return; }
    if (k == "race") {   // messages flow while the reader switches extensions on and off: every line still has the form in force where it stands
      int t = atoi(q(2).c_str()); string kn = lower(q(3)); if (!us.count(t) || !us[t].c || t == s || !ch.count(kn) || !ch[kn].m.count(s) || !ch[kn].m.count(t)) return; auto& r = us[t]; for (auto& x : words(rest_of(4))) if (off.count(x)) return; loose = true; int got0 = r.c->log.size(); Rng g(hashstr(o) ^ p.seed); int sent = 0; string caps1 = rest_of(4); bool on = true;
      for (int i = 0; i < 14; i++) { c->send(fmt("PRIVMSG %s :race%d", kn.c_str(), i)); sent++; if (g.chance(0.5)) w.s.runFor(g.below(20) * MS); if (g.chance(0.4)) { string l; for (auto& x : words(caps1)) l += (l.size() ? " " : "") + string(on ? "" : "-") + x; on = !on; r.c->send("CAP REQ :" + l); } }
      ch[kn].m[s].dly = false; rest(); int got = 0; for (size_t i = got0; i < r.c->log.size(); i++) { auto& m = r.c->log[i]; if (m.cmd == "PRIVMSG" && startsWith(m.last(), "race") && lower(m.nick()) == lower(c->nick)) { if (m.last() != fmt("race%d", got)) w.fail("race:order", r.c->who() + " got " + m.raw); got++; } if (m.cmd == "CAP" && m.arg(1) == "NAK") w.fail("cap:NAK", r.c->who() + " was refused: " + m.raw); } if (got != (r.d ? 0 : sent)) w.fail("race:count", r.c->who() + fmt(" got %d of %d messages", got, sent)); loose = false; r.want.clear(); for (auto& x : r.act) if (x != "cap-notify" || !r.v302) r.want.insert(x); capCmd(t, "CAP LIST"); coverTransition("race"); return; }
  }
  void compare2(const string& o) { compare(o); }
  // the hidden host takes effect for user s: what others are shown
  void hide(int s) {
    U& u = us[s]; string before = pfx(u); u.x = true; string nh = vis(u); for (auto& r : us) { if (!r.second.c || (r.first != s && !shares(s, r.first, true))) continue; if (r.second.act.count("chghost")) { exp(r.first, T(r.first, s, false) + "|" + before + " CHGHOST " + u.c->user + " " + nh); } else if (r.first == s) exp(s, "396 " + nh); if (u.away && r.first != s && r.second.act.count("away-notify") && !r.second.act.count("chghost")) for (auto& k : ch) if (k.second.m.count(s) && k.second.m.count(r.first) && !k.second.m[s].dly) { string l = T(r.first, s, false) + "|" + pfx(u) + " AWAY "; if (r.second.srv == u.srv) exp(r.first, l + u.awayLoc); else { exp(r.first, l + u.awayNet); } } }
    coverTransition("hide");
  }
  void run() {
    w.features["IPCHECK_CLONE_LIMIT"] = "250"; w.features["NODNS"] = "TRUE"; w.features["CONNECTFREQUENCY"] = "20"; w.features["CLIENTTAGDENY"] = deny; for (auto& c : off) w.features[feat(c)] = "FALSE"; if (p.num("nonettime")) w.features["NETWORK_TIME"] = "FALSE"; if (p.num("nonetfeat")) w.features["NETWORK_FEATURES"] = "FALSE";
    for (int i = 0; i < n; i++) w.addServer("", i ? vector<int>{i - 1} : vector<int>{}); w.start(); svc = w.service(0); svc->connect(); if (!w.until([&] { return svc->linked(); }, 60 * SEC)) w.fail("harness:svc", svc->reason); rest(); for (auto& o : p.ops) op(o); checkFold(w, "fold");
  }
};
string pick(Rng& r, vector<string> v) { return v[r.below(v.size())]; }
string capLine(Rng& r) { int q = r.below(12); if (q == 0) return "CAP LS"; if (q == 1) return "CAP LS 302"; if (q == 2) return "CAP LIST"; string l; int k = 1 + r.below(5); for (int i = 0; i < k; i++) { string c = r.pick(CAPS); if (r.chance(0.05)) c = "no-such-cap"; if (c == "sasl" && r.chance(0.8)) c = "echo-message"; if (r.chance(0.05)) c[0] = toupper(c[0]); l += (l.size() ? " " : "") + string(r.chance(0.22) ? "-" : "") + c; } return "CAP REQ :" + l; }
string tagStr(Rng& r) { if (r.chance(0.45)) return "-"; string t; set<string> used; for (int i = 1 + r.below(4); i > 0; i--) { string k = pick(r, {"+typing", "+draft/reply", "+x.org/a", "+react", "+b", "time", "account", "msgid", "+example.com/foo"}); if (!used.insert(k).second) continue; t += (t.size() ? ";" : "") + k; if (r.chance(0.8)) t += "=" + pick(r, {"active", "a\\sb", "\\:x\\\\y", "1", "", "q\\rq\\n", string(300, 'v'), "2011-10-19T16:40:51.620Z"}); } return t; }
void genR(Plan& p, Rng& r, bool caps) {
  genNetKnobs(p, r, 2); p.knobs.erase("slat.max"); p.knobs.erase("slat.min"); int n = 1 + r.below(caps ? 2 : 3); p.set("n", n); int nc = 3 + r.below(3); int ops = 25 + r.below(50);
  if (caps) for (auto& c : CAPS) if (r.chance(0.06)) p.set("off." + c, 1); if (caps || r.chance(0.3)) p.knobs["deny"] = pick(r, {"*", "*,-typing", "*,-typing,-draft/reply,-react,-b", "typing", "react,b", "x.org/a", "none"}); if (r.chance(0.15)) p.set("nonettime", 1); if (r.chance(0.1)) p.set("nonetfeat", 1);
  auto ch = [&] { return fmt("#r%d", (int)r.below(3)); }; auto conn = [&](int i) { string l; if (r.chance(caps ? 0.85 : 0.5)) { int k = 1 + r.below(caps ? 4 : 2); if (r.chance(0.6)) l = r.chance(0.7) ? "CAP LS 302" : "CAP LS"; for (int j = 0; j < k; j++) l += (l.size() ? "|" : "") + capLine(r); } p.op("conn %d %d %d %s", i, (int)r.below(n), r.chance(0.15) ? 1 : 0, l.c_str()); };
  for (int i = 0; i < nc; i++) conn(i); for (int i = 0; i < nc; i++) for (int j = 1 + r.below(2); j > 0; j--) p.op("join %d %s", i, ch().c_str()); if (r.chance(0.4)) p.op("cm %d %s +D", (int)r.below(nc), ch().c_str()); if (r.chance(0.5)) p.op("cm %d %s +n", (int)r.below(nc), ch().c_str());
  for (int i = 0; i < ops; i++) {
    int s = r.below(nc), t = r.below(nc), q = r.below(100); auto tgt = [&] { string x; for (int j = 1 + (r.chance(0.25) ? 1 + r.below(3) : 0); j > 0; j--) x += (x.size() ? "," : "") + (r.chance(0.5) ? ch() : r.chance(0.93) ? fmt("=%d", (int)r.below(nc)) : r.chance(0.5) ? string("u0@s0.sim.net") : string("nobody")); return x; };
    if (!caps && r.chance(0.04)) {   // a wide silence with an exception, learnt by the senders' server from the first message that hits it
      int a = r.below(nc), b = r.below(nc); if (a != t && b != t) { p.op("sil %d %s", t, pick(r, {"*!*@*", "*!*@10.61.*"}).c_str()); p.op("sil %d ~%s", t, pick(r, {fmt("*!user%d@*", b), fmt("u%d!*@*", b)}).c_str()); if (r.chance(0.4)) p.op("split %d", (int)r.below(n)); for (int j = 2 + r.below(4); j > 0; j--) p.op("msg %d %s - =%d text%d_%d", r.chance(0.5) ? a : b, r.chance(0.6) ? "PRIVMSG" : "NOTICE", t, i, j); continue; } }
    if (n > 1 && r.chance(0.01)) p.op("split %d", (int)r.below(n - 1));
    if (q < 38) p.op("msg %d %s %s %s text%d", s, r.chance(0.5) ? "PRIVMSG" : r.chance(caps ? 0.4 : 0.6) ? "NOTICE" : "TAGMSG", tagStr(r).c_str(), tgt().c_str(), i);
    else if (q < 42) p.op("wall %d %s %s w%d", s, r.chance(0.5) ? "WALLCHOPS" : "WALLVOICES", ch().c_str(), i); else if (q < 46) p.op("cmsg %d %s %d %s cm%d", s, r.chance(0.5) ? "CPRIVMSG" : "CNOTICE", t, ch().c_str(), i);
    else if (q < (caps ? 56 : 47)) p.op("cap %d %s", s, capLine(r).c_str()); else if (q < (caps ? 58 : 58)) { string m = pick(r, {fmt("u%d!*@*", t), fmt("*!user%d@*", t), "*!*@10.61.*", "*!*@*", fmt("~u%d!*@*", t), fmt("~*!user%d@*", t), fmt("*!*@acc%d.users.undernet.org", t), fmt("*!*@10.61.%d.*", t), fmt("w%d!*@*", (int)r.below(30))}); if (r.chance(0.35)) m = "-" + m; if (r.chance(0.15)) { m = ""; for (int j = 0; j < 12; j++) m += (j ? "," : "") + fmt("x%d!*@*", (int)r.below(40)); } p.op("sil %d %s", s, m.c_str()); }
    else if (q < 66) p.op("um %d %s", s, caps ? pick(r, {"+x", "+x", "+d", "-d", "+R", "-R"}).c_str() : pick(r, {"+R", "-R", "+c", "-c", "+d", "-d", "+R", "+c", "+x"}).c_str()); else if (q < 71) p.op("away %d %s", s, r.chance(0.65) ? fmt("gone %d", i).c_str() : ""); else if (q < 74) p.op("inv %d %d %s", s, t, ch().c_str());
    else if (q < 80) p.op("join %d %s", s, ch().c_str()); else if (q < 83) p.op("part %d %s", s, ch().c_str()); else if (q < 88) p.op("cm %d %s %s %d", s, ch().c_str(), pick(r, {"+v", "+o", "-v", "+D", "-D", "+n", "-n"}).c_str(), t);
    else if (q < 91) p.op("acct %d", s); else if (q < 92) { if (r.chance(0.4)) p.op("oper %d", s); } else if (q < 93) p.op("nick %d n%d", s, (int)r.below(6)); else if (q < 95) { p.op("gone %d %s", s, pick(r, {"q", "r", "f"}).c_str()); if (r.chance(0.3)) p.op("idle 40"); conn(s); p.op("join %d %s", s, ch().c_str()); } else if (q < 97) p.op("idle %d", (int)(1 + r.below(100))); else if (caps) p.op("race %d %d %s %s", s, t, ch().c_str(), pick(r, {"server-time", "message-tags", "account-tag", "server-time account-tag"}).c_str());
  }
}
void gen17(Plan& p, Rng& r) { genR(p, r, true); } void gen18(Plan& p, Rng& r) { genR(p, r, false); }
void runR(const Plan& p) { Relay b(p); b.run(); }
RegProp reg17({"C17", "Negotiated extensions", "Plans: clients negotiate, change and list capabilities before and after registering, then message each other and channels with and without tags, set away, log in, hide, invite, join, quit and idle, on one or two servers; every line every client gets must have the form in force at that point of its stream, and every step's deliveries and notifications equal the predicted ones.", "delays, segmentation, short and refused writes, abrupt disconnects", gen17, runR, 1, "", {}});
RegProp reg18({"C18", "Message filters", "Plans: clients on 1-3 servers set and clear silences, user modes +R +c +d and away, accounts, channel membership and send every kind of message to users and channels; after each step every client's new lines must be exactly those the filters allow.", "delays, segmentation, short and refused writes, abrupt disconnects", gen18, runR, 1, "", {}});
}
