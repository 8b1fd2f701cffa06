// C20: clients that send anything at all.
#include "chaos.h"
#include "util.h"

namespace {
string esc(const string& s) { string o; for (unsigned char c : s) { if (c == '\\' || c < 0x20 || c >= 0x7f) o += fmt("\\x%02x", c); else o += c; } return o; }
string unesc(const string& s) { string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\\' && i + 3 < s.size() && s[i + 1] == 'x') { o += (char)strtol(s.substr(i + 2, 2).c_str(), 0, 16); i += 3; } else o += s[i]; return o; }
const char* CMDS[] = {"PRIVMSG", "WHO", "WHOIS", "WHOWAS", "USER", "NICK", "SERVER", "LIST", "TOPIC", "INVITE", "VERSION", "QUIT", "SQUIT", "KILL", "INFO", "LINKS", "STATS", "HELP", "ERROR", "AWAY", "CONNECT", "MAP", "PING", "PONG", "OPER", "PASS", "WALLOPS", "WALLUSERS", "DESYNCH", "TIME", "SETTIME", "RPING", "RPONG", "NAMES", "ADMIN", "TRACE", "NOTICE", "TAGMSG", "WALLCHOPS", "WALLVOICES", "CPRIVMSG", "CNOTICE", "JOIN", "PART", "LUSERS", "MOTD", "MODE", "KICK", "USERHOST", "USERIP", "ISON", "REHASH", "RESTART", "CLOSE", "DIE", "HASH", "DNS", "SILENCE", "GLINE", "SLINE", "BURST", "UPING", "CREATE", "DESTRUCT", "END_OF_BURST", "EOB_ACK", "PROTO", "JUPE", "OPMODE", "CLEARMODE", "ACCOUNT", "ASLL", "POST", "SET", "RESET", "GET", "PRIVS", "WEBIRC", "CAP", "XQUERY", "XREPLY", "CHGHOST", "AUTHENTICATE", "CONFIG", "INVITE", "MODE", "MODE", "MODE", "MODE", "JOIN", "JOIN", "WHO", "WHO", "LIST", "PRIVMSG", "CAP", "KICK", "NICK", "SILENCE", "TOPIC", "WHOIS", "NAMES", "TAGMSG", "AUTHENTICATE"};
string word(Rng& r, int nh, int depth = 0) {
  switch (r.below(34)) {
    case 0: case 1: case 2: return fmt("h%d", (int)r.below(nh));
    case 3: return "wit0"; case 4: return "wit1"; case 5: case 6: case 7: return r.pick(vector<string>{"#a", "#b", "#c", "#witness", "&loc", "#A", "0", "#", "+x", "#a,#b,#c", "#a,#a,0,#b", "!x", "#\x02x\x03"});
    case 8: return r.pick(vector<string>{"*", "**", "?", "*!*@*", "h*!*@10.*", "*@10.20.0.0/16", "$*", "$*.net", "*.sim.net", "s0.sim.net", "s1.sim.net", "nosuch.net", "@#a", "+#a", "@+#a", "h0@s0.sim.net", "%", "wit0%u@s0.sim.net"});
    case 9: return std::to_string((int64_t)r.below(3000) - 100); case 10: return r.pick(vector<string>{"0", "-1", "4294967296", "2147483648", "99999999999999999999", "1", "00000", "0x10", "1e9"});
    case 11: case 12: case 13: return r.pick(vector<string>{"+o", "-o", "+ovb", "+b", "-b", "b", "+k", "-k", "+l", "+A", "+U", "-A", "+ooooooo", "+imnpstrDdRcCuMZ", "-imnpstrDdRcCuMZ", "+D-D", "+bbbbbbb", "+d", "+x", "+g", "+s", "-s", "+iwsgdkx", "+R", "+z", "+oHk"});
    case 14: return string(1 + r.below(60), 'A' + r.below(26)); case 15: return string(r.below(600), "x*?\\,:!@#"[r.below(9)]);
    case 16: { string s; int n = r.below(40); for (int i = 0; i < n; i++) { char c = 1 + r.below(255); if (c != '\n' && c != '\r' && c != ' ') s += c; } return s; }
    case 17: { if (depth) return "x"; string s; int n = 2 + r.below(80); for (int i = 0; i < n; i++) s += (i ? "," : "") + word(r, nh, 1); return s.substr(0, 480); }
    case 18: return ":"; case 19: return r.pick(vector<string>{"LS", "REQ", "END", "LIST", "CLEAR", "ACK", "302"});
    case 20: return r.pick(vector<string>{":-away-notify", ":message-tags server-time echo-message", "account-tag", ":extended-join =x ~y -z", "labeled-response", ":" + string(500, 'c'), "sasl"});
    case 21: return r.pick(vector<string>{"c", "u", "m", "l", "E", "f", "g", "G", "k", "t", "z", "o", "P", "v", "x", "classes", "ports", "memory", "*"});
    case 22: return r.pick(vector<string>{"%tcuihsnfdlaro,1", "%n", "n%cthar", "x%", "ox", "%,", "d%" + string(100, 'n')}); 
    case 23: return r.pick(vector<string>{"<100", ">1", "C<10", "T>5", "C>-1", "STOP", "<", "M #*", "R", "S", "S,R", "!M"});
    case 24: return r.pick(vector<string>{"ABAAA", "ABAAB", "ACAAA", "AB", "[]", "]]]]]", "A"}); case 25: return r.pick(vector<string>{"PLAIN", "+", "*", "AAAA", string(400, 'A'), string(401, 'A'), "EXTERNAL"});
    case 26: return ":" + string(r.below(510), 'y'); case 27: return string(1, "+-=,:;@!#$%^&*()"[r.below(16)]);
    case 28: return "-" + fmt("h%d!*@*", (int)r.below(nh)); case 29: return "~" + string("*!*@*");
    default: return fmt("w%d", (int)r.below(100));
  }
}
string lineOf(Rng& r, int nh) {
  string o;
  if (r.chance(0.08)) o += r.pick(vector<string>{"@a=b ", "@", "@+x=\\s\\:;y;z= ", "@" + string(4000, 't') + " ", "@" + string(9000, 't') + " ", "@;;;; ", "@time=x;account=y "});
  if (r.chance(0.06)) o += ":" + word(r, nh) + " ";
  if (r.chance(0.04)) { int n = r.below(700); for (int i = 0; i < n; i++) o += (char)r.below(256); return o; }
  string c = CMDS[r.below(sizeof CMDS / sizeof *CMDS)]; if (r.chance(0.03)) c = lower(c); if (r.chance(0.02)) c += word(r, nh); o += c;
  int n = r.chance(0.03) ? 30 : r.below(5); if (c == "MODE" && n < 2) n = 2;
  for (int i = 0; i < n; i++) { if (r.chance(0.02)) o += " "; o += " " + ((c == "JOIN" || c == "PART" || c == "MODE" || c == "TOPIC" || c == "KICK" || c == "NAMES" || c == "INVITE") && i == (c == "INVITE") && r.chance(0.8) ? r.pick(vector<string>{"#a", "#b", "#c", "&loc"}) : word(r, nh)); }
  if (r.chance(0.15)) o += " :" + string("some text, with * and ") + word(r, nh);
  return o;
}
struct Run20 {
  const Plan& p; World& w; map<int, Client*> h; vector<Client*> wit; Peer* obs = nullptr; int wn = 0; set<string> servers;
  explicit Run20(const Plan& p) : p(p), w(*W) {}
  static bool okNick(const string& n) { if (n.empty() || n.size() > 15) return false; if (isdigit(n[0]) || n[0] == '-') return false; for (unsigned char c : n) if (!isalnum(c) && !strchr("-[]\\`_^{|}", c)) return false; return true; }
  void hygiene(Client& c, Msg& m) {
    string raw = m.raw; size_t body = raw.size(), o = 0;
    if (raw.size() && raw[0] == '@') { o = raw.find(' '); if (o == string::npos) w.fail("out:format", c.who() + " received a line that is only tags: " + raw); body = raw.size() - o - 1; }
    if (c.transport == 1) for (size_t q = o; (q = raw.find("\xef\xbf\xbd", q)) != string::npos; q += 3) body -= 2;  // a text WebSocket frame replaces what is not UTF-8
    if (body > 510) w.fail("out:length", c.who() + fmt(" received a line of %zu bytes: ", body) + raw.substr(0, 120));
    for (unsigned char ch : raw) if (ch == 0 || ch == '\r' || ch == '\n') w.fail("out:format", c.who() + fmt(" received byte %d inside a line: ", ch) + esc(raw.substr(0, 200)));
    if (m.cmd.empty()) w.fail("out:format", c.who() + " received a line without a command: " + esc(raw));
    for (unsigned char ch : m.cmd) if (!isalnum(ch)) w.fail("out:format", c.who() + " received a malformed command: " + esc(raw));
    if (m.prefix.size()) {
      size_t x = m.prefix.find('!');
      if (x == string::npos) { if (m.prefix != "*.undernet.org" && !servers.count(m.prefix) && !okNick(m.prefix)) w.fail("out:source", c.who() + " received a line from an impossible source: " + esc(raw)); }
      else { size_t at = m.prefix.find('@', x); if (at == string::npos || !okNick(m.prefix.substr(0, x))) w.fail("out:source", c.who() + " received a line from an impossible source: " + esc(raw)); }
    }
    coverTransition("rx " + m.cmd);
  }
  void run() {
    int n = p.num("n", 1); for (int i = 0; i < n; i++) { w.addServer("", i ? vector<int>{i - 1} : vector<int>{}); w.srv[i].tls = true; servers.insert(w.srv[i].name); }
    if (p.num("caps")) { w.features["CAP_sasl"] = ""; }
    w.start();
    obs = w.peer(0, 0); obs->connect(); if (!w.until([&] { return obs->linked(); }, 60 * SEC)) w.fail("harness:obs", obs->reason);
    servers.insert(obs->name); obs->onMsg = [this](Peer&, Msg& m, const string& l) { if (l.size() > 8192 + 512) w.fail("out:length", "a server link got an overlong line"); (void)m; };
    for (int i = 0; i < 2; i++) { Client* c = w.mk(i % n, fmt("wit%d", i), 6668); c->checkView = true; c->onMsg = [this](Client& c, Msg& m) { hygiene(c, m); }; c->connect(); wit.push_back(c); }
    if (!w.waitReg()) w.fail("harness:reg", "witness"); w.settle();
    wit[0]->send("JOIN #witness"); w.settle(); wit[1]->send("JOIN #witness"); w.settle(); wit[0]->send("MODE #witness +nt"); w.settle();
    int k = 0;
    for (auto& op : p.ops) {
      auto a = words(op); if (a.empty()) continue; w.s.mix(hashstr(op)); size_t sp = op.find(' '); size_t sp2 = sp == string::npos ? sp : op.find(' ', sp + 1);
      if (a[0] == "wait") { w.s.runFor(atoi(a[1].c_str()) * MS); continue; }
      int s = a.size() > 1 ? atoi(a[1].c_str()) : 0;
      if (a[0] == "cl") { if (h.count(s) && !h[s]->dead) continue; Client* c = w.mk(atoi(a[2].c_str()) % n, fmt("h%d", s), atoi(a[3].c_str())); c->mayDie = true; c->autoReg = a.size() < 5; if (c->port == 4400) c->autoReg = false;
        c->caps = p.num("tags") ? set<string>{"message-tags", "server-time", "account-tag", "echo-message"} : set<string>{}; c->onMsg = [this](Client& c, Msg& m) { hygiene(c, m); }; h[s] = c; c->connect(); continue; }
      if (!h.count(s)) continue; Client* c = h[s]; string rest = sp2 == string::npos ? "" : unesc(op.substr(sp2 + 1));
      if (c->dead) continue;
      if (a[0] == "h") { c->send(rest); }
      else if (a[0] == "raw") c->raw(rest);
      else if (a[0] == "app") c->app(rest);
      else if (a[0] == "drop") c->die("dropped", true);
      else if (a[0] == "stall") c->stalled = true;
      else if (a[0] == "go") { c->stalled = false; c->event(); }
      if (++k % 40 == 0) exchange();
    }
    for (auto& x : h) if (x.second->stalled) { x.second->stalled = false; if (x.second->sock && !x.second->dead) x.second->event(); }
    exchange();
    for (auto& u : obs->view.users) {
      auto& v = u.second; if (v.server == obs->num) continue;
      if (!okNick(v.nick)) w.fail("state:nick", "a user has an impossible nick: " + esc(v.nick));
      for (char x : v.modes) if (strchr("ok", x)) w.fail("state:priv", v.nick + " has user mode +" + x);
      if (v.account.size()) w.fail("state:priv", v.nick + " has an account");
      if (v.user.size() > 12 || v.user.find_first_of(" @!\r\n") != string::npos) w.fail("state:user", "impossible user name: " + esc(v.user));
      if (v.real.size() > 50) w.fail("state:real", "overlong real name: " + esc(v.real));
    }
    if (obs->dead) w.fail("service:link", "the link to another server was lost: " + obs->reason);
    for (int i = 1; i < n; i++) if (!w.isLinked(i, i - 1)) w.fail("service:link", "a server link was lost");
    for (auto& a : obs->view.anomalies) w.fail("state:burst", "a linked server was told nonsense: " + esc(a));
    auto d = w.dumpAll("hostile");
    for (auto& x : d) for (auto& ch : x.second.chans) { auto& v = ch.second; v.ts = 0; v.apass.clear(); v.upass.clear(); 
      if (v.name.size() > 200 || v.name.find_first_of(" ,\7") != string::npos) w.fail("state:chan", "impossible channel name: " + esc(v.name));
      if (v.topic.size() > 160 * 4) w.fail("state:topic", "overlong topic"); }
    for (auto& x : h) if (!x.second->autoReg && x.second->ok()) { auto& v = d.begin()->second; string num = v.byNick(x.second->nick); if (num.size()) x.second->user = v.users[num].user; }
    if (n == 1) checkTruth(w, d, "truth");
    Client* z = w.mk(0, "later", 6667, "10.20.99.1"); z->connect(); if (!w.until([&] { return z->registered || z->dead; }, 120 * SEC) || z->dead) w.fail("service:new", "a new client cannot register: " + z->reason);
  }
  void exchange() {
    int id = ++wn; string t = fmt("still here %d", id); size_t m1 = wit[1]->log.size(), m0 = wit[0]->log.size();
    for (auto c : wit) if (!c->ok()) w.fail("service:witness", c->who() + " was disconnected: " + c->reason);
    wit[0]->send("PRIVMSG #witness :" + t); wit[1]->send("PRIVMSG wit0 :" + t);
    bool ok = w.until([&] { bool a = false, b = false; for (auto& m : wit[1]->since(m1, "PRIVMSG")) if (m.last() == t && m.nick() == "wit0") a = true; for (auto& m : wit[0]->since(m0, "PRIVMSG")) if (m.last() == t && m.nick() == "wit1") b = true; return a && b; }, 300 * SEC);
    if (!ok) w.fail("service:witness", "messages between two uninvolved users no longer arrive" + string(wit[0]->ok() && wit[1]->ok() ? "" : ": " + wit[0]->reason + wit[1]->reason));
    auto& v = wit[0]->chans["#witness"]; if (!v.members.count("wit1") || !v.members.count("wit0") || !v.members["wit0"].op || !v.modes.count('n')) w.fail("service:witness", "an uninvolved user's channel changed");
  }
};
void gen20(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2); p.set("n", 1 + r.below(2)); p.set("tags", r.chance(0.4));
  int nh = 2 + r.below(4); for (int i = 0; i < nh; i++) p.op("cl %d %d %d%s", i, (int)r.below(2), vector<int>{6668, 6668, 6668, 6667, 7002, 6697, 4400}[r.below(i ? 7 : 1)], r.chance(0.12) ? " raw" : "");
  p.op("wait 8000"); int n = 20 + r.below(150); double throttle = r.chance(0.5) ? 0.15 : 0.02;
  for (int i = 0; i < nh; i++) for (auto c : {"#a", "#b"}) if (r.chance(0.7)) p.op("h %d JOIN %s", i, c);
  for (int i = 0; i < n; i++) {
    int s = r.below(nh);
    if (r.chance(0.02)) { string b; int k = r.below(3000); for (int j = 0; j < k; j++) b += r.chance(0.05) ? (char)"\r\n\0\x81\xfe"[r.below(5)] : (char)r.below(256); p.op("%s %d %s", r.chance(0.5) ? "raw" : "app", s, esc(b).c_str()); continue; }
    if (r.chance(0.02)) { p.op("drop %d", s); }
    if (r.chance(0.01)) p.op("stall %d", s); if (r.chance(0.03)) p.op("go %d", s);
    if (r.chance(0.06)) { p.op("cl %d %d %d%s", s, (int)r.below(2), vector<int>{6668, 6668, 6667, 7002, 6697, 4400, 7000}[r.below(7)], r.chance(0.3) ? " raw" : ""); p.op("wait 3000"); }
    string l = lineOf(r, nh); 
    if (r.chance(0.05)) { string l2 = lineOf(r, nh); p.op("app %d %s", s, esc(l + r.pick(vector<string>{"\r", "\n", "\r\n\r\n", "\n\r", ""}) + l2 + "\n").c_str()); } else p.op("h %d %s", s, esc(l).c_str());
    if (r.chance(throttle)) p.op("wait %d", vector<int>{10, 1000, 5000, 60000}[r.below(4)]);
  }
  p.op("wait 2000");
}
void run20(const Plan& p) { Run20 r(p); r.run(); }
RegProp reg20({"C20", "Hostile clients", "Plans: 2-5 clients of every transport send 20-170 lines: every command with arguments from adversarial pools, raw bytes, odd line ends, in any state of registration; stalls, resets, reconnects.", "segmentation, delays, short reads and writes, stalls, resets", gen20, run20, 1, "", {}});
}
