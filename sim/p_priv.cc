// C15: what queries show (NAMES, LIST, WHO, WHOIS, TOPIC, MODE, USERHOST, USERIP, ISON, LUSERS, WHOWAS) against who asks.
#include "chaos.h"
#include "util.h"
namespace {
struct Priv {
  struct U { string nick, user, host, ip, real, acct, awayMsg; bool away = false, inv = false, deaf = false, oper = false, tls = false, hid = false, hideidle = false; int srv = 0, slot = -1; string vis() const { return hid ? acct + ".users.undernet.org" : host; } };
  struct H { string nick, user, host, real, away, server, realhost; };
  struct Sl { Client* c = nullptr; int srv = 0; string ip, acct; bool x = false, away = false; string awayMsg; };
  const Plan& p; World& w; int n; Peer* svc = nullptr; map<int, Sl> sl; std::deque<H> hist; size_t histMax; map<string, U> us; map<string, ChanView> ch; map<string, string> nickOf; bool stale = true; set<std::pair<int, string>> delayed; int seq = 0, bars = 0; bool hisWho, hisHops, hisWhois, hisIdle;
  explicit Priv(const Plan& p) : p(p), w(*W), n(p.num("n", 1)) { histMax = p.num("hist", 800); hisWho = !p.num("nohiswho"); hisHops = !p.num("nohishops"); hisWhois = !p.num("nohiswhois"); hisIdle = !p.num("nohisidle"); }
  void rest() { w.settle(); }
  Client* c(int s) { return sl[s].c; }
  int slotOf(Client* x) { for (auto& s : sl) if (s.second.c == x) return s.first; return -1; }
  void refresh() {
    if (!stale) return; stale = false; auto d = w.dumpAll("privacy"); rest(); checkConverged(w, d, "diverged"); us.clear(); ch.clear(); auto& v = d[0]; map<string, string> names;
    for (auto& x : v.users) { auto& o = x.second; U u; u.nick = o.nick; u.user = o.user; u.host = o.host; u.ip = o.ip; u.real = o.real; u.acct = o.account; u.inv = o.modes.count('i'); u.deaf = o.modes.count('d'); u.oper = o.modes.count('o'); u.tls = o.modes.count('z'); u.hid = o.modes.count('x') && u.acct.size(); u.hideidle = o.modes.count('I');
      u.srv = -1; for (int i = 0; i < n; i++) if (v.servers[o.server].name == w.name(i)) u.srv = i; for (auto& s : sl) if (s.second.c && lower(s.second.c->nick) == lower(o.nick)) { u.slot = s.first; u.ip = s.second.ip; u.away = s.second.away; u.awayMsg = s.second.awayMsg; u.host = s.second.ip; u.tls = s.second.c->transport == 2; }
      names[x.first] = lower(o.nick); us[lower(o.nick)] = u; }
    for (auto& x : v.chans) { ChanView cv = x.second; map<string, Member> m; for (auto& y : cv.members) m[names[y.first]] = y.second; cv.members = m; ch[x.first] = cv; }
    for (auto& s : sl) if (s.second.c) { if (!us.count(lower(s.second.c->nick))) w.fail("truth", s.second.c->who() + " is connected but unknown"); auto& u = us[lower(s.second.c->nick)]; if (u.hid != (s.second.x && s.second.acct.size())) w.fail("host:state", s.second.c->who() + (u.hid ? " is" : " is not") + " hidden on the network"); }
  }
  bool pub(const ChanView& k) { return !k.modes.count('s') && !k.modes.count('p'); }
  bool on(const U& u, const ChanView& k) { return k.members.count(lower(u.nick)); }
  bool dl(const U& u, const ChanView& k) { return delayed.count({u.slot, lower(k.name)}); }
  vector<Msg> ask(Client* a, const string& line, bool remote = false) {
    size_t m = a->log.size(); string tok = fmt("q%d", ++seq); a->send(line); a->send("PING :" + tok); size_t at = 0;
    w.until([&] { for (size_t i = m; i < a->log.size(); i++) if (a->log[i].cmd == "PONG" && a->log[i].last() == tok) { at = i; return true; } return a->dead; }, 120 * SEC);
    if (a->dead) w.fail("query:lost", a->who() + " was lost after " + line + ": " + a->reason); if (!at) w.fail("liveness:query", a->who() + " gets no answer to " + line);
    if (remote) { rest(); at = a->log.size(); }
    bars++; return vector<Msg>(a->log.begin() + m, a->log.begin() + at);
  }
  void cmp(Client* a, const string& line, multiset<string> want, multiset<string> got, const char* cls) {
    if (want == got) { coverTransition(string(cls) + (want.empty() ? "0" : "+")); return; } string x, y;
    for (auto& s : want) { auto i = got.find(s); if (i == got.end()) x += " [" + s + "]"; else got.erase(i); } for (auto& s : got) y += " [" + s + "]";
    w.fail(cls, a->who() + " asked " + line + (x.size() ? ", not told:" + x : "") + (y.size() ? ", told:" + y : ""));
  }
  // --- NAMES
  string entry(const U& u, const Member& m, Client* a) { string s = m.op ? "@" : m.voice ? "+" : ""; s += u.nick; if (a->capsAck.count("userhost-in-names")) s += "!" + u.user + "@" + u.vis(); return s; }
  void names(int s, const string& arg, bool d) {
    Client* a = c(s); U& me = us[lower(a->nick)]; multiset<string> want, got; string line = string("NAMES ") + (d ? "-D " : "") + arg; auto r = ask(a, line); int ends = 0;
    auto chan = [&](ChanView& k) { bool member = on(me, k); if (!pub(k) && !member) return; string sym = pub(k) ? "=" : k.modes.count('s') ? "@" : "*";
      for (auto& x : k.members) { U& u = us[x.first]; bool self = &u == &me; if (!member && u.inv) continue; bool del = dl(u, k) && !self; if (del != d) continue; want.insert(sym + " " + k.name + " " + entry(u, x.second, a)); } };
    if (arg == "0") { for (auto& k : ch) chan(k.second);
      for (auto& x : us) { U& u = x.second; if (&u != &me && u.inv) continue; bool shown = false; for (auto& k : ch) if (on(u, k.second) && (pub(k.second) || on(me, k.second))) shown = true; if (!shown) want.insert("* * " + u.nick); } }
    else if (ch.count(lower(arg))) chan(ch[lower(arg)]);
    for (auto& m : r) if (m.cmd == "353" || m.cmd == "355") { if ((m.cmd == "355") != d && m.arg(2) != "*") w.fail("names:reply", a->who() + " asked " + line + " and got " + m.raw); for (auto& x : words(m.last())) got.insert(m.arg(1) + " " + m.arg(2) + " " + x); } else if (m.cmd == "366") ends++;
    cmp(a, line, want, got, "names"); if (arg == "0" && ends != 1) w.fail("names:end", "NAMES 0 ended " + std::to_string(ends) + " times");
  }
  // --- LIST
  void list(int s, const string& arg) {
    Client* a = c(s); U& me = us[lower(a->nick)]; multiset<string> want, got; string line = "LIST" + (arg.empty() ? "" : " " + arg); auto r = ask(a, line); int ends = 0, starts = 0; bool named = arg.size() && arg.find_first_of("*?<>") == string::npos && arg[0] == '#';
    int mn = 0, mx = 1 << 30; string wild; bool neg = false, secret = false; if (!named) for (auto& t : splitBy(arg, ',')) { if (t.empty()) continue; if (t[0] == '>') mn = atoi(t.c_str() + 1); else if (t[0] == '<') mx = atoi(t.c_str() + 1); else if (t == "S") secret = true; else { neg = t[0] == '!'; wild = neg ? t.substr(1) : t; } }
    if (secret && !a->oper) { for (auto& m : r) if (m.cmd == "322") w.fail("list", a->who() + " is shown secret channels: " + m.raw); return; }
    bool sane = mx > mn + 1;
    for (auto& k : ch) { auto& x = k.second; if (named) { for (auto& t : splitBy(arg, ',')) if (lower(t) == k.first && (pub(x) || on(me, x) || a->oper)) want.insert(x.name + fmt(" %d ", (int)x.members.size()) + x.topic); continue; } else { int m = x.members.size(); if (!sane || !(m > mn && m < mx) || (wild.size() && globm(wild, x.name) == neg) || (!pub(x) && !on(me, x) && !secret)) continue; }
      want.insert(x.name + fmt(" %d ", (int)x.members.size()) + x.topic); }
    for (auto& m : r) if (m.cmd == "322") got.insert(m.arg(1) + " " + m.arg(2) + " " + m.last()); else if (m.cmd == "323") ends++; else if (m.cmd == "321") starts++;
    if (starts != 1 || ends != 1) w.fail("list:frame", a->who() + " got " + fmt("%d starts and %d ends of %s", starts, ends, line.c_str())); cmp(a, line, want, got, "list");
  }
  // --- WHO
  vector<string> who1(Client* a, U& me, U& u, const ChanView* k, const Member* m, const string& f, const string& qt) {
    vector<string> o; bool all = f.empty(); auto has = [&](char x) { return f.find(x) != string::npos; }; bool op = a->oper;
    if (has('t')) o.push_back(qt.empty() ? "0" : qt); if (all || has('c')) o.push_back(k ? k->name : "*"); if (all || has('u')) o.push_back(u.user); if (has('i')) o.push_back(u.hid && !op ? "127.0.0.1" : u.ip); if (all || has('h')) o.push_back(u.vis());
    if (all || has('s')) o.push_back(hisWho && !op ? "*.undernet.org" : w.name(u.srv)); if (all || has('n')) o.push_back(u.nick);
    if (all || has('f')) { string s = u.away ? "G" : "H"; if (u.oper) s += "*"; bool dj = k && dl(u, *k); if (m) { if (!all) { if (m->op) s += "@"; if (m->voice) s += "+"; if (dj) s += "<"; } else s += m->op ? "@" : m->voice ? "+" : dj ? "<" : ""; } if (u.deaf) s += "d"; if (op) { if (u.inv) s += "i"; if (u.slot >= 0 && c(u.slot)->umodes.find('w') != string::npos) s += "w"; if (u.slot >= 0 && c(u.slot)->umodes.find('g') != string::npos) s += "g"; } if (u.hid) s += "x"; if (u.tls) s += "z"; o.push_back(s); }
    if (all || has('d')) o.push_back(hisHops && !op ? (&u == &me ? "0" : "3") : std::to_string(abs(u.srv - me.srv))); if (has('l')) o.push_back(u.srv == me.srv && (op || !hisWho || &u == &me) && (!u.hideidle || &u == &me || op) ? "#" : "0"); if (has('a')) o.push_back(u.acct.empty() ? "0" : u.acct);
    if (has('o')) o.push_back(m && m->op ? "999" : "n/a"); return o;
  }
  static bool hitIp(const string& m, const string& ip) { auto sl = m.find('/'); if (sl == string::npos) return globm(m, ip); unsigned x[4], y[4]; sscanf(m.c_str(), "%u.%u.%u.%u", x, x + 1, x + 2, x + 3); sscanf(ip.c_str(), "%u.%u.%u.%u", y, y + 1, y + 2, y + 3); int b = atoi(m.c_str() + sl + 1); uint32_t A = x[0] << 24 | x[1] << 16 | x[2] << 8 | x[3], B = y[0] << 24 | y[1] << 16 | y[2] << 8 | y[3]; return b == 0 || (A >> (32 - b)) == (B >> (32 - b)); }
  static bool ipMask(const string& m) { return m.size() && m.find_first_not_of("0123456789.*/") == string::npos && isdigit(m[0]); }
  void who(int s, const string& mask0, const string& flags, const string& f0, const string& qt) {
    Client* a = c(s); U& me = us[lower(a->nick)]; bool op = a->oper; string mask = mask0 == "0" || mask0 == "*" ? "" : mask0; string f = f0; bool spc = f.size(); if (spc && f.find('n') == string::npos) f += 'n';
    string line = "WHO " + mask0; if (flags.size() || spc) line += " " + flags + (spc ? "%" + f + (f.find('t') != string::npos && qt.size() ? "," + qt : "") : "");
    bool oo = flags.find('o') != string::npos, xx = flags.find('x') != string::npos && op, dd = flags.find('d') != string::npos; string sel; for (char x : flags) if (strchr("nuhsira", x)) sel += x; if (sel.empty()) sel = "nuhs"; if (hisWho && !op) sel.erase(std::remove(sel.begin(), sel.end(), 's'), sel.end());
    struct E { U* u; vector<std::pair<const ChanView*, const Member*>> k; }; map<string, E> want;
    auto isop = [&](U& u) { return u.oper; }; auto see = [&](U& u) { return &u == &me || !u.inv || xx; };
    auto publics = [&](U& u) { E e{&u, {}}; if (!spc || f.find_first_of("cf") != string::npos) for (auto& k : ch) if (pub(k.second) && on(u, k.second)) e.k.push_back({&k.second, &k.second.members[lower(u.nick)]}); if (e.k.empty()) e.k.push_back({nullptr, nullptr}); return e; };
    bool commas = mask.find(',') != string::npos;
    if (mask.size() && (commas || sel.find('n') != string::npos)) for (auto& t : splitBy(mask, ',')) {
      if (t.empty()) continue; if (t[0] == '#' && ch.count(lower(t))) { auto& k = ch[lower(t)]; bool there = on(me, k); if (there || !k.modes.count('s') || xx) for (auto& m : k.members) { U& u = us[m.first]; if (oo && !isop(u)) continue; if (&u != &me && dl(u, k) && !dd) continue; if (!there && !see(u)) continue; if (!want.count(m.first)) want[m.first] = E{&u, {{&k, &m.second}}}; } }
      else if (us.count(lower(t))) { U& u = us[lower(t)]; if (oo && !isop(u)) continue; if (!want.count(lower(t))) want[lower(t)] = publics(u); } }
    if (!commas) {
      auto hit = [&](U& u) { if (mask.empty()) return true; bool r = false; auto h = [&](char x) { return sel.find(x) != string::npos; }; if (h('n')) r |= globm(mask, u.nick); if (h('u')) r |= globm(mask, u.user); if (h('h')) r |= globm(mask, u.vis()) || (u.hid && op && globm(mask, u.host)); if (h('s')) r |= globm(mask, w.name(u.srv)); if (h('r')) r |= globm(mask, u.real); if (h('i') && ipMask(mask)) r |= (!u.hid || op) && hitIp(mask, u.ip); if (h('a')) r |= globm(mask, u.acct); return r; };
      bool any = sel != "i" || mask.empty() || ipMask(mask); if (sel.empty()) any = false;
      if (any) for (auto& x : us) { U& u = x.second; if (want.count(x.first)) continue; vector<std::pair<const ChanView*, const Member*>> com; for (auto& k : ch) if (on(me, k.second) && on(u, k.second)) com.push_back({&k.second, &k.second.members[x.first]});
        if (oo && !isop(u)) continue; if (!hit(u)) continue; if (com.size()) want[x.first] = E{&u, com}; else if (see(u)) want[x.first] = publics(u); }
    }
    auto r = ask(a, line); int ends = 0; set<string> got; string cmd = spc ? "354" : "352"; size_t ni = 0; { U t; t.nick = "\001"; t.srv = 0; auto o = who1(a, me, t, nullptr, nullptr, spc ? f : "", qt); for (size_t i = 0; i < o.size(); i++) if (o[i] == "\001") ni = i; }
    for (auto& m : r) {
      if (m.cmd == "315") ends++; if (m.cmd == "352" || m.cmd == "354") {
        if (m.cmd != cmd) w.fail("who:reply", line + " answered with " + m.raw); vector<string> v(m.p.begin() + 1, m.p.end()); string real; bool hasReal = !spc || f.find('r') != string::npos; if (hasReal) { real = v.back(); v.pop_back(); if (!spc) { auto sp = real.find(' '); v.push_back(real.substr(0, sp)); real = real.substr(sp + 1); } }
        if (ni >= v.size()) w.fail("who:reply", line + " answered with " + m.raw); string nk = lower(v[ni]); if (!want.count(nk)) w.fail("who:leak", a->who() + " asked " + line + " and must not be shown " + m.raw); if (!got.insert(nk).second) w.fail("who:dup", a->who() + " is shown " + v[ni] + " twice by " + line);
        auto& e = want[nk]; bool ok = false; string ex; for (auto& k : e.k) { auto o = who1(a, me, *e.u, k.first, k.second, spc ? f : "", qt); bool same = o.size() == v.size(); for (size_t i = 0; same && i < o.size(); i++) if (o[i] != v[i] && !(o[i] == "#" && v[i].find_first_not_of("0123456789") == string::npos)) same = false; ok |= same; ex = ::join(o); if (spc && f.find_first_of("cfo") == string::npos) break; }
        if (!ok) w.fail("who:fields", a->who() + " asked " + line + " and got " + m.raw + ", expected " + (e.k.size() > 1 ? "e.g. " : "") + ex); if (hasReal && real != e.u->real) w.fail("who:fields", line + " shows a wrong real name: " + m.raw);
      } }
    for (auto& x : want) if (!got.count(x.first)) w.fail("who:missing", a->who() + " asked " + line + " and is not shown " + x.second.u->nick); if (ends != 1) w.fail("who:end", line + " ended " + std::to_string(ends) + " times"); coverTransition("who" + flags + (op ? "o" : "") + (want.empty() ? "0" : "+"));
  }
  // --- WHOIS
  void whoisLines(Client* a, U& me, U& u, int parc, multiset<string>& want) {
    bool op = a->oper, self = &u == &me; want.insert("311 " + u.nick + " " + u.user + " " + u.vis() + " " + u.real); 
    for (auto& k : ch) { auto& x = k.second; if (!on(u, x) || (!pub(x) && !on(me, x))) continue; auto& m = x.members[lower(u.nick)]; want.insert("319 " + u.nick + " " + (u.deaf ? "-" : "") + (dl(u, x) && !self ? "<" : m.op ? "@" : m.voice ? "+" : "") + x.name); }
    want.insert("312 " + u.nick + " " + (hisWhois && !op && !self ? "*.undernet.org" : w.name(u.srv))); if (u.away) want.insert("301 " + u.nick + " " + u.awayMsg); if (u.tls) want.insert("671 " + u.nick); if (u.oper) want.insert("313 " + u.nick); if (u.acct.size()) want.insert("330 " + u.nick + " " + u.acct);
    if (u.hid && (op || self)) want.insert("338 " + u.nick + " " + u.user + "@" + u.host + " " + u.ip); if (u.srv == me.srv && (!hisIdle || self || op || parc >= 3) && (!u.hideidle || self || op)) want.insert("317 " + u.nick);
  }
  void whois(int s, const string& arg, bool twice) {
    Client* a = c(s); U& me = us[lower(a->nick)]; multiset<string> want, got; string line = "WHOIS " + (twice ? arg + " " + arg : arg); auto r = ask(a, line, twice); int ends = 0;
    if (twice) { if (arg.find_first_of("*?,") != string::npos) return; if (!us.count(lower(arg))) { if (!a->oper) want.insert("401 " + arg); else want.insert("402 " + arg); } else { U& u = us[lower(arg)]; int sv = me.srv; me.srv = u.srv; whoisLines(a, me, u, 3, want); me.srv = sv; } }
    else for (auto& t : splitBy(arg, ',')) { if (t.empty()) continue; bool wild = t.find_first_of("*?") != string::npos; int found = 0;
      if (!wild) { if (us.count(lower(t))) { whoisLines(a, me, us[lower(t)], 2, want); found++; } }
      else for (auto& x : us) { U& u = x.second; if (!globm(t, u.nick)) continue; bool inv = u.inv && &u != &me, none = true, show = false; for (auto& k : ch) if (on(u, k.second)) { none = false; if (!inv && !k.second.modes.count('s')) show = true; if (on(me, k.second)) show = true; } if ((!inv && none) || show) { whoisLines(a, me, u, 2, want); found++; } }
      if (!found) want.insert("401 " + t); }
    for (auto& m : r) { if (m.cmd == "318") { ends++; continue; } if (m.cmd == "311") got.insert("311 " + m.arg(1) + " " + m.arg(2) + " " + m.arg(3) + " " + m.last()); else if (m.cmd == "319") { for (auto& x : words(m.last())) got.insert("319 " + m.arg(1) + " " + x); } else if (m.cmd == "312" || m.cmd == "330" || m.cmd == "301") got.insert(m.cmd + " " + m.arg(1) + " " + m.arg(2)); else if (m.cmd == "671" || m.cmd == "313" || m.cmd == "317" || m.cmd == "401" || m.cmd == "402") got.insert(m.cmd + " " + m.arg(1)); else if (m.cmd == "338") got.insert("338 " + m.arg(1) + " " + m.arg(2) + " " + m.arg(3)); else if (m.cmd[0] == '3') got.insert(m.raw); }
    cmp(a, line, want, got, "whois"); bool absent402 = twice && a->oper && !us.count(lower(arg)); if (ends != (absent402 ? 0 : 1)) w.fail("whois:end", line + " ended " + std::to_string(ends) + " times");
  }
  // --- the rest
  void topic(int s, const string& k0) { Client* a = c(s); U& me = us[lower(a->nick)]; auto r = ask(a, "TOPIC " + k0); multiset<string> want, got; auto i = ch.find(lower(k0));
    if (i == ch.end()) want.insert("403"); else if (i->second.modes.count('s') && !on(me, i->second)) want.insert("442"); else if (i->second.topic.empty()) want.insert("331"); else { want.insert("332 " + i->second.topic); want.insert("333"); }
    for (auto& m : r) got.insert(m.cmd == "332" ? "332 " + m.last() : m.cmd); cmp(a, "TOPIC " + k0, want, got, "topic"); }
  void mode(int s, const string& k0) { Client* a = c(s); U& me = us[lower(a->nick)]; auto r = ask(a, "MODE " + k0); auto i = ch.find(lower(k0)); if (i == ch.end()) { if (r.empty() || r[0].cmd != "403") w.fail("mode:query", "MODE of a channel that is not there answered " + (r.empty() ? "nothing" : r[0].raw)); return; }
    auto& k = i->second; bool op = on(me, k) && k.members[lower(a->nick)].op; bool seen = false;
    for (auto& m : r) if (m.cmd == "324") { seen = true; set<char> ms; size_t ai = 3; for (char x : m.arg(2)) { if (x == '+') continue; ms.insert(x); if (x == 'l') { if (atoi(m.arg(ai++).c_str()) != k.limit) w.fail("mode:query", m.raw); } else if (x == 'k') { string v = m.arg(ai++); if (v != (op ? k.key : "*")) w.fail("mode:key", a->who() + (op ? ", operator," : "") + " is shown the key as " + v + " by " + m.raw); } }
      set<char> want = k.modes; if (want.count('D')) ms.erase('d'); ms.erase('d'); if (k.key.size()) want.insert('k'); if (k.limit) want.insert('l'); if (ms != want) { string q; for (char x : want) q += x; w.fail("mode:query", a->who() + " is shown " + m.raw + " instead of " + q); } }
    if (!seen) w.fail("mode:query", "MODE " + k0 + " is not answered"); }
  void uh(int s, const string& cmd, const vector<string>& nicks) {
    Client* a = c(s); U& me = us[lower(a->nick)]; auto r = ask(a, cmd + " " + (cmd == "ISON" ? ::join(nicks) : ::join(nicks))); multiset<string> want, got;
    for (auto& nk : nicks) { auto u = us.find(lower(nk)); if (u == us.end()) continue; U& x = u->second; if (cmd == "ISON") want.insert(x.nick); else want.insert(x.nick + (x.oper ? "*" : "") + "=" + (x.away ? "-" : "+") + x.user + "@" + (x.hid && &x != &me ? (cmd == "USERHOST" ? x.vis() : "127.0.0.1") : cmd == "USERHOST" ? x.host : x.ip)); }
    for (auto& m : r) if (m.cmd == "302" || m.cmd == "340" || m.cmd == "303") for (auto& x : words(m.last())) got.insert(x); cmp(a, cmd + " " + ::join(nicks), want, got, "userhost");
  }
  void lusers(int s) {
    Client* a = c(s); auto r = ask(a, "LUSERS"); int inv = 0, vis = 0, op = 0, loc = 0; for (auto& x : us) { (x.second.inv ? inv : vis)++; op += x.second.oper; loc += x.second.srv == sl[s].srv; } multiset<string> want, got;
    want.insert(fmt("251 There are %d users and %d invisible on %d servers", vis, inv, n + (svc ? 1 : 0))); if (op) want.insert(fmt("252 %d", op)); if (ch.size()) want.insert(fmt("254 %d", (int)ch.size())); int ls = (svc && sl[s].srv == 0) + (sl[s].srv > 0) + (sl[s].srv + 1 < n); want.insert(fmt("255 I have %d clients and %d servers", loc, ls));
    for (auto& m : r) if (m.cmd == "251" || m.cmd == "255") got.insert(m.cmd + " " + m.last()); else if (m.cmd == "252" || m.cmd == "254" || m.cmd == "253") got.insert(m.cmd + " " + m.arg(1)); cmp(a, "LUSERS", want, got, "lusers");
  }
  void whowas(int s, const string& nick, int max) {
    Client* a = c(s); vector<string> want, got; int k = 0; bool op = a->oper; for (auto& h : hist) if (lower(h.nick) == lower(nick)) { if (max >= 1 && k >= max) break; k++; want.push_back("314 " + h.nick + " " + h.user + " " + h.host + " " + h.real); if (op && h.realhost.size()) want.push_back("338 " + h.user + "@" + h.realhost); want.push_back("312 " + (hisWhois && !op ? "*.undernet.org" : h.server)); if (h.away.size()) want.push_back("301 " + h.away); }
    if (!k) want.push_back("406"); auto r = ask(a, "WHOWAS " + nick + (max ? fmt(" %d", max) : "")); for (auto& m : r) if (m.cmd == "314") got.push_back("314 " + m.arg(1) + " " + m.arg(2) + " " + m.arg(3) + " " + m.last()); else if (m.cmd == "312") got.push_back("312 " + m.arg(2)); else if (m.cmd == "301") got.push_back("301 " + m.last()); else if (m.cmd == "338") got.push_back("338 " + m.arg(2)); else if (m.cmd == "406") got.push_back("406");
    if (want != got) w.fail("whowas", a->who() + " asked WHOWAS " + nick + fmt(" %d", max) + " and got [" + ::join(got, "] [") + "] instead of [" + ::join(want, "] [") + "]"); coverTransition("whowas" + std::to_string(std::min(k, 3)));
  }
  void remember(int s) { auto& k = sl[s]; bool hid = k.x && k.acct.size(); hist.push_front({k.c->nick, k.c->user.substr(0, 10), hid ? k.acct + ".users.undernet.org" : k.ip, k.c->real, k.away ? k.awayMsg : "", w.name(k.srv), hid ? k.ip : ""}); while (hist.size() > histMax) hist.pop_back(); }
  void open(int s, int srv) {
    Sl k; k.srv = srv; k.ip = fmt("10.5%d.%d.%d", s % 4, s, 1 + seq++ % 200); bool tls = (p.num("tls") >> s) & 1; string nick = fmt("u%d%s", s, s % 3 == 0 ? "x" : "");
    Client* x = w.mk(srv, nick, tls ? 6697 : 6668, k.ip); if (tls) x->transport = 2; x->user = fmt("us%d", s); x->real = fmt("Real %s %d", s % 2 ? "odd" : "even", s); if ((p.num("uh") >> s) & 1) x->caps.insert("userhost-in-names"); x->connect(); w.until([&] { return x->ok(); }, 60 * SEC); if (!x->ok()) w.fail("harness:reg", x->reason);
    k.c = x; sl[s] = k; rest(); stale = true;
    // whatever others are sent, a hidden user's address must not be in it
    int slot = s; x->onMsg = [this, slot](Client& me, Msg& m) { if (me.oper) return; for (auto& o : sl) { if (o.first == slot || !o.second.c || !hidSince.count(o.first) || hidSince[o.first] > m.at) continue; if (m.raw.find(o.second.ip) != string::npos && m.cmd != "314") w.fail("host:leak", me.who() + " is sent the hidden address of " + o.second.c->who() + ": " + m.raw); } };
  }
  map<int, Time> hidSince;
  void op(const string& o) {
    auto a = words(o); int s = atoi(a[1].c_str()); bool have = sl.count(s) && sl[s].c; auto q = [&](int i) { return i < (int)a.size() ? a[i] : string(); };
    if (a[0] == "open") { if (!have) open(s, atoi(q(2).c_str()) % n); return; } if (!have) return; Client* x = c(s); auto& k = sl[s];
    if (a[0] == "q") {
      refresh(); string t = q(2);
      if (t == "names") names(s, q(3), q(4) == "D"); else if (t == "list") list(s, q(3) == "-" ? "" : q(3)); else if (t == "who") who(s, q(3), q(4) == "-" ? "" : q(4), q(5) == "-" ? "" : q(5), q(6)); else if (t == "whois") whois(s, q(3), q(4) == "2"); else if (t == "topic") topic(s, q(3)); else if (t == "mode") mode(s, q(3));
      else if (t == "uh") uh(s, q(3), vector<string>(a.begin() + 4, a.end())); else if (t == "lusers") lusers(s); else if (t == "whowas") whowas(s, q(3), atoi(q(4).c_str())); return; }
    stale = true; 
    if (a[0] == "join") { size_t m = x->log.size(); refresh(); auto i = ch.find(lower(a[2])); bool dj = i != ch.end() && i->second.modes.count('D') && !i->second.members.count(lower(x->nick)); x->send("JOIN " + a[2] + " key"); rest(); bool in = false; for (auto& e : x->since(m, "JOIN")) in |= e.nick() == x->nick; if (in && dj) delayed.insert({s, lower(a[2])}); stale = true; }
    else if (a[0] == "part") { x->send("PART " + a[2]); rest(); delayed.erase({s, lower(a[2])}); }
    else if (a[0] == "say") { x->send("PRIVMSG " + a[2] + " :hello"); rest(); delayed.erase({s, lower(a[2])}); }
    else if (a[0] == "cm") { string ar = q(4); x->send("MODE " + a[2] + " " + a[3] + (ar.size() ? " " + ar : "")); rest(); }
    else if (a[0] == "um") { bool wasHid = k.x && k.acct.size(); x->send("MODE " + x->nick + " " + a[2]); rest(); if (a[2] == "+x") k.x = true; if (!wasHid && k.x && k.acct.size()) hidSince[s] = w.s.now; if (a[2].find('i') != string::npos || a[2][1] == 'd') (void)0; }
    else if (a[0] == "away") { string m = q(2); x->send(m.empty() ? "AWAY" : "AWAY :gone " + m); rest(); k.away = m.size(); k.awayMsg = "gone " + m; }
    else if (a[0] == "topic") { x->send("TOPIC " + a[2] + " :topic " + q(3)); rest(); if (x->chans.count(lower(a[2]))) { refresh(); auto& cv = ch[lower(a[2])]; if (cv.topic == "topic " + q(3)) delayed.erase({s, lower(a[2])}); } stale = true; }
    else if (a[0] == "nick") { string old = x->nick; H h; for (auto& o : sl) if (o.second.c && o.first != s && lower(o.second.c->nick) == lower(a[2])) return; if (lower(old) == lower(a[2])) return; remember(s); x->send("NICK " + a[2]); rest(); if (x->nick != a[2]) { if (x->nick == old) hist.pop_front(); } }
    else if (a[0] == "oper") { x->send("OPER gop operpass"); rest(); x->oper = x->umodes.find('o') != string::npos; if (!x->oper) w.fail("harness:oper", x->who()); }
    else if (a[0] == "acct") { if (!svc || k.acct.size()) return; string num = svc->view.byNick(x->nick); if (num.empty()) w.fail("harness:svc", "service does not know " + x->nick); k.acct = a[2]; svc->send(svc->num + " AC " + num + " " + a[2]); rest(); if (k.x) hidSince[s] = w.s.now; }
    else if (a[0] == "quit") { remember(s); x->mayDie = true; x->send("QUIT :bye"); rest(); x->die("quit"); sl[s].c = nullptr; hidSince.erase(s); for (auto i = delayed.begin(); i != delayed.end();) i = i->first == s ? delayed.erase(i) : std::next(i); }
  }
  // LIST, NAMES and WHO while the network changes under them
  void churn() {
    int nc = p.num("chans", 150); Client* rd = c(0); map<string, int> state;   // 1 visible all along, 0 hidden all along, 2 changing
    Client* bl = c(1); for (int i = 0; i < nc; i++) { string k = fmt("#list%d", i); bl->send("JOIN " + k); if (i % 5 == 0) { bl->send("MODE " + k + " +s"); state[k] = 0; } else state[k] = 1; if (i % 3 == 0) bl->send(fmt("TOPIC %s :%s", k.c_str(), string(120, 'x').c_str())); } rest();
    rd->stalled = p.num("stall"); size_t m = rd->log.size(); rd->send("LIST"); Rng r(p.seed ^ 77); vector<Client*> ot; for (auto& s : sl) if (s.first > 1 && s.second.c) ot.push_back(s.second.c);
    for (int i = 0; i < (int)p.num("steps", 60); i++) { w.s.runFor(r.below(40) * MS); if (ot.empty()) break; Client* x = r.pick(ot); string k = fmt("#chg%d_%d", x->node, (int)r.below(40)); state[k] = 2; int q = r.below(10); if (q < 5) x->send("JOIN " + k); else if (q < 8) x->send("PART " + k); else { k = fmt("#list%d", (int)r.below(nc)); if (r.chance(0.2)) { bl->send(string("MODE ") + k + (r.chance(0.5) ? " +s" : " -s")); state[k] = 2; } else if (r.chance(0.2)) { bl->send("PART " + k); state[k] = 2; } }
      if (i == (int)p.num("steps") / 2) { rd->stalled = false; rd->event(); } }
    rd->stalled = false; rd->event(); string tok = "done"; if (!w.until([&] { for (size_t i = m; i < rd->log.size(); i++) if (rd->log[i].cmd == "323") return true; return rd->dead; }, 120 * SEC) || rd->dead) w.fail("list:stuck", "LIST does not end");
    rest(); map<string, int> seen; int ends = 0; for (size_t i = m; i < rd->log.size(); i++) { auto& x = rd->log[i]; if (x.cmd == "323") ends++; if (x.cmd == "322") { string k = lower(x.arg(1)); if (ends) w.fail("list:late", "LIST goes on after its end: " + x.raw); if (seen[k]++ && state[k] != 2) w.fail("list:dup", "LIST shows twice " + x.raw); if (state.count(k) && state[k] == 0) w.fail("list:leak", "LIST shows a secret channel: " + x.raw); } }
    if (ends != 1) w.fail("list:frame", fmt("LIST ended %d times", ends)); for (auto& x : state) if (x.second == 1 && !seen.count(x.first)) w.fail("list:missing", "LIST does not show " + x.first + ", which was there all along"); coverTransition("listchurn"); stale = true;
  }
  void run() {
    w.features["NICKNAMEHISTORYLENGTH"] = std::to_string(histMax); w.features["MAXCHANNELSPERUSER"] = "300"; w.features["IPCHECK_CLONE_LIMIT"] = "250"; w.features["NODNS"] = "TRUE";
    if (!hisWho) w.features["HIS_WHO_SERVERNAME"] = "FALSE"; if (!hisHops) w.features["HIS_WHO_HOPCOUNT"] = "FALSE"; if (!hisWhois) w.features["HIS_WHOIS_SERVERNAME"] = "FALSE"; if (!hisIdle) w.features["HIS_WHOIS_IDLETIME"] = "FALSE";
    for (int i = 0; i < n; i++) { w.addServer("", i ? vector<int>{i - 1} : vector<int>{}); if (p.num("tls")) w.srv[i].tls = true; if (p.has("chans")) w.srv[i].sendqC = 100000; }
    w.start(); svc = w.service(0); svc->connect(); if (!w.until([&] { return svc->linked(); }, 60 * SEC)) w.fail("harness:svc", svc->reason); rest();
    for (auto& o : p.ops) { if (o == "churn") { if (sl.count(0) && sl.count(1) && c(0) && c(1)) churn(); } else op(o); }
  }
};
void gen15(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2); p.knobs.erase("slat.max"); p.knobs.erase("slat.min"); int n = 1 + r.below(3); p.set("n", n); int nc = 3 + r.below(6), nch = 2 + r.below(4), ops = 40 + r.below(80); if (r.chance(0.5)) p.set("hist", 3 + r.below(8)); if (r.chance(0.5)) p.set("tls", r.below(256)); if (r.chance(0.4)) p.set("uh", r.below(256));
  for (auto k : {"nohiswho", "nohishops", "nohiswhois", "nohisidle"}) if (r.chance(0.15)) p.set(k, 1);
  auto ch = [&] { return fmt("#c%d", (int)r.below(nch)); }; auto nick = [&] { int s = r.below(nc); return r.chance(0.7) ? fmt("u%d%s", s, s % 3 == 0 ? "x" : "") : r.chance(0.8) ? fmt("n%d", (int)r.below(5)) : string("nobody"); };
  for (int i = 0; i < nc; i++) p.op("open %d %d", i, (int)r.below(n));
  bool big = r.chance(0.12); if (big) { p.set("chans", 60 + r.below(230)); p.set("steps", 30 + r.below(80)); p.set("stall", r.chance(0.7)); p.set("cap.client", vector<int>{600, 2048, 8192}[r.below(3)]); ops = 25; }
  if (big) p.op("churn");
  for (int i = 0; i < ops; i++) {
    int s = r.below(nc), q = r.below(100);
    if (q < 18) p.op("join %d %s", s, ch().c_str()); else if (q < 21) p.op("part %d %s", s, ch().c_str());
    else if (q < 29) p.op("cm %d %s %s", s, ch().c_str(), vector<string>{"+s", "+s", "-s", "+p", "-p", "+D", "-D", "+k key", "+l 20", "+nt", "-k key"}[r.below(11)].c_str());
    else if (q < 37) p.op("um %d %s", s, vector<string>{"+i", "+i", "-i", "+x", "+x", "+d", "-d", "+w", "+I", "-w"}[r.below(10)].c_str());
    else if (q < 39) p.op("away %d %s", s, r.chance(0.7) ? fmt("m%d", s).c_str() : ""); else if (q < 41) p.op("topic %d %s t%d", s, ch().c_str(), (int)r.below(9)); else if (q < 43) p.op("say %d %s", s, ch().c_str());
    else if (q < 45) p.op("nick %d n%d", s, (int)r.below(5)); else if (q < 46) p.op("oper %d", s); else if (q < 49) p.op("acct %d ac%d", s, s); else if (q < 51) p.op("quit %d", s); else if (q < 53) p.op("open %d %d", s, (int)r.below(n));
    else for (int j = 1 + r.below(3); j > 0; j--) {
      s = r.below(nc); int t = r.below(20);
      if (t < 3) p.op("q %d names %s%s", s, r.chance(0.4) ? "0" : ch().c_str(), r.chance(0.2) ? " D" : ""); else if (t < 6) p.op("q %d list %s", s, vector<string>{"-", "-", ch(), "#*", "#c1*", "!#c1*", ">1", "<3", ">1,<4", "S", "<1", ch() + "," + ch()}[r.below(12)].c_str());
      else if (t < 12) { string fl = "-", fs = "-"; if (r.chance(0.5)) { fl = ""; for (char x : string("oxdnuhsira")) if (r.chance(0.18)) fl += x; if (fl.empty()) fl = "-"; } if (r.chance(0.5)) { fs = ""; for (char x : string("cdfhilnrstuao")) if (r.chance(0.5)) fs += x; }
        string m = vector<string>{"0", "*", ch(), ch(), nick(), nick(), "u*", "us*", "10.51.*", "10.51.0.0/16", "*.users.undernet.org", "ac*", "*odd*", "?1*", "s*.sim.net", ch() + "," + nick(), nick() + "," + nick(), "nobody"}[r.below(18)]; p.op("q %d who %s %s %s %s", s, m.c_str(), fl.c_str(), fs.c_str(), r.chance(0.5) ? "42" : ""); }
      else if (t < 15) p.op("q %d whois %s %s", s, r.chance(0.3) ? vector<string>{"u*", "*", "n?", "u1*,u2*", "zz*"}[r.below(5)].c_str() : r.chance(0.2) ? (nick() + "," + nick()).c_str() : nick().c_str(), r.chance(0.25) ? "2" : "1");
      else if (t < 16) p.op("q %d topic %s", s, ch().c_str()); else if (t < 17) p.op("q %d mode %s", s, ch().c_str()); else if (t < 18) p.op("q %d uh %s %s %s", s, vector<string>{"USERHOST", "USERIP", "ISON"}[r.below(3)].c_str(), nick().c_str(), nick().c_str());
      else if (t < 19) p.op("q %d lusers", s); else p.op("q %d whowas %s %d", s, nick().c_str(), r.chance(0.3) ? (int)(1 + r.below(3)) : 0);
    }
  }
}
void run15(const Plan& p) { Priv b(p); b.run(); }
RegProp reg15({"C15", "Queries and privacy", "Plans: users on 1-3 servers join, part, hide, log in, oper, change nick, quit while channels become secret, private, delayed-join or keyed; after settled changes random users send NAMES, LIST, WHO, WHOIS, TOPIC, MODE, USERHOST, USERIP, ISON, LUSERS and WHOWAS and every answer is compared with the one computed from the whole-network state; LIST also runs against a slow reader while channels come and go.", "delays, segmentation, short and refused writes, slow readers", gen15, run15, 1, "", {}});
}
