// C19: a message that matches a spam pattern waits for the filter's word; every other message is untouched.
#include "chaos.h"
#include "util.h"
#include <regex.h>
namespace {
const char* PAT[] = {"spam", "buy (now|later)", "(x)(y)?z", "h.llo [0-9]+", "([bad", "^free", "CASE[A-C]", "end$"};
const char* TXT[] = {"plain words", "this is spam", "buy now", "xyz", "xz", "hello 42", "([bad", "free beer", "caseA", "CASEB", "the end", "buy later spam"};
struct Spam {
  struct Cl { Client* c = nullptr; int srv = 0; bool echo = false, away = false, oper = false, cc = false; set<int> sil; size_t cur = 0; };
  struct Ch { map<int, int> m; bool n = true, mod = false; };   // member -> 2 operator, 1 voice
  struct Held { int from = 0, to = -1; string ch, cmd, text, token; Time at = 0; bool lost = false, unsure = false; };
  struct Exp { string cmd, target, text, from; bool maybe = false; };
  struct SL { long long mod = 0, exp = 0; string types; bool on = false; };
  const Plan& p; World& w; int n, nc; vector<Cl> cl; map<string, Ch> chs; vector<Held> held; vector<vector<Exp>> exp; vector<map<string, SL>> tab; Peer* svc = nullptr; Peer* f = nullptr; bool up = false, splitNow = false, on = false, isSet = false, block = true, f0used = false; int tmo = 60, seq = 0, ipn = 0; long long ts = 0; vector<string> xq; vector<Client*> gop; string xqFrom;
  explicit Spam(const Plan& p) : p(p), w(*W), n(p.num("n", 1)), nc(p.num("c", 4)) {}
  long long now() { return w.node(0)->wall(); }
  Time len() { return 400 * MS + 8 * p.num("lat.max", 1500) + (p.real("eagain") > 0 || p.num("chunk") || p.real("short") > 0 ? SEC + 25 * p.num("sched", 0) : 6 * p.num("sched", 0)); }
  void rest(Time d = 0) { w.s.runFor(d + len()); }
  struct Q { string tok, who, target, cap, from; }; vector<Q> queries;
  void hook(Peer* pe) { pe->onMsg = [this](Peer&, Msg& m, const string& l) { if (m.cmd == "XQ") { auto a = words(m.arg(2)); size_t c = m.arg(2).find(" :"); Q q; q.tok = m.arg(1); q.from = m.prefix; if (a.size() >= 2) { q.who = a[0]; q.target = a[1]; } q.cap = c == string::npos ? "?" : m.arg(2).substr(c + 2); queries.push_back(q); if (m.arg(0) != "" && m.arg(0) != svc->num) w.fail("spam:query", "a query for " + m.arg(0) + " reached the filter: " + l); } }; }
  bool linkUp() { svc = w.service(0); hook(svc); svc->connect(); bool ok = w.until([&] { return svc->linked() && svc->gotEA; }, 120 * SEC); up = ok; rest(SEC); return ok; }
  int addCl(int i, int srv) { Cl x; x.srv = srv; x.echo = i & 1; static int serial = 0; (void)serial; Client* c = w.mk(srv, fmt("u%d_%d", i, ipn), 6668, fmt("10.61.%d.%d", ipn / 200, 1 + ipn % 200)); ipn++; c->mayDie = true; if (x.echo) c->caps = {"echo-message"}; x.c = c; c->connect(); if ((int)cl.size() <= i) { cl.resize(i + 1); exp.resize(i + 1); } cl[i] = x; exp[i].clear(); return i; }
  // ---- the model
  long long t0 = 0;   // when the current operation began
  bool active(const SL& s) { return s.on && (s.exp == 0 || s.exp >= t0); }
  bool edge(const SL& s) { return s.on && s.exp && s.exp >= t0 - 2 && s.exp <= t0 + 3 + (long long)(len() / SEC); }
  // 0 no match, 1 match, 2 cannot tell; caps: what may be reported as matched
  int match(int srv, const string& text, char kind, set<string>* caps = nullptr) {
    int r = 0; for (auto& e : tab[srv]) { if (e.second.types.find(kind) == string::npos && e.second.types.find('A') == string::npos) continue; if (!active(e.second) && !edge(e.second)) continue;
      regex_t re; if (regcomp(&re, e.first.c_str(), REG_EXTENDED)) continue; regmatch_t mt[16]; if (!regexec(&re, text.c_str(), 16, mt, 0)) { if (edge(e.second)) { if (!r) r = 2; } else r = 1; string c; for (int i = 1; i < 15 && mt[i].rm_so != -1; i++) c += (i > 1 ? " " : "") + text.substr(mt[i].rm_so, mt[i].rm_eo - mt[i].rm_so); if (mt[1].rm_so == -1) c = text.substr(mt[0].rm_so, mt[0].rm_eo - mt[0].rm_so); if (caps) caps->insert(c); } regfree(&re); }
    return r; }
  bool seesSvc(int srv) { return up && (!splitNow || srv == 0); }
  bool reach(int a, int b) { return !splitNow || (a == 0) == (b == 0); }
  bool canSpeak(int i, const string& ch) { auto it = chs.find(ch); if (it == chs.end()) return false; auto& c = it->second; bool in = c.m.count(i); if (in && c.m[i] > 0) return true; if (c.mod) return false; return in || !c.n; }
  void want(int i, const string& cmd, const string& target, const string& text, const string& from, bool maybe = false) { exp[i].push_back({cmd, target, text, from, maybe}); }
  void deliver(const Held& h, bool maybe = false) {   // what the release of a message, or its ordinary delivery, makes everybody see
    Cl& s = cl[h.from]; string me = s.c->nick;
    if (h.to >= 0) { Cl& r = cl[h.to]; if (r.sil.count(h.from)) { if (r.srv != s.srv) { want(h.from, "301", r.c->nick, "", "", true); want(h.from, h.cmd == "N" ? "NOTICE" : "PRIVMSG", r.c->nick, h.text, me, true); } return; } if (r.cc && h.to != h.from && !common(h.from, h.to) && !s.oper) return; want(h.to, h.cmd == "N" ? "NOTICE" : "PRIVMSG", r.c->nick, h.text, me, maybe); if (r.away && h.cmd == "P") want(h.from, "301", r.c->nick, "", "", maybe); if (s.echo) want(h.from, h.cmd == "N" ? "NOTICE" : "PRIVMSG", r.c->nick, h.text, me, maybe); return; }
    if (!canSpeak(h.from, h.ch)) return;
    for (auto& m : chs[h.ch].m) { if (m.first == h.from || !reach(s.srv, cl[m.first].srv)) continue; if (h.cmd == "W" && m.second < 2) continue; if (h.cmd == "V" && m.second < 1) continue; want(m.first, h.cmd == "P" ? "PRIVMSG" : "NOTICE", h.cmd == "P" || h.cmd == "N" ? h.ch : "", h.text, me, maybe); }
    if (s.echo) want(h.from, h.cmd == "P" ? "PRIVMSG" : "NOTICE", h.cmd == "P" || h.cmd == "N" ? h.ch : "", h.text, me, maybe);
  }
  bool common(int a, int b) { for (auto& c : chs) if (c.second.m.count(a) && c.second.m.count(b)) return true; return false; }
  void refuse(const Held& h) { want(h.from, h.to >= 0 ? "401" : "404", h.to >= 0 ? cl[h.to].c->nick : h.ch, "", "", h.cmd == "N" || h.unsure); }
  void drop(std::function<bool(const Held&)> is) { for (size_t i = 0; i < held.size();) if (is(held[i])) held.erase(held.begin() + i); else i++; }
  void leaveCh(int i, const string& ch) { auto it = chs.find(ch); if (it == chs.end()) return; it->second.m.erase(i); if (it->second.m.empty()) { chs.erase(it); drop([&](const Held& h) { return h.ch == ch; }); } }
  void gone(int i) { drop([&](const Held& h) { return h.from == i || h.to == i; }); vector<string> v; for (auto& c : chs) if (c.second.m.count(i)) v.push_back(c.first); for (auto& c : v) leaveCh(i, c); for (auto& x : cl) x.sil.erase(i); }
  // ---- comparing
  void check(const string& after) {
    for (size_t i = 0; i < cl.size(); i++) { Client* c = cl[i].c; if (!c) continue;
      if (c->dead) w.fail("harness:client", c->who() + " " + c->reason);
      for (; cl[i].cur < c->log.size(); cl[i].cur++) { auto& m = c->log[cl[i].cur]; bool num = m.cmd == "301" || m.cmd == "401" || m.cmd == "402" || m.cmd == "404"; if (!num && ((m.cmd != "PRIVMSG" && m.cmd != "NOTICE") || m.prefix.find('!') == string::npos)) continue;
        string nick = num ? "" : m.nick(); bool ok = false; for (size_t k = 0; k < exp[i].size() && !ok; k++) { auto& e = exp[i][k]; if (e.cmd != m.cmd || e.from != nick) continue; if (num) { if (lower(m.arg(1)) != lower(e.target)) continue; } else { bool wall = e.target.empty(); string t = m.last(); if (wall ? t.size() < 2 || t.substr(2) != e.text : t != e.text) continue; if (!wall && lower(m.arg(0)) != lower(e.target)) continue; } exp[i].erase(exp[i].begin() + k); ok = true; }
        if (!ok) { bool isHeld = false; for (auto& h : held) if (m.last().find(h.text) != string::npos) isHeld = true; w.fail(isHeld ? "spam:leak" : num ? "spam:reply" : "spam:extra", c->who() + " got " + m.raw + (isHeld ? ", which the filter has not released" : ", which is not due") + " (after: " + after + ")"); } }
      for (auto& e : exp[i]) if (!e.maybe) w.fail(e.cmd == "PRIVMSG" || e.cmd == "NOTICE" ? "spam:lost" : "spam:reply", c->who() + " did not get " + e.cmd + " " + e.target + " " + e.text + " (after: " + after + ")"); exp[i].clear(); }
    if (queries.size()) w.fail("spam:query", "the filter was asked about what it need not know: " + queries[0].who + " " + queries[0].target + " " + queries[0].cap + " (after: " + after + ")");
  }
  void expire() {   // everything still waiting runs out
    if (held.empty()) return; coverTransition(block ? "timeout block" : "timeout pass"); for (auto& h : held) if (block) refuse(h); else deliver(h, h.unsure); auto keep = held; held.clear();
    w.s.runFor((tmo + 12) * SEC); rest(); check(fmt("the time allowed ran out for %d", (int)keep.size())); }
  // one message to one target, sent already; together: the link of the filter goes down at the same moment
  void sent(int i, const string& cmd, const string& target, const string& text, bool together) {
    Held h; h.from = i; h.cmd = cmd; h.text = text; h.at = w.s.now; Cl& s = cl[i]; bool chan = target[0] == '#'; if (chan) h.ch = target; else h.to = atoi(target.c_str());
    if (chan) { if (!chs.count(target)) { if (cmd != "N") {} return; } if (!canSpeak(i, target)) { want(i, "404", target, "", "", cmd == "N"); return; } }
    else if (!reach(s.srv, cl[h.to].srv)) return;
    bool quiet = !chan && cl[h.to].sil.count(i); set<string> caps; int mt = s.oper || !on ? 0 : match(s.srv, text, chan ? 'C' : 'P', &caps);
    if (quiet && cl[h.to].srv == s.srv) mt = 0;   // refused before anything else
    if (!mt || !seesSvc(s.srv)) { deliver(h); return; }
    size_t k = 0; string num = svc->view.byNick(s.c->nick); for (; k < queries.size(); k++) { auto& q = queries[k]; if (q.who == num && lower(q.target) == lower(chan ? target : svc->view.byNick(cl[h.to].c->nick)) && caps.count(q.cap)) break; }
    if (k < queries.size()) { h.token = queries[k].tok; if (svc->view.byName(w.name(s.srv)) != queries[k].from) w.fail("spam:query", "the query about " + text + " comes from " + queries[k].from); queries.erase(queries.begin() + k); held.push_back(h); coverTransition("held " + cmd + (chan ? "c" : "p")); return; }
    if (!together && (mt == 2 || quiet)) { deliver(h); return; }
    if (!together) w.fail("spam:unasked", s.c->who() + " sent '" + text + "' to " + target + ", which matches, and the filter was not asked about it");
    // either the server knew of the loss and let the message pass, or it waits for an answer that will never come
    bool passed = false; for (auto& x : cl) if (x.c) for (auto& m : x.c->log) if ((m.cmd == "PRIVMSG" || m.cmd == "NOTICE") && m.last().find(text) != string::npos && (cmd == "W" || cmd == "V" || lower(m.arg(0)) == lower(chan ? target : cl[h.to].c->nick))) passed = true;
    if (passed) deliver(h); else { auto keep = exp; size_t a = 0, b = 0; for (auto& e : exp) a += e.size(); deliver(h); for (auto& e : exp) b += e.size(); exp = keep; h.unsure = quiet || a == b; h.lost = true; held.push_back(h); coverTransition("lost query"); }
  }
  string tgtName(const string& t) { return t[0] == '#' ? t : cl[atoi(t.c_str())].c->nick; }
  void slines(const string& after) {
    if (splitNow) return; for (int s = 0; s < n; s++) { Client* g = gop[s]; size_t m = g->log.size(); g->send("STATS s"); w.until([&] { return g->find("219", m) != nullptr; }, 20 * SEC); set<string> got, wantd, may; string sv;
      for (size_t i = m; i < g->log.size(); i++) { auto& x = g->log[i]; if (x.cmd != "240" || x.p.size() < 6 || x.arg(1) == "S") continue; long long e = atoll(x.arg(2).c_str()); if (e && e <= now() + 2) continue; got.insert(x.arg(1) + " " + x.arg(2) + " " + x.arg(4) + " " + x.last()); }
      for (auto& e : tab[s]) { if (!e.second.on || (e.second.exp && e.second.exp <= now() + 2)) continue; regex_t re; bool bad = regcomp(&re, e.first.c_str(), REG_EXTENDED); if (!bad) regfree(&re); wantd.insert(fmt("%lld %lld ", e.second.mod, e.second.exp) + (bad ? "I" : e.second.types == "PCLQ" ? "A" : e.second.types) + " " + e.first); }
      if (got != wantd) w.fail("spam:table", w.name(s) + " lists: " + join(vector<string>(got.begin(), got.end()), " | ") + " and should list: " + join(vector<string>(wantd.begin(), wantd.end()), " | ") + " (after: " + after + ")"); } }
  void put(int side, const string& pat, const SL& s) { for (int i = 0; i < n; i++) if (!splitNow || (i == 0) == (side == 0)) { auto it = tab[i].find(pat); if (it == tab[i].end() || it->second.mod < s.mod) tab[i][pat] = s; } }
  void op(const string& o) {
    auto a = words(o); w.s.mix(hashstr(o)); const string& k = a[0]; coverTransition(k);
    for (auto& h : held) if (w.s.now - h.at > (tmo - 14) * SEC - 3 * len()) { expire(); break; }
    t0 = now(); auto C = [&](size_t q) { return atoi(a[q].c_str()) % (int)cl.size(); }; auto ch = [&](size_t q) { return string(atoi(a[q].c_str()) % 2 ? "#b" : "#a"); };
    if (k == "sl") {   // sl SIDE STATE TYPES PAT EXP AGE
      int side = n > 1 ? atoi(a[1].c_str()) % 2 : 0; Peer* pe = side ? f : svc; if (!pe || !pe->live()) return; SL s; s.on = a[2] == "+"; s.types = a[3]; string pat = PAT[atoi(a[4].c_str()) % 8]; int e = atoi(a[5].c_str()); s.exp = e == 0 ? 0 : now() + e; int age = atoi(a[6].c_str()); s.mod = age ? std::max(1LL, ts - age) : (ts = std::max(ts + 1, now()));
      for (auto& t : tab) if (t.count(pat) && t[pat].mod == s.mod) return;   // two versions of the same second: each side keeps its own
      for (auto& t : tab) if (t.count(pat) && t[pat].exp && t[pat].exp < now() + 3) { if (age) return; }   // one that ran out may have been forgotten already
      pe->send(pe->num + " SL " + a[2] + fmt(" %lld %lld ", s.mod, s.exp) + s.types + " :" + pat); put(side, pat, s); rest(); }
    else if (k == "nc") {   // nc WHAT V
      expire(); if (!svc->live() || splitNow) return; string key, v; if (a[1] == "srv") { key = "sline.server"; v = a[2] == "1" ? svc->name : a[2] == "2" ? "nobody.sim.net" : ""; on = v == svc->name; isSet = v.size(); } else if (a[1] == "block") { key = "sline.hold_timeout_block"; block = a[2] != "0"; v = a[2] == "0" ? "no" : "yes"; } else { key = "sline.hold_timeout"; tmo = 30 + 10 * atoi(a[2].c_str()); v = std::to_string(tmo); }
      svc->send(svc->num + fmt(" CF %lld ", ts = std::max(ts + 1, now())) + key + " :" + v); rest(); }
    else if (k == "say") {   // say I CMD TARGETS TXT DOWN
      int i = C(1); auto tg = splitBy(a[3], ','); string text = string(TXT[atoi(a[4].c_str()) % 12]); bool dn = a.size() > 5 && a[5] == "1" && up; string cmd = a[2]; text = cmd == "x" ? text : (a.size() > 6 && a[6] == "1" ? text : fmt("%d ", ++seq) + text); vector<string> names; set<string> seen, use; vector<string> t2;
      for (auto& t : tg) { string x = t[0] == '#' ? t : std::to_string(atoi(t.c_str()) % (int)cl.size()); if (!seen.insert(x).second || (x[0] == '#' && (splitNow || !chs.count(x)))) continue; if (x[0] != '#' && (!reach(cl[i].srv, cl[atoi(x.c_str())].srv))) continue; t2.push_back(x); names.push_back(tgtName(x)); }
      if (t2.empty()) return; if (cmd == "W" || cmd == "V") { if (t2[0][0] != '#') return; t2.resize(1); names.resize(1); } text += fmt(" /%d/", ++seq); if (a.size() > 6 && a[6] == "2") text = text.substr(0, text.rfind(" /")) + fmt(" %d the end", seq);
      cl[i].c->send(string(cmd == "P" ? "PRIVMSG" : cmd == "N" ? "NOTICE" : cmd == "W" ? "WALLCHOPS" : "WALLVOICES") + " " + join(names, ",") + " :" + text); if (dn) { svc->die("rst", true); coverTransition("down at once"); } rest(dn ? 2 * SEC : 0);
      for (auto& t : t2) sent(i, cmd, t, text, dn); if (dn) up = false; }
    else if (k == "ans") {   // ans K WHAT
      if (!up || held.empty()) return; Held h = held[atoi(a[1].c_str()) % held.size()]; if (h.lost || h.token.empty() || !seesSvc(cl[h.from].srv)) return; string srvn = svc->view.byName(w.name(cl[h.from].srv)); auto say = [&](const string& tok, const string& v) { svc->send(svc->num + " XR " + srvn + " " + tok + " :" + v); };
      if (a[2] == "junk") { say("spam:99999999", "YES"); say("spam:", "NO"); say("spam:x", "YES"); say(h.token, "MAYBE"); say("spam", "YES"); say("spam:-1", "YES"); rest(); }
      else { bool yes = a[2][0] == 'Y'; for (size_t q = 0; q < held.size(); q++) if (held[q].token == h.token && cl[held[q].from].srv == cl[h.from].srv) { held.erase(held.begin() + q); break; } if (yes) deliver(h); else refuse(h); say(h.token, yes ? (a[2] == "Yl" ? "yes" : "YES") : "NO"); if (a.size() > 3) { if (a[3] == "2") say(h.token, "YES"); if (a[3] == "3") say(h.token, "NO"); } rest(); coverTransition(string("answer ") + (yes ? "y" : "n") + h.cmd); } }
    else if (k == "race") {   // the answer and something else at the same time
      if (!up || held.empty() || splitNow) return; Held h = held[atoi(a[1].c_str()) % held.size()]; if (h.lost || h.token.empty()) return; for (size_t q = 0; q < held.size(); q++) if (held[q].token == h.token && cl[held[q].from].srv == cl[h.from].srv) { held.erase(held.begin() + q); break; }
      int who = atoi(a[2].c_str()) % 2 && h.to >= 0 ? h.to : h.from; deliver(h, true); if (h.to >= 0) { want(h.from, "401", cl[h.to].c->nick, "", "", true); want(h.from, "401", "*", "", "", true); } svc->send(svc->num + " XR " + svc->view.byName(w.name(cl[h.from].srv)) + " " + h.token + " :YES"); cl[who].c->send("QUIT :racing"); rest(SEC); replace(who); }
    else if (k == "quit") { int i = C(1); cl[i].c->send("QUIT :leaving"); rest(); replace(i); }
    else if (k == "nick") { int i = C(1); string nn = fmt("v%d_%d", i, ++seq); cl[i].c->send("NICK " + nn); rest(); if (cl[i].c->nick != nn && !cl[i].c->find("437", 0) && !cl[i].c->find("438", 0)) w.fail("harness:nick", cl[i].c->who()); }
    else if (k == "join") { int i = C(1); string c = ch(2); if (splitNow || (chs.count(c) && chs[c].m.count(i))) return; bool nw = !chs.count(c); cl[i].c->send("JOIN " + c); if (nw) cl[i].c->send("MODE " + c + " -t+n"); rest(); chs[c].m[i] = nw ? 2 : 0; }
    else if (k == "part") {   // part I CH TXT
      int i = C(1); string c = ch(2); if (splitNow || !chs.count(c) || !chs[c].m.count(i)) return; string text = TXT[atoi(a[3].c_str()) % 12]; bool speak = canSpeak(i, c); int mt = cl[i].oper || !isSet ? 0 : match(cl[i].srv, text, 'L'); cl[i].c->send("PART " + c + " :" + text); int j = -1; for (auto& m : chs[c].m) if (m.first != i) j = m.first; size_t mk = j >= 0 ? cl[j].c->log.size() : 0; rest();
      if (j >= 0) { bool ok = false; for (size_t q = mk; q < cl[j].c->log.size(); q++) { auto& m = cl[j].c->log[q]; if (m.cmd == "PART" && m.nick() == cl[i].c->nick) { ok = true; bool com = m.p.size() > 1; if (mt != 2 && com != (speak && !mt)) w.fail("spam:part", cl[j].c->who() + " saw " + m.raw + (mt ? ", whose text matches a pattern for parting" : ", without the text '" + text + "'")); } } if (!ok) w.fail("spam:part", cl[j].c->who() + " did not see the part"); } leaveCh(i, c); }
    else if (k == "quitc") { int i = C(1); string text = TXT[atoi(a[2].c_str()) % 12]; bool speak = true; int j = -1; bool any = false; for (auto& c : chs) if (c.second.m.count(i)) { any = true; if (!canSpeak(i, c.first)) speak = false; for (auto& m : c.second.m) if (m.first != i && reach(cl[m.first].srv, cl[i].srv)) j = m.first; } int mt = cl[i].oper || !isSet ? 0 : match(cl[i].srv, text, 'Q'); size_t mk = j >= 0 ? cl[j].c->log.size() : 0; string nk = cl[i].c->nick; cl[i].c->send("QUIT :" + text); rest(SEC);
      if (j >= 0 && any) { bool ok = false; for (size_t q = mk; q < cl[j].c->log.size(); q++) { auto& m = cl[j].c->log[q]; if (m.cmd == "QUIT" && m.nick() == nk) { ok = true; bool com = m.last().find(text) != string::npos; if (mt != 2 && com != (speak && !mt)) w.fail("spam:quit", cl[j].c->who() + " saw " + m.raw + (mt ? ", whose text matches a pattern for quitting" : ", without the text '" + text + "'")); } } if (!ok) w.fail("spam:quit", "the quit of " + nk + " was not seen"); } replace(i); }
    else if (k == "mode") { string c = ch(1); if (!chs.count(c) || splitNow) return; int o = -1; for (auto& m : chs[c].m) if (m.second == 2) o = m.first; if (o < 0) return; int v = atoi(a[2].c_str()) % 6; int t = C(3); if (v == 0) { chs[c].mod = !chs[c].mod; cl[o].c->send("MODE " + c + (chs[c].mod ? " +m" : " -m")); } else if (v == 1) { chs[c].n = !chs[c].n; cl[o].c->send("MODE " + c + (chs[c].n ? " +n" : " -n")); } else if (v == 2 && chs[c].m.count(t)) { chs[c].m[t] = 2; cl[o].c->send("MODE " + c + " +o " + cl[t].c->nick); } else if (v == 3 && chs[c].m.count(t) && chs[c].m[t] == 0) { chs[c].m[t] = 1; cl[o].c->send("MODE " + c + " +v " + cl[t].c->nick); } else if (v == 4 && chs[c].m.count(t) && t != o) { cl[o].c->send("KICK " + c + " " + cl[t].c->nick + " :out"); rest(); leaveCh(t, c); } rest(); }
    else if (k == "sil") { int i = C(1), j = C(2); if (i == j || splitNow) return; if (cl[i].sil.count(j)) return; cl[i].sil.insert(j); cl[i].c->send("SILENCE +*!*@" + cl[j].c->ip); rest(); }
    else if (k == "cc") { int i = C(1); if (splitNow) return; cl[i].cc = !cl[i].cc; cl[i].c->send("MODE " + cl[i].c->nick + (cl[i].cc ? " +c" : " -c")); rest(); }
    else if (k == "away") { int i = C(1); if (splitNow) return; cl[i].away = !cl[i].away; cl[i].c->send(cl[i].away ? "AWAY :out" : "AWAY"); rest(); }
    else if (k == "oper") { int i = C(1); if (splitNow) return; if (cl[i].oper) { cl[i].c->send("MODE " + cl[i].c->nick + " -o"); cl[i].oper = false; } else { cl[i].c->send("OPER gop operpass"); rest(); cl[i].oper = true; } rest(); }
    else if (k == "down") { if (!up) return; if (a[1] == "1") svc->die("rst", true); else gop[0]->send("SQUIT svc.sim.net :x"); rest(2 * SEC); if (!svc->dead) svc->die("x"); rest(2 * SEC); up = false; for (auto& h : held) h.lost = true; }
    else if (k == "up") { if (up) return; linkUp(); }
    else if (k == "wait") { int d = atoi(a[1].c_str()); if (held.size() && d > 5) expire(); else w.s.runFor(d * SEC); }
    else if (k == "split") { if (n < 2 || splitNow) return; expire(); w.s.partition(w.node(0)->ip, w.node(1)->ip); if (a.size() > 1) { if (!w.until([&] { return !w.isLinked(0, 1); }, 400 * SEC)) return; rest(60 * SEC); } else { rstLink(w, 0, 1); rest(2 * SEC); } splitNow = true;
      for (size_t i = 0; i < cl.size(); i++) { cl[i].cur = cl[i].c->log.size(); } }
    else if (k == "heal") { heal(); }
    if (k != "heal" && k != "split") check(o);
  }
  void heal() { if (!splitNow) return; w.s.healAll(); expire2(); if (!w.until([&] { return w.isLinked(0, 1); }, 900 * SEC)) w.fail("harness:heal", "no link"); rest(10 * SEC); splitNow = false; for (int s = 1; s < n; s++) for (auto& e : tab[0]) { auto it = tab[s].find(e.first); if (it == tab[s].end() || it->second.mod < e.second.mod) tab[s][e.first] = e.second; } for (int s = 1; s < n; s++) for (auto& e : tab[s]) { auto it = tab[0].find(e.first); if (it == tab[0].end() || it->second.mod < e.second.mod) tab[0][e.first] = e.second; } for (int s = 1; s < n; s++) tab[s] = tab[0]; for (auto& x : cl) x.cur = x.c->log.size(); for (auto& e : exp) e.clear(); queries.clear(); check("heal"); slines("the split healed"); coverTransition("healed"); }
  void expire2() { if (held.size()) expire(); }
  void replace(int i) { gone(i); for (auto& e : exp[i]) (void)e; if (!cl[i].c->dead) { cl[i].c->die("gone"); rest(SEC); } int srv = cl[i].srv; addCl(i, srv); if (!w.until([&] { return cl[i].c->registered; }, 60 * SEC)) w.fail("harness:reg", cl[i].c->who() + cl[i].c->reason); rest(); cl[i].cur = cl[i].c->log.size(); }
  void run() {
    w.features["IPCHECK_CLONE_LIMIT"] = "250"; w.features["NICK_DELAY"] = "1"; w.features["IPCHECK"] = "FALSE"; w.features["CONNECTFREQUENCY"] = "20"; tab.resize(n);
    for (int i = 0; i < n; i++) w.addServer("", i ? vector<int>{i - 1} : vector<int>{}); w.start(); if (n > 1 && !w.waitLinked()) w.fail("harness:link", "");
    if (!linkUp()) w.fail("harness:svc", svc->reason); if (n > 1) { f = w.peer(1, 0); f->connect(); if (!w.until([&] { return f->linked() && f->gotEA; }, 60 * SEC)) w.fail("harness:f0", f->reason); }
    for (int i = 0; i < n; i++) gop.push_back(w.client(i, fmt("gop%d", i))); for (int i = 0; i < nc; i++) addCl(i, i % n); if (!w.waitReg()) w.fail("harness:reg", "clients"); for (auto g : gop) g->send("OPER gop operpass"); w.settle(); rest(SEC); for (auto& x : cl) x.cur = x.c->log.size();
    for (auto& o : p.ops) { tracef("op %s", o.c_str()); op(o); for (auto g : gop) if (!g->ok()) w.fail("harness:gop", g->reason); }
    heal(); expire(); slines("the end"); check("the end");
  }
};
void gen19(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2); p.knobs.erase("cap.client"); p.knobs.erase("cap.server"); p.knobs.erase("slat.max"); p.knobs.erase("slat.min"); int n = 1 + r.below(2); p.set("n", n); int c = 3 + r.below(3); p.set("c", c);
  p.op("nc srv 1"); if (r.chance(0.5)) p.op("nc block %d", (int)r.below(2)); for (int i = 0; i < c; i++) { p.op("join %d 0", i); if (r.chance(0.4)) p.op("join %d 1", i); }
  auto sl = [&] { p.op("sl %d %s %s %d %d %d", (int)r.below(2), r.chance(0.8) ? "+" : "-", vector<string>{"A", "P", "C", "PC", "L", "Q", "CLQ", "PCLQ"}[r.below(8)].c_str(), (int)r.below(8), r.chance(0.5) ? 0 : (int)(20 + r.below(400)), r.chance(0.8) ? 0 : 1 + (int)r.below(20)); };
  auto tg = [&]() -> string { string s; for (int i = 1 + (int)r.below(2); i > 0; i--) s += (s.size() ? "," : "") + (r.chance(0.5) ? fmt("%d", (int)r.below(c)) : string(r.chance(0.7) ? "#a" : "#b")); return s; };
  for (int i = 1 + r.below(4); i > 0; i--) sl();
  if (r.chance(0.35)) {   // many wait at once, some are answered, somebody goes
    string t = fmt("%d", (int)r.below(c)); p.op("sl 0 + %s 0 0 0", r.chance(0.5) ? "A" : "PC"); for (int i = 2 + r.below(r.chance(0.3) ? 12 : 4); i > 0; i--) { if (r.chance(0.3)) t = r.chance(0.3) ? "#a" : fmt("%d", (int)r.below(c)); p.op("say %d %s %s 1 0 %d", (int)r.below(c), r.chance(0.7) ? "P" : "N", t.c_str(), (int)r.below(2)); }
    for (int i = 1 + r.below(3); i > 0; i--) p.op("ans %d %s %d", (int)r.below(8), r.chance(0.5) ? "Y" : "N", (int)r.below(5)); if (r.chance(0.7)) { int q = r.chance(0.5) && t[0] != '#' ? atoi(t.c_str()) : (int)r.below(c); if (r.chance(0.7)) p.op("quit %d", q); else p.op("part %d 0 0", q); } if (r.chance(0.3)) { int q = r.below(c); p.op("join %d 1", q); for (int i = 2 + r.below(3); i > 0; i--) p.op("say %d P #b 1 0 0", q); for (int i = 0; i < c; i++) p.op("part %d 1 0", i); if (r.chance(0.3)) p.op("join %d 1", q); }
    if (r.chance(0.3)) p.op("ans %d Y 2", (int)r.below(8)); if (r.chance(0.6)) p.op("wait 20");
  }
  for (int i = 12 + r.below(30); i > 0; i--) switch (r.below(30)) {
    case 0: case 1: sl(); break; case 2: p.op("nc %s %d", vector<string>{"srv", "block", "tmo"}[r.below(3)].c_str(), (int)r.below(3)); if (r.chance(0.7)) p.op("nc srv 1"); break; case 3: p.op("quit %d", (int)r.below(c)); break; case 4: p.op("nick %d", (int)r.below(c)); break; case 5: p.op("join %d %d", (int)r.below(c), (int)r.below(2)); break; case 6: p.op("part %d %d %d", (int)r.below(c), (int)r.below(2), (int)r.below(12)); break; case 7: p.op("quitc %d %d", (int)r.below(c), (int)r.below(12)); break;
    case 8: case 9: p.op("mode %d %d %d", (int)r.below(2), (int)r.below(6), (int)r.below(c)); break; case 10: p.op("sil %d %d", (int)r.below(c), (int)r.below(c)); break; case 11: p.op("cc %d", (int)r.below(c)); break; case 12: p.op("away %d", (int)r.below(c)); break; case 13: if (r.chance(0.4)) p.op("oper %d", (int)r.below(c)); break;
    case 14: if (r.chance(0.5)) { p.op("down %d", (int)r.below(2)); if (r.chance(0.5)) p.op("say %d P %s %d", (int)r.below(c), tg().c_str(), (int)r.below(12)); p.op("up"); } break; case 15: p.op("wait %d", r.chance(0.5) ? 2 : 20); break; case 16: if (r.chance(0.3)) { p.op(r.chance(0.5) ? "split" : "split ping"); for (int j = 1 + r.below(3); j > 0; j--) sl(); if (r.chance(0.5)) p.op("say %d P %s %d", (int)r.below(c), tg().c_str(), (int)r.below(12)); p.op("heal"); } break; case 17: p.op("race %d %d", (int)r.below(5), (int)r.below(2)); break;
    case 18: case 19: case 20: case 21: case 22: p.op("ans %d %s %d", (int)r.below(8), vector<string>{"Y", "Y", "Y", "Yl", "N", "N", "junk"}[r.below(7)].c_str(), (int)r.below(8)); break;
    default: p.op("say %d %s %s %d %d %d", (int)r.below(c), vector<string>{"P", "P", "P", "N", "W", "V"}[r.below(6)].c_str(), tg().c_str(), (int)r.below(12), (int)r.chance(0.05), (int)r.below(3)); if (r.chance(0.05)) p.op("up"); }
}
void run19(const Plan& p) { Spam b(p); b.run(); }
RegProp reg19({"C19", "Spam filter", "Plans: 15-60 operations on one or two servers: spam patterns set, changed and expiring, network configuration, messages of all kinds, answers of the filter of every kind and at any time, and everything that can happen to sender, recipient, channel and filter while a message waits.", "delays, segmentation, loss of the filter's link at any moment, partitions", gen19, run19, 1, "", {}});
}
