// C05 channel access control: a sequential reference model of one channel, checked after every operation on every client.
#include "world.h"
#include "util.h"

namespace {
struct MChan { string name; map<int, Member> mem; set<char> modes; string key; int limit = 0; vector<string> bans; set<string> topics{""}; set<int> invited, maybeInvited; };
struct Run5 {
  const Plan& p; World& w; vector<Client*> c; map<string, MChan> ch; int n; Peer* svc = nullptr; map<int, string> uh, acct; set<int> tls, hide, hidden;
  map<int, size_t> mark; map<int, multiset<string>> exp;   // expected channel events per client
  explicit Run5(const Plan& p) : p(p), w(*W) { n = p.num("n", 1); }
  Client* C(int i) { return i >= 0 && i < (int)c.size() && c[i]->ok() ? c[i] : nullptr; }
  string nick(int i) { return c[i]->nick; }
  vector<string> masksOf(int i) { string u = uh[i].substr(0, uh[i].find('@')), h = uh[i].substr(uh[i].find('@') + 1); vector<string> v{nick(i) + "!" + u + "@" + h}; v.push_back(nick(i) + "!" + u + "@" + c[i]->ip); if (acct.count(i)) v.push_back(nick(i) + "!" + u + "@" + acct[i] + ".users.undernet.org"); return v; }
  bool banned(int i, MChan& m) { for (auto& b : m.bans) for (auto& x : masksOf(i)) if (globm(b, x)) return true; return false; }
  bool canSend(int i, MChan& m) {
    auto it = m.mem.find(i); bool acc = acct.count(i), t = tls.count(i);
    if (it != m.mem.end()) {
      if (it->second.op || it->second.voice) return true;
      if (m.modes.count('m')) return false;
      if ((m.modes.count('M') || m.modes.count('r')) && !acc) return false;
      if (m.modes.count('Z') && !t) return false;
      return !banned(i, m);
    }
    if (m.modes.count('n') || m.modes.count('m')) return false;
    if (m.modes.count('Z') && !t) return false;
    if ((m.modes.count('M') || m.modes.count('r')) && !acc) return false;
    return !banned(i, m);
  }
  void toMembers(MChan& m, const string& ev, int skip = -1) { for (auto& x : m.mem) if (x.first != skip) exp[x.first].insert(ev); }
  void leave(MChan& m, int i) { m.mem.erase(i); if (m.mem.empty()) ch.erase(lower(m.name)); }
  static string strip(const string& s) { return s; }
  // canonical events of one received line
  void canonEv(const Msg& m, multiset<string>& o) {
    string s = lower(m.nick());
    if (m.cmd == "JOIN") o.insert("JOIN " + s + " " + lower(m.arg(0)));
    else if (m.cmd == "PART") o.insert("PART " + s + " " + lower(m.arg(0)) + " " + (m.p.size() > 1 ? m.arg(1) : ""));
    else if (m.cmd == "KICK") o.insert("KICK " + s + " " + lower(m.arg(0)) + " " + lower(m.arg(1)) + " " + m.arg(2));
    else if (m.cmd == "TOPIC") o.insert("TOPIC " + s + " " + lower(m.arg(0)) + " " + m.last());
    else if (m.cmd == "INVITE") o.insert("INVITE " + s + " " + lower(m.arg(0)) + " " + lower(m.arg(1)));
    else if (m.cmd == "NICK") o.insert("NICK " + s + " " + lower(m.last()));
    else if (m.cmd == "QUIT") o.insert("QUIT " + s);
    else if (m.cmd == "PRIVMSG" || m.cmd == "NOTICE") { if (m.arg(0).size() && m.arg(0)[0] == '#') o.insert(m.cmd + " " + s + " " + lower(m.arg(0)) + " " + m.last()); }
    else if (m.cmd == "MODE" && m.arg(0).size() && m.arg(0)[0] == '#') {
      bool fromServer = m.prefix.find('!') == string::npos && m.prefix.find('.') != string::npos;
      ChanView v; v.applyModes(m.p, 1, [&](char x, bool add, const string& a) { if (x == 'z' || x == 'Z') { if (fromServer) return; x = 'Z'; } o.insert(string("MODE ") + s + " " + lower(m.arg(0)) + " " + (add ? "+" : "-") + x + " " + ((x == 'o' || x == 'v') ? lower(a) : a)); });
    }
  }
  void mode(const string& s, MChan& m, char ch_, bool add, const string& arg) { toMembers(m, "MODE " + s + " " + lower(m.name) + " " + (add ? "+" : "-") + ch_ + " " + arg); }
  // performs one operation on the model; returns acceptable error numerics ("" = success without error)
  set<string> model(const vector<string>& a, int i, std::function<string(size_t)> rest) {
    const string& k = a[0]; string nm = a.size() > 2 ? lower(a[2]) : ""; auto it = ch.find(nm); MChan* m = it == ch.end() ? nullptr : &it->second;
    string me = lower(nick(i)); set<string> none{""};
    auto T = [&](size_t x) { return x < a.size() ? atoi(a[x].c_str()) : -1; };
    if (k == "join") {
      string key = a.size() > 3 ? a[3] : "";
      if (m && m->mem.count(i)) return none;
      if (!m) { auto& x = ch[nm]; x.name = a[2]; Member mm; mm.op = true; x.mem[i] = mm; exp[i].insert("JOIN " + me + " " + nm); x.topics = {""}; return none; }
      set<string> err;
      if (!m->invited.count(i)) {
        if (m->modes.count('i')) err.insert("473");
        if (m->limit && (int)m->mem.size() >= m->limit) err.insert("471");
        if (m->modes.count('r') && !acct.count(i)) err.insert("477");
        if (banned(i, *m)) err.insert("474");
        if (m->key.size() && key != m->key) err.insert("475");
        if (m->modes.count('Z') && !tls.count(i)) err.insert("469");
      }
      if (err.size()) { if (m->maybeInvited.count(i)) err.insert("?"); return err; }
      m->mem[i] = Member(); m->invited.erase(i); m->maybeInvited.erase(i); toMembers(*m, "JOIN " + me + " " + nm); return none;
    }
    if (k == "part") {
      if (!m) return {"403"};
      if (!m->mem.count(i)) return {"442"};
      string r = a.size() > 3 ? rest(3) : ""; if (!canSend(i, *m) || m->modes.count('u') || (m->modes.count('c') && r.find('\3') != string::npos)) r = "";
      toMembers(*m, "PART " + me + " " + nm + " " + r); leave(*m, i); return none;
    }
    if (k == "kick") {
      int t = T(3); if (!C(t)) return {"?"};
      if (!m) return {"403"};
      auto q = m->mem.find(i); if (q == m->mem.end() || !q->second.op) return {"482"};
      if (!m->mem.count(t)) return {"441"};
      toMembers(*m, "KICK " + me + " " + nm + " " + lower(nick(t)) + " out"); leave(*m, t); return none;
    }
    if (k == "mode" || k == "omode") {
      if (!m) return {"403"};
      auto q = m->mem.find(i); bool onIt = q != m->mem.end(), op = onIt && q->second.op;
      if (!op) { set<string> e{"482"}; if (!onIt) e.insert("442"); if (a[3] == "+l") e.insert(""); return e; }   // a limit that would change nothing is ignored without complaint
      set<string> errs; string s = me; bool add = true; size_t ai = 4;
      // the server gathers simple flags and applies them at the end; each letter occurs once per line here
      for (char x : a[3]) {
        if (x == '+') add = true; else if (x == '-') add = false;
        else if (x == 'o' || x == 'v') {
          int t = T(ai++); if (!C(t)) { errs.insert("401"); continue; }
          auto z = m->mem.find(t); if (z == m->mem.end()) { errs.insert("441"); continue; }
          bool& f = x == 'o' ? z->second.op : z->second.voice; if (f == add) continue; f = add; mode(s, *m, x, add, lower(nick(t)));
        } else if (x == 'b') {
          string b = ai < a.size() ? mask(a[ai++]) : "";
          if (add) { bool cov = false; for (auto& y : m->bans) if (globm(y, b)) cov = true; if (cov) continue;
            vector<string> kp; for (auto& y : m->bans) if (globm(b, y)) mode(s, *m, 'b', false, y); else kp.push_back(y); m->bans = kp; m->bans.push_back(b); mode(s, *m, 'b', true, b); }
          else { vector<string> kp; for (auto& y : m->bans) if (globm(b, y)) mode(s, *m, 'b', false, y); else kp.push_back(y); m->bans = kp; }
        } else if (x == 'k') {
          string kk = ai < a.size() ? a[ai++] : ""; if (kk.empty()) { errs.insert("461"); continue; }
          if (add ? m->key.size() : lower(m->key) != lower(kk)) { errs.insert("467"); continue; }
          m->key = add ? kk : ""; mode(s, *m, 'k', add, kk);
        } else if (x == 'l') {
          if (add) { int v = ai < a.size() ? atoi(a[ai++].c_str()) : 0; if (v <= 0 || v == m->limit) continue; m->limit = v; mode(s, *m, 'l', true, fmt("%d", v)); }
          else if (m->limit) { m->limit = 0; mode(s, *m, 'l', false, ""); }
        } else {
          if ((bool)m->modes.count(x) == add) continue;
          if (add) { if (x == 's' && m->modes.erase('p')) mode(s, *m, 'p', false, ""); if (x == 'p' && m->modes.erase('s')) mode(s, *m, 's', false, ""); m->modes.insert(x); }
          else { m->modes.erase(x); if (x == 'i') { m->invited.clear(); m->maybeInvited.clear(); } }
          mode(s, *m, x, add, "");
        }
      }
      if (errs.empty()) return none;
      return errs;
    }
    if (k == "invite") {
      int t = T(3); if (!C(t)) return {"?"};
      if (!m) return {"403"};
      auto q = m->mem.find(i); if (q == m->mem.end()) return {"442"};
      if (m->mem.count(t)) return {"443"};
      if (!q->second.op) return {"482"};
      m->invited.insert(t); exp[t].insert("INVITE " + me + " " + lower(nick(t)) + " " + nm); return none;
    }
    if (k == "topic") {
      if (!m) return {"403"};
      auto q = m->mem.find(i); if (q == m->mem.end()) return {"442"};
      if (m->modes.count('t') && !q->second.op) return {"482"};
      if (!canSend(i, *m)) return {"404"};
      string t = rest(3);
      if (m->topics.size() == 1 && *m->topics.begin() == t) exp[i].insert("TOPIC " + me + " " + nm + " " + t);
      else toMembers(*m, "TOPIC " + me + " " + nm + " " + t);
      m->topics = {t}; return none;
    }
    if (k == "msg" || k == "notice") {
      string t = rest(3); if (a.size() > 3 && a[3] == "CTCP") t = "\1VERSION\1"; if (a.size() > 3 && a[3] == "COLOR") t = "a\003" "4b"; if (a.size() > 3 && a[3] == "ACTION") t = "\1ACTION x\1";
      bool pm = k == "msg"; auto no = [&](const char* e) { return pm ? set<string>{e} : none; };
      if (!m) return no("403");
      if (!canSend(i, *m)) return no("404");
      if (m->modes.count('c') && (t.find('\3') != string::npos || t.find('\033') != string::npos)) return {"404"};
      if (m->modes.count('C') && t.find('\1') != string::npos && t.compare(0, 8, "\1ACTION ")) return {"404"};
      toMembers(*m, (pm ? "PRIVMSG " : "NOTICE ") + me + " " + nm + " " + t, i); return none;
    }
    if (k == "nick") {
      for (size_t z = 0; z < c.size(); z++) if ((int)z != i && C(z) && lower(nick(z)) == lower(a[2])) return {"433"};
      if (nick(i) == a[2]) return {"", "437"};
      for (auto& x : ch) { auto q = x.second.mem.find(i); if (q == x.second.mem.end() || q->second.op || q->second.voice) continue;
        if (x.second.modes.count('m') || ((x.second.modes.count('M') || x.second.modes.count('r')) && !acct.count(i)) || banned(i, x.second)) return {"437"}; }
      set<int> see{i}; for (auto& x : ch) if (x.second.mem.count(i)) for (auto& y : x.second.mem) see.insert(y.first);
      for (int s : see) exp[s].insert("NICK " + me + " " + lower(a[2])); return none;
    }
    if (k == "login" || k == "hide") {   // the account is set by services; +x asks for the host to be hidden, which happens once both are there
      if (k == "login") acct[i] = fmt("acc%d", i); else hide.insert(i);
      if (!acct.count(i) || !hide.count(i) || hidden.count(i)) return none;
      hidden.insert(i); set<int> see; for (auto& x : ch) if (x.second.mem.count(i)) for (auto& y : x.second.mem) if (y.first != i) see.insert(y.first);
      for (int s : see) exp[s].insert("QUIT " + me);
      for (auto& x : ch) { auto q = x.second.mem.find(i); if (q == x.second.mem.end()) continue; toMembers(x.second, "JOIN " + me + " " + x.first, i);
        for (char z : string("ov")) if (z == 'o' ? q->second.op : q->second.voice) toMembers(x.second, string("MODE *.undernet.org ") + x.first + " +" + z + " " + me, i); }
      return none;
    }
    if (k == "quit") {
      set<int> see; for (auto& x : ch) if (x.second.mem.count(i)) for (auto& y : x.second.mem) if (y.first != i) see.insert(y.first);
      for (int s : see) exp[s].insert("QUIT " + me);
      drop(i); return none;
    }
    return none;
  }
  void drop(int i) { for (auto x = ch.begin(); x != ch.end();) { auto y = x++; y->second.invited.erase(i); y->second.maybeInvited.erase(i); if (y->second.mem.count(i)) { y->second.mem.erase(i); if (y->second.mem.empty()) ch.erase(y); } } }
  string mask(const string& a) { if (a[0] == '@') { int t = atoi(a.c_str() + 2); char k = a[1]; if (t >= (int)c.size()) t = 0; string u = uh.count(t) ? uh[t] : "x@y"; string us = u.substr(0, u.find('@'));
      if (k == 'n') return lower(nick(t)) + "!*@*"; if (k == 'u') return "*!" + us + "@*"; if (k == 'i') return "*!*@" + c[t]->ip; if (k == 'f') return nick(t) + "!" + u; if (k == 'h') return fmt("*!*@acc%d.users.undernet.org", t); if (k == 'H') return "*!*@*.users.undernet.org"; return "*!*@10.20.*"; } return a; }
  void compareViews(const string& after) {
    for (size_t i = 0; i < c.size(); i++) { if (!C(i)) continue; Client* k = c[i];
      for (auto& x : ch) { bool should = x.second.mem.count(i), is = k->chans.count(x.first); if (should != is) w.fail("chan:membership", fmt("after '%s': %s %s on %s, but by the rules it %s", after.c_str(), k->who().c_str(), is ? "is" : "is not", x.first.c_str(), should ? "should be" : "should not")); }
      for (auto& v : k->chans) if (!ch.count(v.first)) w.fail("chan:membership", "after '" + after + "': " + k->who() + " is on " + v.first + ", which nobody should be on");
      for (auto& x : ch) if (x.second.mem.count(i)) { auto& v = k->chans[x.first]; auto& m = x.second;
        string a, b; for (auto& y : m.mem) if (v.members.count(lower(nick(y.first))) && v.members[lower(nick(y.first))].voiceUnknown) v.members[lower(nick(y.first))].voice = y.second.voice;   // NAMES shows only the highest prefix
        for (auto& y : m.mem) a += lower(nick(y.first)) + (y.second.op ? "@" : "") + (y.second.voice && !y.second.op ? "+" : "") + " ";
        auto srt = [](string s) { auto q = words(s); std::sort(q.begin(), q.end()); return join(q); };
        for (auto& y : v.members) b += y.first + (y.second.op ? "@" : "") + (y.second.voice && !y.second.op ? "+" : "") + " ";
        if (v.namesDone && srt(a) != srt(b)) w.fail("chan:status", "after '" + after + "': " + k->who() + " sees the members of " + x.first + " as [" + srt(b) + "], by the rules they are [" + srt(a) + "]");
        if (!m.topics.count(v.topic)) w.fail("chan:topic", "after '" + after + "': " + k->who() + " sees topic [" + v.topic + "] on " + x.first + " instead of [" + *m.topics.begin() + "]");
      }
    }
  }
  string modeText(MChan& m) { string s; for (char x : m.modes) s += x; if (m.key.size()) s += "k"; if (m.limit) s += "l"; std::sort(s.begin(), s.end()); if (m.key.size()) s += " " + m.key; if (m.limit) s += fmt(" %d", m.limit); return s; }
  void compareServers(const string& after) {
    for (auto& x : ch) { set<int> done; auto mem = x.second.mem;
      for (auto& y : mem) { Client* k = C(y.first); if (!k || done.count(k->node)) continue; done.insert(k->node);
        vector<Msg> o; if (w.query(k, "MODE " + x.first, "329", o) == "dead") continue;
        for (auto& q : o) if (q.cmd == "324") { ChanView v; v.applyModes(q.p, 2); string s; for (char z : v.modes) s += z == 'z' ? 'Z' : z; std::sort(s.begin(), s.end()); if (v.modes.count('k')) s += " " + (v.key == "*" && !x.second.mem[y.first].op ? x.second.key : v.key); if (v.modes.count('l')) s += fmt(" %d", v.limit);
          if (s != modeText(x.second)) w.fail("chan:modes", "after '" + after + "': " + w.name(k->node) + " has modes [" + s + "] on " + x.first + ", by the rules they are [" + modeText(x.second) + "]"); }
        o.clear(); if (w.query(k, "MODE " + x.first + " b", "368", o) == "dead") continue;
        set<string> got, want; for (auto& q : o) if (q.cmd == "367") got.insert(lower(q.arg(2))); for (auto& b : x.second.bans) want.insert(lower(b));
        if (got != want) w.fail("chan:bans", "after '" + after + "': " + w.name(k->node) + " has bans [" + join(vector<string>(got.begin(), got.end())) + "] on " + x.first + ", by the rules [" + join(vector<string>(want.begin(), want.end())) + "]");
        o.clear(); string e = w.query(k, "NAMES " + x.first, "366", o); if (e == "dead") continue;
        set<string> gm, wm; for (auto& q : o) if (q.cmd == "353") for (auto& z : words(q.last())) gm.insert(lower(z));
        for (auto& z : x.second.mem) wm.insert(string(z.second.op ? "@" : z.second.voice ? "+" : "") + lower(nick(z.first)));
        if (gm != wm) w.fail("chan:names", "after '" + after + "': " + w.name(k->node) + " lists [" + join(vector<string>(gm.begin(), gm.end())) + "] on " + x.first + ", by the rules [" + join(vector<string>(wm.begin(), wm.end())) + "]");
      }
    }
  }
  void markAll() { mark.clear(); exp.clear(); for (size_t i = 0; i < c.size(); i++) mark[i] = c[i]->log.size(); }
  void run() {
    for (int i = 0; i < n; i++) { w.addServer("", i ? vector<int>{p.num("shape") ? 0 : i - 1} : vector<int>{}); w.srv[i].tls = p.num("tls"); }
    w.start();
    int nc = p.num("nc", 4);
    for (int i = 0; i < nc; i++) { int port = 6668; if (p.num("tls") && (p.num("tls") >> (i + 1)) & 1) { port = 6697; tls.insert(i); } Client* k = w.client(i % n, fmt("N%d[", i), port); k->mayDie = true; c.push_back(k); }
    if (!w.waitReg(120 * SEC)) w.fail("liveness:register", "clients did not register");
    svc = w.service(0); svc->connect(); if (!w.until([&] { return svc->linked() && svc->gotEA; }, 60 * SEC)) w.fail("harness:svc", "services did not link " + svc->reason);
    for (int i = 0; i < nc; i++) if ((p.num("acct") >> i) & 1) { string u = svc->view.byNick(c[i]->nick); if (u.empty()) continue; svc->send(svc->num + " AC " + u + fmt(" acc%d", i)); acct[i] = fmt("acc%d", i); }
    w.settle(600 * SEC);
    for (int i = 0; i < nc; i++) { vector<Msg> o; w.query(c[i], "USERHOST " + c[i]->nick, "302", o); string s = o.empty() ? "" : o.back().last(); auto q = s.find("=+"); if (q == string::npos) w.fail("harness:uh", s); uh[i] = s.substr(q + 2); while (uh[i].size() && uh[i].back() == ' ') uh[i].pop_back(); }
    // USERHOST shows the real host to oneself
    int opn = 0;
    for (auto& op : p.ops) {
      auto a = words(op); if (a.size() < 2) continue; const string& k = a[0]; w.s.mix(hashstr(op)); opn++;
      auto rest = [&](size_t f) { string r; for (size_t i = f; i < a.size(); i++) r += (i > f ? " " : "") + a[i]; return r; };
      int i = atoi(a[1].c_str());
      if (k == "cycle") { // a link fails and comes back with nothing else happening: the network must end up where it was
        if (n < 2) continue; int x = 1 + i % (n - 1), y = p.num("shape") ? 0 : x - 1;
        rstLink(w, x, y); w.s.runFor(2 * SEC); if (!w.waitLinked(600 * SEC)) w.fail("liveness:relink", "link did not come back"); w.s.runFor(20 * SEC); w.settle(600 * SEC); svc->dead ? (void)0 : (void)0;
        for (auto& z : ch) { for (int q : z.second.invited) z.second.maybeInvited.insert(q); z.second.invited.clear(); }
        coverTransition("cycle"); compareViews(op); compareServers(op); continue; }
      if (k == "rest") { w.s.runFor(130 * SEC); w.settle(600 * SEC); continue; }
      if (!C(i)) continue;
      if (k == "nick") { w.s.runFor(62 * SEC); w.settle(600 * SEC); if (!C(i)) continue; }
      markAll();
      auto save = ch; auto saveAcct = acct;
      set<string> ok = model(a, i, rest);
      if (ok.count("?") && ok.size() == 1) { ch = save; continue; }
      string l, me = c[i]->nick;
      string tn = a.size() > 3 && (k == "kick" || k == "invite") && C(atoi(a[3].c_str())) ? c[atoi(a[3].c_str())]->nick : "";
      if (k == "join") l = "JOIN " + a[2] + (a.size() > 3 ? " " + a[3] : "");
      else if (k == "part") l = "PART " + a[2] + (a.size() > 3 ? " :" + rest(3) : "");
      else if (k == "kick") l = "KICK " + a[2] + " " + tn + " :out";
      else if (k == "invite") l = "INVITE " + tn + " " + a[2];
      else if (k == "topic") l = "TOPIC " + a[2] + " :" + rest(3);
      else if (k == "login") l = "(services log " + me + " in)";
      else if (k == "hide") l = "MODE " + me + " +x";
      else if (k == "nick") l = "NICK " + a[2];
      else if (k == "quit") l = "QUIT :bye";
      else if (k == "msg" || k == "notice") { string t = rest(3); if (a[3] == "CTCP") t = "\1VERSION\1"; if (a[3] == "COLOR") t = "a\003" "4b"; if (a[3] == "ACTION") t = "\1ACTION x\1"; l = (k == "msg" ? "PRIVMSG " : "NOTICE ") + a[2] + " :" + t; }
      else if (k == "mode" || k == "omode") { l = "MODE " + a[2] + " " + a[3]; size_t ai = 4; bool add = true; for (char x : a[3]) { if (x == '+') add = true; else if (x == '-') add = false; else if ((strchr("ovbk", x) || (x == 'l' && add)) && ai < a.size()) { string v = a[ai++]; if (x == 'o' || x == 'v') { int t = atoi(v.c_str()); v = t < (int)c.size() && t >= 0 ? c[t]->nick.size() ? c[t]->nick : "gone" : "gone"; } if (x == 'b') v = mask(v); l += " " + v; } } }
      else continue;
      if (k == "login") { string u = svc->view.byNick(me); if (u.empty() || saveAcct.count(i) || svc->dead) { ch = save; acct = saveAcct; continue; } svc->send(svc->num + " AC " + u + " " + acct[i]); } else c[i]->send(l);
      w.settle(600 * SEC); if (k == "login") w.settle(600 * SEC);
      // what did the actor get told?
      set<string> got; for (auto& m : c[i]->since(mark[i])) if (m.cmd.size() == 3 && m.cmd[0] == '4') got.insert(m.cmd);
      if (got.count("439")) { ch = save; exp.clear(); coverTransition("target-limit"); }       // too many targets: refused, nothing may happen
      else if (k == "quit") { if (c[i]->ok()) w.fail("chan:quit", c[i]->who() + " is still connected after QUIT"); }
      else {
        bool expectErr = !ok.count("");
        if (expectErr && ok.count("?")) { if (got.empty()) { // an invitation of unknown standing let the user in
            ch[lower(a[2])].mem[i] = Member(); ch[lower(a[2])].maybeInvited.erase(i); toMembers(ch[lower(a[2])], "JOIN " + lower(me) + " " + lower(a[2])); ok = {""}; expectErr = false; } }
        if (expectErr && got.empty()) w.fail("chan:accepted", fmt("%s: '%s' must be refused (%s) by the rules, but no error was returned; model: %s", c[i]->who().c_str(), l.c_str(), join(vector<string>(ok.begin(), ok.end()), "/").c_str(), ch.count(lower(a[2])) ? modeText(ch[lower(a[2])]).c_str() : "no such channel"));
        if (!expectErr && ok.size() == 1 && got.size()) w.fail("chan:refused", fmt("%s: '%s' is allowed by the rules but was answered %s", c[i]->who().c_str(), l.c_str(), join(vector<string>(got.begin(), got.end()), "/").c_str()));
        for (auto& g : got) if (!ok.count(g)) w.fail("chan:reason", fmt("%s: '%s' was answered %s, by the rules %s", c[i]->who().c_str(), l.c_str(), g.c_str(), join(vector<string>(ok.begin(), ok.end()), "/").c_str()));
        coverTransition("op " + k + " " + join(vector<string>(got.begin(), got.end())) + (ch.count(lower(a.size() > 2 ? a[2] : "")) ? modeText(ch[lower(a[2])]) : "-") + fmt("%d", (int)(c[i]->node)));
      }
      for (size_t j = 0; j < c.size(); j++) {
        if (!C(j)) continue; multiset<string> ev; for (auto& m : c[j]->since(mark[j])) canonEv(m, ev);
        auto& e = exp[j];
        if (ev != e) { string x; for (auto& q : e) if (ev.count(q) < e.count(q)) x += "[missing: " + q + "]"; for (auto& q : ev) if (ev.count(q) > e.count(q)) x += "[unexpected: " + q + "]"; w.fail("chan:events", fmt("after %s sent '%s', %s was told: ", me.c_str(), l.c_str(), c[j]->who().c_str()) + x); }
      }
      compareViews(l);
      if (opn % 7 == 0) compareServers(l);
    }
    w.stopFaults(); w.settle(600 * SEC);
    compareServers("the end");
  }
};
void gen5(Plan& p, Rng& r) {
  genNetKnobs(p, r, 1); p.knobs.erase("sched");
  int n = r.chance(0.4) ? 1 : 2 + r.below(2); p.set("n", n); p.set("shape", r.below(2)); int nc = 3 + r.below(4); p.set("nc", nc); p.set("acct", r.below(64));
  bool tls = r.chance(0.2); if (tls) p.set("tls", 1 + 2 * r.below(64));
  vector<string> chans{"#a", "#B["}; int nch = 1 + r.below(2);
  static const vector<string> M{"+i", "-i", "+m", "-m", "+n", "-n", "+t", "-t", "+s", "-s", "+p", "-p", "+r", "-r", "+M", "-M", "+c", "-c", "+C", "-C", "+u", "-u", "+k key", "-k key", "+k Other", "+l 2", "+l 3", "-l", "+l 1", "+nt-i", "+ik kk", "+ms", "-kl key", "+im-n", "-k nope", "+l 0"};
  auto ban = [&] { return fmt("@%c%d", "nuifrhH"[r.below(7)], (int)r.below(nc)); };
  int N = 15 + r.below(45);
  for (int i = 0; i < nc; i++) if (r.chance(0.6)) p.op("join %d %s", i, chans[0].c_str());
  for (int i = 0; i < N; i++) {
    int s = r.below(nc), t = r.below(nc); const string& c = chans[r.below(nch)];
    if (r.chance(0.06)) {   // a short story about one rule: something is checked, the facts change, it is checked again
      int o = r.below(2); const char* C0 = c.c_str(); if (t == o) t = (o + 1) % nc; auto again = [&] { p.op("msg %d %s again%d", t, C0, i); if (r.chance(0.4)) p.op("nick %d Q%dx%d", t, t, i % 10); if (r.chance(0.3)) { p.op("part %d %s", t, C0); p.op("join %d %s", t, C0); } };
      p.op("join %d %s", o, C0); p.op("join %d %s", t, C0);
      switch (r.below(7)) {
        case 0: p.op("mode %d %s +b @%c%d", o, C0, "hHhr"[r.below(4)], t); again(); p.op("%s %d x", r.chance(0.7) ? "login" : "hide", t); again(); break;
        case 1: p.op("mode %d %s +b @%c%d", o, C0, "nuif"[r.below(4)], t); again(); p.op("mode %d %s -b @%c%d", o, C0, "nuif"[r.below(4)], t); again(); break;
        case 2: p.op("invite %d %s %d", o, C0, t); p.op("part %d %s", t, C0); p.op("invite %d %s %d", o, C0, t); p.op("join %d %s", t, C0); p.op("part %d %s", t, C0); p.op("mode %d %s +i", o, C0); p.op("join %d %s", t, C0); break;
        case 3: p.op("mode %d %s +%c", o, C0, "mMr"[r.below(3)]); again(); p.op("omode %d %s %s %d", o, C0, r.chance(0.5) ? "+v" : "+o", t); again(); p.op("omode %d %s %s %d", o, C0, r.chance(0.5) ? "-v" : "-o", t); again(); break;
        case 4: p.op("mode %d %s +%c", o, C0, "Mr"[r.below(2)]); p.op("part %d %s", t, C0); p.op("login %d x", t); p.op("join %d %s", t, C0); again(); break;
        case 5: p.op("part %d %s", t, C0); p.op("mode %d %s +k key", o, C0); p.op("mode %d %s +l 2", o, C0); p.op("join %d %s key", t, C0); p.op("part %d %s", t, C0); p.op("mode %d %s -k key", o, C0); p.op("join %d %s", t, C0); break;
        case 6: p.op("part %d %s", t, C0); p.op("invite %d %s %d", o, C0, t); p.op("mode %d %s %s", o, C0, r.pick(vector<string>{"+i", "+l 1", "+k key", "+r"}).c_str()); p.op("nick %d R%dx%d", t, t, i % 10); p.op("join %d %s", t, C0); p.op("kick %d %s %d", o, C0, t); p.op("join %d %s", t, C0); break;
      }
      continue;
    }
    switch (r.below(26)) {
      case 0: case 1: case 2: case 3: p.op("join %d %s%s", s, c.c_str(), r.chance(0.3) ? (" " + r.pick(vector<string>{"key", "Other", "kk", "KEY"})).c_str() : ""); break;
      case 4: p.op("part %d %s%s", s, c.c_str(), r.chance(0.6) ? (r.chance(0.3) ? " col\003our" : " see you") : ""); break;
      case 5: p.op("kick %d %s %d", s, c.c_str(), t); break;
      case 6: case 7: case 8: case 9: case 10: { string m = r.pick(M); if (tls && r.chance(0.15)) m = r.chance(0.7) ? "+Z" : "-Z"; p.op("mode %d %s %s", s, c.c_str(), m.c_str()); break; }
      case 11: case 12: p.op("mode %d %s %s %s", s, c.c_str(), r.chance(0.7) ? "+b" : "-b", ban().c_str()); break;
      case 13: case 14: case 15: p.op("omode %d %s %s %d", s, c.c_str(), r.pick(vector<string>{"+o", "-o", "+v", "-v", "+o", "+v"}).c_str(), t); break;
      case 16: p.op("mode %d %s +ov-v %d %d %d", s, c.c_str(), t, (int)((t + 1) % nc), (int)((t + 2) % nc)); break;
      case 17: case 18: p.op("invite %d %s %d", s, c.c_str(), t); break;
      case 19: p.op("topic %d %s topic %d", s, c.c_str(), (int)r.below(3)); break;
      case 20: case 21: case 22: p.op("%s %d %s %s", r.chance(0.8) ? "msg" : "notice", s, c.c_str(), r.pick(vector<string>{"hello there", "CTCP", "COLOR", "ACTION", "x"}).c_str()); break;
      case 23: if (r.chance(0.4)) p.op("nick %d N%d%c", s, s, "[xyz"[r.below(4)]); else if (r.chance(0.6)) p.op("%s %d x", r.chance(0.5) ? "login" : "hide", s); else p.op("rest 0"); break;
      case 24: if (r.chance(0.15)) p.op("quit %d", s); else p.op("msg %d %s m%d", s, c.c_str(), i); break;
      case 25: if (n > 1 && r.chance(0.5)) p.op("cycle %d", (int)r.below(n)); break;
    }
  }
}
void run5(const Plan& p) { Run5 r(p); r.run(); }
RegProp r5({"C05", "Channel rules", "", "", gen5, run5, 1, "", {}});
}
