// C26: operator status and privileges.
#include "chaos.h"
#include "util.h"
namespace {
const vector<string> PN = {"CHAN_LIMIT", "MODE_LCHAN", "WALK_LCHAN", "DEOP_LCHAN", "SHOW_INVIS", "SHOW_ALL_INVIS", "UNLIMIT_QUERY", "KILL", "LOCAL_KILL", "REHASH", "RESTART", "DIE", "GLINE", "LOCAL_GLINE", "JUPE", "LOCAL_JUPE", "OPMODE", "LOCAL_OPMODE", "SET", "WHOX", "BADCHAN", "LOCAL_BADCHAN", "SEE_CHAN", "PROPAGATE", "DISPLAY", "SEE_OPERS", "WIDE_GLINE", "LIST_CHAN", "FORCE_OPMODE", "FORCE_LOCAL_OPMODE", "APASS_OPMODE"};
const set<string> NOTGLOBAL = {"WALK_LCHAN", "SET", "BADCHAN", "LOCAL_BADCHAN", "APASS_OPMODE"};
const set<string> LOCALDEF = {"CHAN_LIMIT", "MODE_LCHAN", "SHOW_INVIS", "SHOW_ALL_INVIS", "LOCAL_KILL", "REHASH", "LOCAL_GLINE", "LOCAL_JUPE", "LOCAL_OPMODE", "WHOX", "DISPLAY", "FORCE_LOCAL_OPMODE"};
typedef map<string, bool> Priv;
Priv parseP(const string& s) { Priv m; if (s.empty()) return m; for (auto& x : splitBy(s, ',')) { auto v = splitBy(x, '='); if (v.size() == 2) m[v[0]] = v[1] == "1"; } return m; }
string confP(const Priv& m) { string o; for (auto& x : m) o += x.first == "PROPAGATE" ? fmt(" local = %s;", x.second ? "no" : "yes") : fmt(" %s = %s;", lower(x.first).c_str(), x.second ? "yes" : "no"); return o; }
set<string> effective(const Priv* op, const Priv* cls) {
  bool glob = op && op->count("PROPAGATE") ? op->at("PROPAGATE") : cls && cls->count("PROPAGATE") ? cls->at("PROPAGATE") : true; set<string> r;
  for (auto& n : PN) { bool d = n == "PROPAGATE" ? glob : glob ? !NOTGLOBAL.count(n) : LOCALDEF.count(n); if (op && op->count(n)) d = op->at(n); else if (cls && cls->count(n)) d = cls->at(n); if (d) r.insert(n); }
  if (r.count("PROPAGATE")) r.insert("DISPLAY"); else for (auto n : {"KILL", "GLINE", "JUPE", "OPMODE", "BADCHAN"}) r.erase(n);
  return r;
}
struct Oper {
  struct Slot { Client* c = nullptr; int oper = 0; set<string> pv; set<string> ch; };   // oper: 0 no, 1 local, 2 global
  struct OB { string name, pass; vector<string> masks; Priv pv; int cls; };
  const Plan& p; World& w; int n; map<int, Slot> sl; vector<OB> ob; vector<Priv> kl; bool remote = false, svcOper = true; Priv rem; Peer *svc = nullptr, *f0 = nullptr; vector<Client*> wit, plain, hid; map<int, Client*> vic; int vseq = 0, seq = 0; map<string, set<char>> modes; map<int, int> siles; size_t fcur = 0; bool gone = false;
  Oper(const Plan& p) : p(p), w(*W), n(p.num("n", 1)) {}
  void rest() { w.settle(); }
  bool has(Slot& s, const string& x) { return s.oper && s.pv.count(x); }
  vector<Msg> cmd(Slot& s, const string& l) { size_t m = s.c->log.size(); s.c->send(l); rest(); return vector<Msg>(s.c->log.begin() + std::min(m, s.c->log.size()), s.c->log.end()); }
  static bool num(const vector<Msg>& v, const string& c) { for (auto& m : v) if (m.cmd == c) return true; return false; }
  string desc(Slot& s) { return s.c->who() + (s.oper == 0 ? " (no operator)" : s.oper == 1 ? " (local operator)" : " (operator)"); }
  // a command that needs a privilege: 481 exactly without it
  bool gate(Slot& s, const vector<Msg>& r, bool may, const string& what, const string& line) {
    if (s.c->dead) w.fail("client:lost", s.c->who() + " was disconnected: " + s.c->reason);
    bool refused = num(r, "481"); if (refused == may) w.fail("oper:gate", desc(s) + (may ? " was refused '" + line + "' although it holds " + what : " was not refused '" + line + "' although it does not hold " + what));
    coverTransition(words(line)[0] + fmt(" %d %d ", s.oper, may) + what); return may;
  }
  bool modeOn(const string& ch, char m) { Client* o = nullptr; for (auto c : wit) if (c->chans.count(ch)) { bool on = c->chans[ch].modes.count(m); if (!o) o = c; else if (on != (bool)o->chans[ch].modes.count(m)) w.fail("oper:chan", "members on different servers disagree about the modes of " + ch); } if (!o) w.fail("harness:chan", ch); return o->chans[ch].modes.count(m); }
  struct ZS { set<char> modes; string key, limit; set<string> bans; map<string, string> mem; bool operator==(const ZS& o) const { return modes == o.modes && key == o.key && limit == o.limit && bans == o.bans && mem == o.mem; } };
  static string zstr(const ZS& z) { string o = "+" + string(z.modes.begin(), z.modes.end()) + " k=" + z.key + " l=" + z.limit + " bans:"; for (auto& b : z.bans) o += " " + b; o += " members:"; for (auto& m : z.mem) o += " " + m.second + m.first; return o; }
  static string zdiff(const ZS& a, const ZS& b) { return "the channel is {" + zstr(a) + "} and should be {" + zstr(b) + "}"; }
  ZS zstate(Client* c, const string& ch) {
    ZS z; vector<Msg> out; w.query(c, "MODE " + ch, "324", out); for (auto& m : out) if (m.cmd == "324") { size_t q = 3; for (char x : m.p[2]) if (x != '+') { z.modes.insert(x); if (x == 'k' && q < m.p.size()) z.key = m.p[q++]; else if (x == 'l' && q < m.p.size()) z.limit = m.p[q++]; } }
    w.query(c, "MODE " + ch + " +b", "368", out); for (auto& m : out) if (m.cmd == "367") z.bans.insert(m.p[2]); w.query(c, "NAMES " + ch, "366", out); for (auto& m : out) if (m.cmd == "353") for (auto& t : words(m.last())) { size_t i = t.find_first_not_of("@+"); string nk = t.substr(i); bool at = t.find('@') != string::npos, v = t.find('+') != string::npos; z.mem[nk] = string(at ? "@" : "") + (v ? "+" : ""); }
    return z;
  }
  void checkModes(const string& why) { for (auto& x : modes) for (char m : string("smntpi")) if (modeOn(x.first, m) != (bool)x.second.count(m)) w.fail("oper:effect", x.first + fmt(" %s mode %c after ", modeOn(x.first, m) ? "has" : "does not have", m) + why); }
  void alive(const string& why) { for (auto& x : sl) if (x.second.c && x.second.c->dead) w.fail("client:lost", x.second.c->who() + " was disconnected after " + why + ": " + x.second.c->reason); for (auto c : wit) if (c->dead) w.fail("client:lost", c->who() + " after " + why); for (auto& v : vic) if (v.second->dead) w.fail("oper:effect", v.second->who() + " was removed by " + why + ": " + v.second->reason); }
  void status(Slot& s, const string& why) {   // what the user and the network know
    if (s.c->dead) return; bool o = s.c->umodes.find('o') != string::npos, O = s.c->umodes.find('O') != string::npos;
    if (o != (s.oper == 2) || O != (s.oper == 1)) w.fail("oper:status", s.c->who() + " has modes '" + s.c->umodes + "' after " + why + fmt(" where the rules make it %s", s.oper == 2 ? "an operator" : s.oper ? "a local operator" : "no operator"));
    for (auto pr : {svc, f0}) { string nn = pr->view.byNick(s.c->nick); if (nn.empty()) w.fail("oper:status", pr->name + " does not know " + s.c->nick); if (pr->view.users[nn].modes.count('o') != (s.oper == 2)) w.fail("oper:status", pr->name + " believes " + s.c->who() + (s.oper == 2 ? " is no operator after " : " is an operator after ") + why); }
  }
  Client* victim(int i, int node) {
    if (vic.count(i) && !vic[i]->dead) return vic[i];
    Client* c = w.mk(node, fmt("v%d", ++vseq), 6668); c->mayDie = true; c->connect(); if (!w.until([&] { return c->registered || c->dead; }, 30 * SEC) || c->dead) w.fail("harness:victim", c->reason); rest(); vic[i] = c; return c;
  }
  bool listed(Client* q, const string& query, const string& item, int arg) { vector<Msg> out; w.query(q, query, query == "JUPE" ? "283" : "281", out); for (auto& m : out) if ((m.cmd == "280" || m.cmd == "282") && m.arg(arg) == item) return true; return false; }
  void op(const string& o) {
    auto a = words(o); w.s.mix(hashstr(o)); string k = a[0]; int si = a.size() > 1 ? atoi(a[1].c_str()) : 0; if (gone) return;
    if (k == "cl") { auto& s = sl[si]; if (s.c && !s.c->dead) { s.c->send("QUIT :bye"); s.c->mayDie = true; rest(); } s = Slot(); s.c = w.mk(atoi(a[2].c_str()) % n, fmt("u%d", si), 6668, fmt("10.60.%d.%d", atoi(a[4].c_str()), si + 1)); s.c->user = a[3]; s.c->connect(); w.until([&] { return s.c->registered || s.c->dead; }, 60 * SEC); if (!s.c->ok()) { if (s.c->log.size() && num(s.c->log, "433")) { rest(); } w.fail("harness:slot", s.c->reason); } rest(); status(s, "registering"); return; }
    if (!sl.count(si) || !sl[si].c || sl[si].c->dead) return; auto& s = sl[si]; Client* c = s.c; int node = c->node; alive("nothing");
    if (k == "oper") {   // oper S NAME PASS
      auto r = cmd(s, "OPER " + a[2] + " " + a[3]); const OB* b = nullptr; for (auto& x : ob) if (lower(x.name) == lower(a[2])) b = &x;
      string want; bool host = false; if (b) for (auto& m : b->masks) { auto at = splitBy(m, '@'); if (globm(at[0], "") && globm(at[1], c->ip)) host = true; }
      if (s.oper) want = "381"; else if (!b || !host) want = "491"; else if (b->pass != a[3]) want = "464"; else { want = "381"; s.pv = effective(&b->pv, &kl[b->cls]); s.oper = s.pv.count("PROPAGATE") ? 2 : 1; }
      string got; for (auto& m : r) if (m.cmd == "381" || m.cmd == "491" || m.cmd == "464" || m.cmd == "481") got += m.cmd; if (got != want) w.fail("oper:login", c->who() + "'s '" + o + "' was answered " + got + " instead of " + want);
      status(s, "OPER"); coverTransition("oper " + want + fmt("%d", s.oper)); return;
    }
    if (k == "um") { string was = c->umodes; cmd(s, "MODE " + c->nick + " " + a[2]); { bool o = s.oper == 2, O = s.oper == 1, o0 = o, O0 = O, add = true; for (char ch : a[2]) if (ch == '+' || ch == '-') add = ch == '+'; else if (ch != 'o' && ch != 'O') ; else if (!add) o = O = false; else if (ch == 'o') o = true; else if (ch == 'O') O = true; o = o && o0; O = O && O0; s.oper = o ? 2 : O ? 1 : 0; if (!s.oper) s.pv.clear(); } status(s, "MODE " + a[2]); coverTransition("um " + a[2]); return; }
    if (k == "nick") { c->send(fmt("NICK u%d%s", si, a[2] == "0" ? "" : a[2].c_str())); rest(); w.s.runFor(31 * SEC); rest(); status(s, "NICK"); return; }
    if (k == "svc") {   // svc S +o|-o  WHO(svc|f0)
      Peer* pr = a[3] == "svc" ? svc : f0; string nn = pr->view.byNick(c->nick); if (nn.empty()) w.fail("harness:svc", "unknown nick"); bool may = a[3] == "svc" && svcOper;
      pr->send(pr->num + " OM " + nn + " " + a[2]); rest(); if (pr->dead) w.fail("harness:svc", pr->reason);
      if (may && a[2] == "+o" && s.oper != 2) { s.oper = 2; s.pv = effective(nullptr, remote ? &rem : nullptr); } else if (may && a[2] == "-o" && s.oper == 2) { s.oper = 0; s.pv.clear(); }
      status(s, "OPMODE " + a[2] + " from " + pr->name); coverTransition("svc " + a[2] + a[3] + fmt("%d", s.oper)); return;
    }
    if (k == "privs") {   // privs S ASKED
      int t = atoi(a[2].c_str()); if (!sl.count(t) || !sl[t].c || sl[t].c->dead) return; auto r = cmd(s, "PRIVS " + sl[t].c->nick); if (!gate(s, r, s.oper, "operator status", "PRIVS")) return;
      bool f = false; for (auto& m : r) if (m.cmd == "270") { f = true; set<string> g; for (auto& x : words(m.last())) g.insert(x); set<string> e = sl[t].pv; if (!sl[t].oper) e.clear(); if (g != e) { string d; for (auto& x : g) if (!e.count(x)) d += " +" + x; for (auto& x : e) if (!g.count(x)) d += " -" + x; w.fail("oper:privs", sl[t].c->who() + " holds other privileges than configured:" + d); } }
      if (!f) w.fail("oper:privs", "PRIVS was not answered"); return;
    }
    if (k == "kill") {   // kill S KIND
      string kind = a[2]; bool local = true; string tgt; Client* v = nullptr;
      if (kind == "loc") { v = victim(node, node); tgt = v->nick; } else if (kind == "rem") { if (n < 2) return; int o2 = (node + 1) % n; v = victim(o2, o2); tgt = v->nick; local = false; }
      else if (kind == "old") { v = victim(node, node); tgt = v->nick; v->send("NICK " + fmt("v%d", ++vseq)); rest(); }
      else if (kind == "oldrem") { if (n < 2) return; int o2 = (node + 1) % n; v = victim(o2, o2); tgt = v->nick; v->send("NICK " + fmt("v%d", ++vseq)); rest(); local = false; }
      else if (kind == "srv") { tgt = "f0.sim.net"; local = node == 0; } else if (kind == "me") tgt = w.name(node); else if (kind == "k") { tgt = "ServK"; local = false; } else tgt = "nobody";
      auto r = cmd(s, "KILL " + tgt + " :because"); bool may = s.oper && (kind == "none" || has(s, local ? "LOCAL_KILL" : "KILL")); gate(s, r, may, local ? "LOCAL_KILL" : "KILL", "KILL " + kind);
      if (may && kind == "none" && !num(r, "401")) w.fail("oper:gate", "KILL of nobody was not answered 401"); if (may && (kind == "srv" || kind == "me") && !num(r, "483")) w.fail("oper:gate", "KILL of a server was not answered 483"); if (may && kind == "k" && !num(r, "484")) w.fail("oper:gate", "KILL of a service was not answered 484");
      if (v) { if (may != v->dead) w.fail("oper:effect", v->who() + (may ? " survived " : " was removed by ") + "KILL of " + desc(s)); for (auto pr : {svc, f0}) if ((pr->view.byNick(v->nick) != "") == may) w.fail("oper:effect", pr->name + (may ? " still knows the killed " : " lost ") + v->nick); if (may) vic.erase(v->node); }
      for (auto pr : {svc, f0}) if (pr->dead) w.fail("oper:effect", pr->name + " was removed by a KILL"); if (f0->view.byNick("ServK").empty()) w.fail("oper:effect", "a KILL removed the service's user"); alive("KILL"); return;
    }
    if (k == "opm" || k == "clr") {   // opm S !|- CHAN MODE
      bool force = a[2] == "!"; string ch = a[3]; char m = a[4][0]; bool loc = ch[0] == '&'; if (loc && node != 0) ch += "x"; if (loc && node) return;
      bool on = modes[ch].count(m); string line = k == "opm" ? "OPMODE " + string(force ? "!" : "") + ch + (on ? " -" : " +") + m : "CLEARMODE " + string(force ? "!" : "") + ch + " " + m;
      auto r = cmd(s, line); bool may = has(s, loc ? "LOCAL_OPMODE" : "OPMODE") && (!force || has(s, loc ? "FORCE_LOCAL_OPMODE" : "FORCE_OPMODE"));
      if (gate(s, r, may, string(loc ? "LOCAL_OPMODE" : "OPMODE") + (force ? " and the right to force it" : ""), line)) { bool q = ch[1] == 'q' && !force; if (q != num(r, "524")) w.fail("oper:quarantine", desc(s) + "'s '" + line + "' was " + (q ? "not " : "") + "refused for a quarantine"); if (!q) { if (k == "opm" && !on) { modes[ch].insert(m); if (m == 's') modes[ch].erase('p'); if (m == 'p') modes[ch].erase('s'); } else modes[ch].erase(m); } }
      checkModes("'" + line + "' of " + desc(s)); return;
    }
    if (k == "clx" || k == "opx") {   // CLEARMODE of everything, OPMODE of members, keys and bans
      bool force = a[2] == "!"; string ch = a[3] == "z" ? "#z" : "#qz"; string letters = a.size() > 4 ? a[4] : ""; string nums, hums; for (auto x : wit) nums += " " + svc->view.byNick(x->nick); for (auto x : hid) hums += " " + svc->view.byNick(x->nick); string nv = string(hid.size(), 'v'), no = string(wit.size(), 'o');
      svc->send(svc->num + " M " + ch + " -b *!*@bad.three"); rest(); svc->send(svc->num + " M " + ch + " +smtinl 50"); svc->send(svc->num + " M " + ch + " +k key"); svc->send(svc->num + " M " + ch + " +bb *!*@bad.one *!*@bad.two"); svc->send(svc->num + " M " + ch + " +" + no + nums); svc->send(svc->num + " M " + ch + " +" + nv + hums); bool wv = w.rng.chance(0.5); if (wv) svc->send(svc->num + " M " + ch + " +" + string(wit.size(), 'v') + nums); else svc->send(svc->num + " M " + ch + " -" + string(wit.size(), 'v') + nums); rest();
      ZS b0 = zstate(wit[0], ch), want = b0; for (auto x : wit) if (!(zstate(x, ch) == b0)) w.fail("harness:clear", zdiff(zstate(x, ch), b0)); if (b0.modes.size() != 7 || b0.bans.size() != 2 || b0.key != "key" || b0.limit != "50") w.fail("harness:clear", ch + " could not be set up");
      if (wv) for (auto x : wit) want.mem[x->nick] = "@+"; string line; if (k == "clx") { line = "CLEARMODE " + string(force ? "!" : "") + ch + (letters.empty() ? "" : " " + letters); if (letters.empty()) letters = "ovpsmikbl"; for (char l : letters) { if (l == 'o' || l == 'v') { for (auto& m : want.mem) { string t; for (char q : m.second) if (q != (l == 'o' ? '@' : '+')) t += q; m.second = t; } } else if (l == 'b') want.bans.clear(); else want.modes.erase(l); if (l == 'k') want.key = ""; if (l == 'l') want.limit = ""; } }
      else { char l = letters[0]; string t = (l == 'v' ? hid : wit)[atoi(letters.c_str() + 1) % n]->nick; line = "OPMODE " + string(force ? "!" : "") + ch; if (l == 'b') { line += " -b+b *!*@bad.one *!*@bad.three"; want.bans = {"*!*@bad.two", "*!*@bad.three"}; } else if (l == 'k') { line += " -k+l key 7"; want.modes.erase('k'); want.key = ""; want.limit = "7"; } else { line += fmt(" -%c+t ", l) + t; string q; for (char z : want.mem[t]) if (z != (l == 'o' ? '@' : '+')) q += z; want.mem[t] = q; } }
      auto r = cmd(s, line); bool may = has(s, "OPMODE") && (!force || has(s, "FORCE_OPMODE")); if (!gate(s, r, may, string("OPMODE") + (force ? " and the right to force it" : ""), line) || (ch[1] == 'q' && !force)) want = b0; for (auto& m : want.mem) if (m.second == "@+") m.second = "@";
      for (auto x : wit) { ZS g = zstate(x, ch); if (g.key == "*" && want.key.size()) g.key = want.key; if (!(g == want)) w.fail("oper:effect", "on " + w.name(x->node) + " after '" + line + "' of " + desc(s) + ": " + zdiff(g, want)); } coverTransition(k + (k == "opx" ? letters.substr(0, 1) : fmt("%d", (int)letters.size()))); return;
    }
    if (k == "mlc") { if (node || s.ch.count("&b")) return; string ch = "&b"; bool on = modes[ch].count('t'); auto r = cmd(s, fmt("MODE &b %ct", on ? '-' : '+')); bool may = has(s, "MODE_LCHAN"); if (may) { if (on) modes[ch].erase('t'); else modes[ch].insert('t'); } else if (!num(r, "442") && !num(r, "482")) w.fail("oper:gate", desc(s) + "'s MODE on a channel it is not on was not refused"); checkModes("MODE of " + desc(s)); coverTransition(fmt("mlc %d", may)); return; }
    if (k == "set" || k == "reset") { bool may = has(s, "SET"); auto r = cmd(s, k == "set" ? "SET MAXSILES " + a[2] : string("RESET MAXSILES")); if (gate(s, r, may, "SET", k)) siles[node] = k == "set" ? atoi(a[2].c_str()) : 25; vector<Msg> out; size_t m0 = wit[node]->log.size(); wit[node]->send("GET MAXSILES"); rest(); string v; for (size_t i = m0; i < wit[node]->log.size(); i++) if (wit[node]->log[i].cmd == "284") v = words(wit[node]->log[i].last()).back(); if (v != std::to_string(siles[node])) w.fail("oper:effect", "MAXSILES is " + v + fmt(" instead of %d after %s of ", siles[node], k.c_str()) + desc(s)); return; }
    if (k == "rehash") { auto r = cmd(s, a.size() > 2 ? "REHASH " + a[2] : string("REHASH")); if (gate(s, r, has(s, "REHASH"), "REHASH", "REHASH") && !num(r, "382")) w.fail("oper:gate", "REHASH was not answered"); if (a.size() == 2 && has(s, "REHASH")) siles[node] = 15; return; }
    if (k == "join") {   // channel limit is 6
      string l; for (int i = 0; i < 9; i++) l += fmt("%s#c%d", i ? "," : "", i); int have = s.ch.size(); auto r = cmd(s, "JOIN " + l); int want = has(s, "CHAN_LIMIT") ? 9 : std::max(0, 6 - have); int cnt = 0; for (int i = 0; i < 9; i++) if (c->chans.count(fmt("#c%d", i))) cnt++;
      bool t = num(r, "437") || num(r, "439"); if (cnt != want && !(t && cnt < want)) w.fail("oper:effect", desc(s) + fmt(" is on %d of the channels instead of %d after joining 9 with %d others", cnt, want, have)); if (!t && num(r, "405") != (want < 9)) w.fail("oper:gate", "wrong reply to a JOIN beyond the limit"); cmd(s, "JOIN 0"); s.ch.clear(); coverTransition(fmt("join %d", want)); return;
    }
    if (k == "walk") {   // walk S CHAN   (&i invite only, &b open)
      if (node) return; string ch = a[2]; if (s.ch.count(ch)) return; auto r = cmd(s, "JOIN " + ch + " OVERRIDE"); bool inv = modes[ch].count('i'), may = has(s, "WALK_LCHAN"), in = c->chans.count(ch); if (num(r, "439") || num(r, "437")) return; bool want = inv ? may : !may;
      if (in != want) w.fail("oper:effect", desc(s) + (in ? " joined " : " did not join ") + ch + " (" + (inv ? "invite only" : "open") + ") with OVERRIDE, " + (may ? "holding" : "without") + " WALK_LCHAN"); if (in) { cmd(s, "PART " + ch); } coverTransition(fmt("walk %d %d", may, inv)); return;
    }
    if (k == "dlc") {    // kicked from or deopped on a local channel
      if (node || modes["&b"].count('i')) return; auto r = cmd(s, "JOIN &b"); if (!c->chans.count("&b")) { if (num(r, "439") || num(r, "437")) return; w.fail("harness:join", c->who() + " &b"); } bool may = has(s, "DEOP_LCHAN"); Client* o = wit[0]; o->send("MODE &b +o " + c->nick); rest(); size_t m0 = o->log.size();
      o->send("MODE &b -o " + c->nick); rest(); bool op = c->chans["&b"].members[c->nick].op; if (!c->chans["&b"].members.count(c->nick)) w.fail("harness:dlc", "member"); if (op != may) w.fail("oper:effect", desc(s) + (op ? " kept" : " lost") + " its channel operator status on a local channel, " + (may ? "holding" : "without") + " DEOP_LCHAN");
      o->send("KICK &b " + c->nick + " :out"); rest(); bool in = c->chans.count("&b"); if (in != may) w.fail("oper:effect", desc(s) + (in ? " could not" : " could") + " be kicked from a local channel, " + (may ? "holding" : "without") + " DEOP_LCHAN"); if (in) cmd(s, "PART &b"); bool e = false; for (size_t i = m0; i < o->log.size(); i++) if (o->log[i].cmd == "498") e = true; if (e != may) w.fail("oper:gate", "wrong reply to a deop on a local channel"); coverTransition(fmt("dlc %d", may)); return;
    }
    if (k == "who") { auto r = cmd(s, "WHO hid* x"); set<string> g; for (auto& m : r) if (m.cmd == "352") g.insert(m.arg(5)); for (size_t i = 0; i < hid.size(); i++) { bool e = has(s, "WHOX") && (has(s, "SHOW_ALL_INVIS") || (has(s, "SHOW_INVIS") && hid[i]->node == node)); if (e != (bool)g.count(hid[i]->nick)) w.fail("oper:see", desc(s) + (e ? " does not see" : " sees") + " the invisible " + hid[i]->who()); }
      r = cmd(s, "WHO #s x"); bool sc = false; for (auto& m : r) if (m.cmd == "352") sc = true; bool e = has(s, "WHOX") && has(s, "SEE_CHAN"); if (e != sc) w.fail("oper:see", desc(s) + (e ? " does not see" : " sees") + " the members of a secret channel"); coverTransition(fmt("who %d", e)); return; }
    if (k == "list") { auto r = cmd(s, "LIST S"); bool f = false; for (auto& m : r) if (m.cmd == "322" && m.arg(1) == "#s") f = true; bool e = has(s, "LIST_CHAN"); if (f != e) w.fail("oper:see", desc(s) + (e ? " does not see" : " sees") + " a secret channel in LIST"); r = cmd(s, "LIST #s"); f = num(r, "322"); if (f != e) w.fail("oper:see", desc(s) + (e ? " does not see" : " sees") + " a secret channel in LIST #s"); coverTransition(fmt("list %d", e)); return; }
    if (k == "whois") { int t = atoi(a[2].c_str()); if (!sl.count(t) || !sl[t].c || sl[t].c->dead || t == si) return; auto& y = sl[t]; auto r = cmd(s, "WHOIS " + y.c->nick); bool e = y.c->node == node ? y.oper && (has(y, "DISPLAY") || has(s, "SEE_OPERS")) : y.oper == 2; if (num(r, "313") != e) w.fail("oper:see", desc(s) + (e ? " does not see that " : " sees that ") + desc(y) + " is an operator"); coverTransition(fmt("whois %d", e)); return; }
    if (k == "wall") { string t = fmt("w%d", ++seq); auto r = cmd(s, a[2] + " :" + t); gate(s, r, s.oper, "operator status", a[2]); for (auto x : wit) { int cnt = 0; for (auto& m : x->log) if (m.cmd == "WALLOPS" && m.last().find(t) != string::npos && m.last().size() - m.last().find(t) == t.size()) cnt++; if (cnt != (s.oper ? 1 : 0)) w.fail("oper:effect", x->who() + fmt(" received %d copies of ", cnt) + a[2] + " of " + desc(s)); } return; }
    if (k == "mass") { string t = fmt("m%d", ++seq); auto r = cmd(s, a[2] + " $*.sim.net :" + t); for (auto x : wit) { int cnt = 0; for (auto& m : x->log) if (m.cmd == a[2] && m.last() == t) cnt++; if (cnt != (s.oper == 2 || (s.oper && x->node == node) ? 1 : 0)) w.fail("oper:effect", x->who() + fmt(" received %d copies of a mass message of ", cnt) + desc(s)); } coverTransition(fmt("mass %d", s.oper)); return; }
    if (k == "gl") {   // gl S KIND   loc/glob user, chan
      string kind = a[2]; string mask = kind == "chanl" || kind == "chang" ? fmt("#bad%d", seq + 1) : fmt("*@10.99.%d.%d", (seq + 1) / 250, (seq + 1) % 250); seq++; bool glob = kind == "glob" || kind == "chang", ch = mask[0] == '#'; bool may = glob ? has(s, "GLINE") && (!ch || has(s, "BADCHAN")) : has(s, "LOCAL_GLINE") && (!ch || has(s, "LOCAL_BADCHAN"));
      string line = "GLINE +" + mask + (glob ? " *" : " " + w.name(node)) + " 3000 :r"; auto r = cmd(s, line); if (s.oper) gate(s, r, may, glob ? "GLINE/BADCHAN" : "LOCAL_GLINE/LOCAL_BADCHAN", line);
      for (int i = 0; i < n; i++) { bool e = may && (glob || i == node), g = listed(wit[i], "GLINE", mask, 1); if (e != g) w.fail("oper:effect", fmt("s%d has ", i) + (g ? "" : "no ") + "G-line " + mask + " after '" + line + "' of " + desc(s)); } return;
    }
    if (k == "ju") { string name = fmt("j%d.bad.net", ++seq); bool glob = a[2] == "glob"; bool may = has(s, glob ? "JUPE" : "LOCAL_JUPE"); string line = "JUPE +" + name + (glob ? " *" : "") + " 3000 :r"; auto r = cmd(s, line); gate(s, r, may, glob ? "JUPE" : "LOCAL_JUPE", line); for (int i = 0; i < n; i++) { bool e = may && (glob || i == node), g = listed(wit[i], "JUPE", name, 1); if (e != g) w.fail("oper:effect", fmt("s%d has ", i) + (g ? "" : "no ") + "jupe for " + name + " after '" + line + "' of " + desc(s)); } return; }
    if (k == "conn") { string line = "CONNECT f5.sim.net 4400"; bool remote = a[2] == "rem"; if (remote && n < 2) return; if (remote) line += " " + w.name((node + 1) % n); bool may = remote ? s.oper == 2 : s.oper; auto r = cmd(s, line); if (gate(s, r, may, "the operator status for it", line)) { bool f = false; for (auto& m : r) if (m.cmd == "NOTICE" && m.last().find("Connect") != string::npos) f = true; if (!f) w.fail("oper:gate", "'" + line + "' was not answered"); } return; }
    if (k == "squit") {   // squit S TARGET
      int t = atoi(a[2].c_str()) % n; if (t == node) return; int d = abs(t - node); fcur = f0->log.size(); s.c->send("SQUIT " + w.name(t) + " :away with it"); w.s.runFor(300 * MS); w.until([&] { return w.s.quiet(); }, 5 * SEC); w.s.runFor(3 * SEC); bool may = d == 1 ? s.oper : s.oper == 2; w.until([&] { return w.s.quiet(); }, 5 * SEC); bool sq = false; for (size_t i = fcur; i < f0->log.size(); i++) if (f0->log[i].cmd == "SQ" || f0->log[i].cmd == "SQUIT") sq = true;
      if (sq != may) w.fail("oper:effect", desc(s) + (may ? " could not" : " could") + " remove " + w.name(t)); if (!w.waitLinked(1500 * SEC)) w.fail("harness:relink", "servers did not link again"); w.s.runFor(2 * SEC); rest(); if (f0->dead) w.fail("harness:f0", f0->reason); alive("SQUIT"); coverTransition(fmt("squit %d %d %d", s.oper, d, may)); return;
    }
    if (k == "non") { if (s.oper) return; string line = o.substr(o.find(' ', 4) + 1); auto r = cmd(s, line); gate(s, r, false, "operator status", line); alive(line); if (f0->dead || svc->dead) w.fail("oper:effect", "a server was removed by '" + line + "' of " + desc(s)); checkModes("'" + line + "' of " + desc(s)); return; }
    if (k == "die" || k == "restart") { bool may = has(s, k == "die" ? "DIE" : "RESTART"); if (may && k == "restart") return; for (auto& x : w.cl) x->mayDie = true; s.c->send(k == "die" ? "DIE" : "RESTART"); w.s.runFor(2 * SEC); w.until([&] { return w.s.quiet(); }, 20 * SEC); bool dead = w.node(node)->st == Node::DEAD || w.node(node)->st == Node::OFF; if (dead != may) w.fail("oper:effect", w.name(node) + (dead ? " ended" : " did not end") + " after " + k + " of " + desc(s)); coverTransition(k + fmt("%d", may)); if (dead) gone = true; return; }
    w.fail("harness:op", o);
  }
  void run() {
    for (int i = 0; i < 3; i++) kl.push_back(parseP(p.str(fmt("K%d", i), "PROPAGATE=1")));
    remote = p.num("remote"); rem = parseP(p.str("R", "")); rem["PROPAGATE"] = true; svcOper = !p.num("svcplain");
    for (int i = 0; i < 5; i++) { OB b; b.name = fmt("o%d", i); b.pass = fmt("pw%d", i); b.cls = p.num(fmt("oc%d", i), 0); b.pv = parseP(p.str(fmt("op%d", i), "")); b.masks = splitBy(p.str(fmt("om%d", i), "*@*"), ','); if (!b.pv.count("PROPAGATE") && !kl[b.cls].count("PROPAGATE")) b.pv["PROPAGATE"] = i % 2; ob.push_back(b); }
    w.features["MAXCHANNELSPERUSER"] = "6"; w.features["MAXSILES"] = "15";
    for (int i = 0; i < 3; i++) w.extraConf += fmt("Class { name = \"K%d\"; pingfreq = 90 seconds; sendq = 1000000 bytes; maxflood = 262144 bytes; maxlinks = 100;%s };\n", i, confP(kl[i]).c_str());
    if (remote) w.extraConf += "Class { name = \"RemoteOpers\"; pingfreq = 90 seconds; sendq = 1000000 bytes; maxflood = 262144 bytes; maxlinks = 100;" + confP(rem) + " };\n";
    for (auto& b : ob) { string h; for (auto& m : b.masks) h += " host = \"" + m + "\";"; w.extraConf += "Operator { name = \"" + b.name + "\"; password = \"$PLAIN$" + b.pass + "\"; class = \"" + fmt("K%d", b.cls) + "\";" + h + confP(b.pv) + " };\n"; }
    w.extraConf += "Quarantine { \"#q\" = \"quarantined\"; \"#qz\" = \"quarantined\"; \"&q\" = \"quarantined\"; };\n"; w.uworldOper = svcOper;
    for (int i = 0; i < n; i++) { w.addServer("", i ? vector<int>{i - 1} : vector<int>{}); siles[i] = 15; }
    w.start(); svc = w.service(0); f0 = w.peer(0, 0); for (auto pr : {svc, f0}) { pr->connect(); if (!w.until([&] { return pr->linked(); }, 60 * SEC)) w.fail("harness:svc", pr->reason); } rest();
    svc->user("ServK", w.node(0)->wall(), "serv", "svc.host", "+k", "10.8.0.9"); rest();
    for (int i = 0; i < n; i++) { Client* c = w.mk(i, fmt("wit%d", i), 6668); c->connect(); wit.push_back(c); Client* h = w.mk(i, fmt("hid%d", i), 6668); h->connect(); hid.push_back(h); }
    if (!w.waitReg()) w.fail("harness:reg", "witnesses"); rest();
    for (auto c : wit) { c->send("OPER gop operpass"); rest(); if (c->umodes.find('o') == string::npos) w.fail("harness:oper", c->who()); }
    for (auto h : hid) h->send("MODE " + h->nick + " +i"); rest();
    for (auto c : wit) for (auto ch : {"#a", "#q", "#s", "#z", "#qz"}) { c->send(string("JOIN ") + ch); rest(); }
    for (auto ch : {"&b", "&q", "&i"}) { wit[0]->send(string("JOIN ") + ch); rest(); }
    for (auto c : hid) for (auto ch : {"#z", "#qz"}) { c->send(string("JOIN ") + ch); rest(); }
    wit[0]->send("MODE #s +s"); wit[0]->send("MODE &i +i"); rest();
    for (auto ch : {"#a", "#q", "&b", "&q", "&i"}) { modes[ch] = {}; for (char m : string("smntpi")) if (modeOn(ch, m)) modes[ch].insert(m); } if (modes["&i"].count('i') == 0) w.fail("harness:chan", "&i");
    for (auto& o : p.ops) op(o);
    if (gone) return; w.settle(); for (auto& x : sl) if (x.second.c && x.second.c->ok()) status(x.second, "everything"); alive("everything");
    auto d = w.dumpAll("operators"); for (auto& x : d) for (auto& y : sl) if (y.second.c && y.second.c->ok()) { string nn = x.second.byNick(y.second.c->nick); if (nn.empty() || x.second.users[nn].modes.count('o') != (y.second.oper == 2)) w.fail("oper:status", w.name(x.first) + " knows the wrong operator status of " + y.second.c->who()); }
    checkConverged(w, d, "converge");
  }
};
void gen26(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2); int n = 1 + r.below(3); p.set("n", n);
  auto rnd = [&](double pr, bool prop) { string o; for (auto& x : PN) if (x == "PROPAGATE") { if (prop) o += fmt("%sPROPAGATE=%d", o.empty() ? "" : ",", (int)r.chance(0.6)); } else if (r.chance(pr)) o += fmt("%s%s=%d", o.empty() ? "" : ",", x.c_str(), (int)r.below(2)); return o; };
  for (int i = 0; i < 3; i++) p.knobs[fmt("K%d", i)] = rnd(r.chance(0.5) ? 0.15 : 0.5, r.chance(0.7)); p.set("remote", r.chance(0.5)); p.knobs["R"] = rnd(0.3, false); if (r.chance(0.2)) p.set("svcplain", 1);
  vector<string> masks = {"*@*", "*@*", "alpha@*", "*@10.60.1.*", "*@10.60.?.1", "beta@10.60.2.*,*@10.60.1.*", "*@10.60.1.1,*@10.60.2.2"};
  for (int i = 0; i < 5; i++) { p.set(fmt("oc%d", i), r.below(3)); p.knobs[fmt("op%d", i)] = rnd(r.chance(0.5) ? 0.1 : 0.4, r.chance(0.6)); p.knobs[fmt("om%d", i)] = r.pick(masks); }
  int nc = 2 + r.below(3), ops = 15 + r.below(45); for (int i = 0; i < nc; i++) p.op("cl %d %d %s %d", i, (int)r.below(n), r.chance(0.5) ? "alpha" : "beta", 1 + (int)r.below(2));
  vector<string> nons = {"KILL wit0 :x", "SQUIT f0.sim.net :x", "CONNECT f5.sim.net", "REHASH", "RESTART", "DIE", "SET MAXSILES 3", "RESET MAXSILES", "GET MAXSILES", "OPMODE #a +m", "CLEARMODE #a", "WALLOPS :x", "WALLUSERS :x", "JUPE +x.y.net * 100 :r", "PRIVS wit0", "UPING f0.sim.net", "RPING f0.sim.net", "SETTIME 1700000000", "CLOSE"};
  vector<string> chs = {"#a", "#a", "#q", "&b", "&q"}; vector<string> kinds = {"loc", "loc", "rem", "rem", "old", "oldrem", "srv", "me", "k", "none"};
  for (int i = 0; i < ops; i++) {
    int s = r.below(nc), k = r.below(60);
    if (k < 10) { int b = r.below(5); p.op("oper %d %s pw%d", s, r.chance(0.05) ? "nosuch" : fmt("%s%d", r.chance(0.2) ? "O" : "o", b).c_str(), r.chance(0.85) ? b : (int)r.below(5)); }
    else if (k < 12) p.op("um %d %s", s, vector<string>{"-o", "-O", "+o", "+O", "-oO", "+oO", "-o+O", "-O+o", "+o-w", "-s+O"}[r.below(10)].c_str());
    else if (k < 15) p.op("svc %d %s %s", s, r.chance(0.6) ? "+o" : "-o", r.chance(0.8) ? "svc" : "f0");
    else if (k < 18) p.op("privs %d %d", s, (int)r.below(nc)); else if (k < 24) p.op("kill %d %s", s, r.pick(kinds).c_str());
    else if (k < 29) p.op("opm %d %s %s %c", s, r.chance(0.4) ? "!" : "-", r.pick(chs).c_str(), "mnt"[r.below(3)]); else if (k == 29) { static const char* L = "ovpsmikbltn"; string l; if (r.chance(0.6)) for (int j = 1 + r.below(4); j > 0; j--) l += L[r.below(11)]; if (r.chance(0.6)) p.op("clx %d %s %s %s", s, r.chance(0.3) ? "!" : "-", r.chance(0.8) ? "z" : "q", l.c_str()); else p.op("opx %d %s %s %c%d", s, r.chance(0.3) ? "!" : "-", r.chance(0.8) ? "z" : "q", "ovbk"[r.below(4)], (int)r.below(3)); }
    else if (k < 31) p.op("clr %d %s %s %c", s, r.chance(0.4) ? "!" : "-", r.pick(chs).c_str(), "mnt"[r.below(3)]);
    else if (k == 31) p.op("mlc %d", s); else if (k == 32) p.op("set %d %d", s, (int)r.below(90)); else if (k == 33) p.op("reset %d", s); else if (k == 34) p.op("rehash %d%s", s, r.chance(0.5) ? " m" : r.chance(0.5) ? "" : " l");
    else if (k == 35) p.op("join %d", s); else if (k < 38) p.op("walk %d %s", s, r.chance(0.7) ? "&i" : "&b"); else if (k < 40) p.op("dlc %d", s); else if (k < 42) p.op("who %d", s); else if (k < 44) p.op("list %d", s); else if (k < 47) p.op("whois %d %d", s, (int)r.below(nc));
    else if (k == 47) p.op("wall %d %s", s, r.chance(0.5) ? "WALLOPS" : "WALLUSERS"); else if (k == 48) p.op("mass %d %s", s, r.chance(0.5) ? "PRIVMSG" : "NOTICE"); else if (k < 51) p.op("gl %d %s", s, vector<string>{"loc", "glob", "chanl", "chang"}[r.below(4)].c_str()); else if (k < 53) p.op("ju %d %s", s, r.chance(0.5) ? "glob" : "loc");
    else if (k < 55) p.op("conn %d %s", s, r.chance(0.5) ? "loc" : "rem"); else if (k == 55 && n > 1) p.op("squit %d %d", s, (int)r.below(n)); else if (k < 58) p.op("non %d %s", s, r.pick(nons).c_str()); else if (k == 58) p.op("nick %d %s", s, r.chance(0.5) ? "0" : "z"); else p.op("cl %d %d %s %d", s, (int)r.below(n), r.chance(0.5) ? "alpha" : "beta", 1 + (int)r.below(2));
  }
  if (r.chance(0.3)) p.op("%s %d", r.chance(0.6) ? "die" : "restart", (int)r.below(nc));
}
void run26(const Plan& p) { Oper o(p); o.run(); }
RegProp reg26({"C26", "Operator powers", "Plans: 1-3 servers with random Operator, Class and RemoteOpers blocks; users on them OPER up (right and wrong names, hosts, passwords), give up, are promoted and demoted by services and impostors, reconnect, and try every privileged command; a model derives each user's privileges and so every refusal and effect.", "delays, segmentation, splits by SQUIT, service impostors, death of a server", gen26, run26, 1, "", {}});
}
