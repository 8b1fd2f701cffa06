// C14: G-lines, bad channels and jupes.
#include "chaos.h"
#include "util.h"
namespace {
struct Ban {
  struct G { long ver = 0; Time lo = 0, hi = 0, llo = 0, lhi = 0; bool act = false; int ls = 0; string reason; };
  struct J { long ver = 0; Time lo = 0, hi = 0; bool act = false, ldeact = false, local = false; string reason; bool on() const { return act && !ldeact; } };
  struct Cl { Client* c = nullptr; int srv = 0; string user, ip, real; };
  const Plan& p; World& w; int n, maxUsers; long ver = 0; map<int, map<string, G>> g, loc; map<int, map<string, J>> j; map<int, Cl> cl; map<string, Client*> op_; set<int> cut; map<int, Peer*> peers; map<int, int> peerAt; int seq = 0;
  explicit Ban(const Plan& p) : p(p), w(*W), n(p.num("n", 1)), maxUsers(p.num("maxusers", 20)) {}
  static const Time SK = 6 * SEC;
  void rest() { w.s.runFor(20 * MS); w.settle(); w.until([&] { return w.s.quiet(); }, 60 * SEC); w.settle(); }
  set<int> comp(int s) { set<int> c{s}; for (int i = s; i + 1 < n && !cut.count(i); i++) c.insert(i + 1); for (int i = s; i > 0 && !cut.count(i - 1); i--) c.insert(i - 1); return c; }
  bool on(const G& x) { return x.hi > w.s.now && ((x.act && x.ls >= 0) || x.ls > 0); }
  void gc() {
    Time t = w.s.now;
    for (auto m : {&g, &loc}) for (auto& s : *m) for (auto i = s.second.begin(); i != s.second.end();) { auto& x = i->second; if (x.lhi <= t) { i = s.second.erase(i); continue; } if (x.hi <= t) { x.act = false; x.ls = 0; } ++i; }
    for (auto& s : j) for (auto i = s.second.begin(); i != s.second.end();) if (i->second.hi <= t) i = s.second.erase(i); else ++i;
  }
  // let every expiry that falls into the next step pass first
  void clear(Time margin) {
    for (bool more = true; more;) {
      more = false; Time t = w.s.now; Time lim = 0; auto see = [&](Time lo, Time hi) { if (hi > t && lo < std::max(t + margin, lim)) lim = std::max(lim, hi); };
      for (int k = 0; k < 4; k++) { for (auto m : {&g, &loc}) for (auto& s : *m) for (auto& x : s.second) { see(x.second.lo, x.second.hi); see(x.second.llo, x.second.lhi); } for (auto& s : j) for (auto& x : s.second) see(x.second.lo, x.second.hi); }
      if (lim) { w.s.runUntil(lim + SEC); more = true; }
    }
    rest(); gc();
  }
  static bool isChan(const string& m) { return m[0] == '#'; }
  bool hits(const string& mask, const string& user, const string& ip, const string& real) {
    if (isChan(mask)) return false;
    if (mask[0] == '$') return globm(mask.substr(2), real);
    auto at = mask.find('@'); string um = mask.substr(0, at), hm = mask.substr(at + 1); if (!globm(um, user)) return false;
    auto sl = hm.find('/'); if (sl != string::npos) { unsigned a[4], b[4]; sscanf(hm.c_str(), "%u.%u.%u.%u", a, a + 1, a + 2, a + 3); sscanf(ip.c_str(), "%u.%u.%u.%u", b, b + 1, b + 2, b + 3); int bits = atoi(hm.c_str() + sl + 1); uint32_t x = a[0] << 24 | a[1] << 16 | a[2] << 8 | a[3], y = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; return bits == 0 || (x >> (32 - bits)) == (y >> (32 - bits)); }
    return globm(hm, ip);
  }
  const G* banned(int s, const Cl& k, string* m = nullptr) { for (auto t : {&g[s], &loc[s]}) for (auto& x : *t) if (on(x.second) && hits(x.first, k.user, k.ip, k.real)) { if (m) *m = x.first; return &x.second; } return nullptr; }
  int count(int s, const string& mask, bool local) { int r = 0; auto c = local ? set<int>{s} : comp(s); for (auto& x : cl) if (x.second.c && x.second.c->ok() && c.count(x.second.srv) && (mask.find('/') == string::npos) && hits(mask, x.second.user, x.second.ip, x.second.real)) r++; return r; }
  static int width(const string& mask) {   // 0 narrow enough, 1 needs force, 2 never
    if (isChan(mask) || mask[0] == '$') return 0; string h = mask.substr(mask.find('@') + 1);
    if (h == "*" || h == "10.*" || h == "*.net" || h == "10.40.0.0/15") return 2; if (h.find_first_of("*?/") != string::npos) return 1; return 0;
  }
  void modify(G& x, int action, bool hasE, Time lo, Time hi, bool hasL, Time llo, Time lhi, const string* reason, long v, bool* changed) {
    // action: 1 activate, -1 deactivate, 2 local activate, -2 local deactivate, 0 modify
    bool exp = std::max(x.hi, hasE ? hi : 0) <= w.s.now;
    if (exp || (action == 1 && x.act) || (action == -1 && !x.act) || (action == 2 && x.ls > 0) || (action == -2 && x.ls < 0)) action = 0;
    bool upd = hasE || (reason && lower(*reason) != lower(x.reason)); if (!action && !upd) { *changed = false; return; }
    *changed = true; if (action > -2 && action < 2) x.ver = v;
    if (action == 1 || action == -1) { x.act = action > 0; x.ls = 0; } if (action == 2) x.ls = 1; if (action == -2) x.ls = -1;
    if (hasE) { x.lo = lo; x.hi = hi; if (hi > x.lhi) { x.llo = std::max(x.llo, lo); x.lhi = hi; } else x.llo = std::max(x.llo, std::min(lo, x.lhi)); } if (hasL && lhi > x.lhi) { x.llo = llo; x.lhi = lhi; }
    if (reason) x.reason = *reason;
  }
  void take(int t, const string& mask, const G& src) {   // t learns of another server's newer record
    auto i = g[t].find(mask);
    if (i == g[t].end()) { G x = src; x.ls = 0; x.hi += SK; x.lhi += SK; if (src.hi <= w.s.now) { x.act = false; x.hi = src.hi; } g[t][mask] = x; return; }
    if (i->second.ver >= src.ver) return;
    bool ch; modify(i->second, src.act ? 1 : -1, true, src.lo, src.hi + (src.hi > w.s.now ? SK : 0), true, src.llo, src.lhi, &src.reason, src.ver, &ch); i->second.ver = src.ver;
  }
  void spread(int s, const string& mask) { for (int t : comp(s)) if (t != s) take(t, mask, g[s][mask]); }
  // jupes travel hop by hop
  vector<int> nb(int s) { vector<int> v; if (s > 0 && !cut.count(s - 1)) v.push_back(s - 1); if (s + 1 < n && !cut.count(s)) v.push_back(s + 1); return v; }
  void jprop(int s, int but, const string& nm) { J x = j[s][nm]; if (x.local) return; for (int t : nb(s)) if (t != but) jrecv(t, s, nm, x, false); }
  void jset(int s, int from, const string& nm, bool act, long v) { auto& x = j[s][nm]; bool same = act ? x.on() : !x.act; if (!same || from >= 0) x.ver = v; x.act = act; if (!same) jprop(s, from, nm); }
  void jrecv(int t, int from, const string& nm, J src, bool burst) {
    if (j[t].count(nm) && j[t][nm].local) j[t].erase(nm);
    if (j[t].count(nm)) { auto& x = j[t][nm]; if (x.ver < src.ver) jset(t, from, nm, src.act, src.ver); else if (x.ver > src.ver && !burst) { J y = x; jrecv(from, t, nm, y, false); } return; }
    src.hi += SK; src.ldeact = false; j[t][nm] = src; jprop(t, from, nm);
  }
  void merge(int e) {   // the link between servers e and e+1 is back
    set<int> a = comp(e), b = comp(e + 1); auto ga = g[e], gb = g[e + 1]; auto ja = j[e], jb = j[e + 1]; cut.erase(e);
    for (auto& x : ga) for (int t : b) take(t, x.first, x.second); for (auto& x : gb) for (int t : a) take(t, x.first, x.second);
    for (auto& x : ja) if (!x.second.local) jrecv(e + 1, e, x.first, x.second, true); for (auto& x : jb) if (!x.second.local) jrecv(e, e + 1, x.first, x.second, true);
  }
  void effects(const string& what) {
    rest();
    for (auto& x : cl) { auto& k = x.second; if (!k.c) continue; string m; auto b = banned(k.srv, k, &m);
      if (b && !k.c->dead) w.fail("gline:missed", k.c->who() + " stays connected although " + m + " is active on its server after " + what);
      if (!b && k.c->dead) w.fail("gline:wrong", k.c->who() + " was disconnected (" + k.c->reason + ") although no ban matches it after " + what);
      if (b && k.c->dead) { if (told(k.c) && !k.c->find("465")) w.fail("gline:silent", k.c->who() + " was disconnected by " + m + " without the reason being given"); k.c = nullptr; coverTransition("killed"); } }
    for (auto& x : peers) if (x.second) { auto& q = *x.second; auto i = j[peerAt[x.first]].find(q.name); bool ju = i != j[peerAt[x.first]].end() && i->second.on();
      if (ju && q.live()) w.fail("jupe:missed", q.name + " stays linked although it is juped on its uplink after " + what);
      if (!ju && !q.live()) w.fail("jupe:wrong", q.name + " was unlinked (" + q.reason + ") although it is not juped after " + what);
      if (ju) x.second = nullptr; }
  }
  // compare what every server lists with the model
  void list(int s) {
    Client* c = op_[fmt("gop%d", s)]; vector<Msg> out; w.query(c, "GLINE", "281", out); gc(); map<string, string> want, got; map<string, std::pair<Time, Time>> ex;
    auto add = [&](const string& m, const G& x, bool local) { string key = lower(m) + (local ? " local" : " *"); want[key] = fmt("%s%c %s", local ? "" : x.ls > 0 ? ">" : x.ls < 0 ? "<" : "", x.act ? '+' : '-', x.reason.c_str()); ex[key] = {x.lo, x.hi}; };
    for (auto& x : g[s]) add(x.first, x.second, false); for (auto& x : loc[s]) add(x.first, x.second, true);
    for (auto& m : out) if (m.cmd == "280") { string key = lower(m.arg(1)) + (m.arg(5) == "*" ? " *" : " local"); got[key] = m.arg(6) + " " + m.last();
      if (want.count(key) && ex[key].second > w.s.now) { Time e = (Time)atoll(m.arg(2).c_str()) * SEC - base; if (e < ex[key].first - tol() || e > ex[key].second + tol()) w.fail("gline:expiry", fmt("%s expires %s on %s at %lld s instead of between %lld and %lld s", w.name(s).c_str(), "", key.c_str(), (long long)(e / SEC), (long long)(ex[key].first / SEC), (long long)(ex[key].second / SEC))); } }
    if (want != got) { string a, b; for (auto& x : want) if (!got.count(x.first) || got[x.first] != x.second) a += " [" + x.first + " " + x.second + "]"; for (auto& x : got) if (!want.count(x.first) || want[x.first] != x.second) b += " [" + x.first + " " + x.second + "]"; w.fail("gline:list", w.name(s) + " should list" + a + " and lists" + b); }
    out.clear(); want.clear(); got.clear(); w.query(c, "JUPE", "283", out);
    for (auto& x : j[s]) want[x.first + (x.second.local ? " local" : " *")] = fmt("%c %s", x.second.on() ? '+' : '-', x.second.reason.c_str());
    for (auto& m : out) if (m.cmd == "282") { got[m.arg(1) + (m.arg(3) == "*" ? " *" : " local")] = m.arg(4) + " " + m.last(); auto i = j[s].find(m.arg(1)); if (i != j[s].end()) { Time e = (Time)atoll(m.arg(2).c_str()) * SEC - base; if (e < i->second.lo - tol() || e > i->second.hi + tol()) w.fail("jupe:expiry", w.name(s) + " has a wrong expiry for the jupe of " + m.arg(1)); } }
    if (want != got) { string a, b; for (auto& x : want) a += " [" + x.first + " " + x.second + "]"; for (auto& x : got) b += " [" + x.first + " " + x.second + "]"; w.fail("jupe:list", w.name(s) + " should list" + a + " and lists" + b); }
  }
  Time base = 0; int relinks = 0; Time tol() { return (2 + 3 * relinks) * SEC; }   // every link handshake may shift a server's clock by its latency
  bool told(Client* c) { return startsWith(c->reason, "eof") && p.real("eagain") == 0 && p.real("short") == 0 && !p.has("cap.client"); }
  void ask(Client* c, const string& line, const string& want) {
    size_t m = c->log.size(); c->send(line); rest(); string got;
    for (size_t i = m; i < c->log.size(); i++) { auto& x = c->log[i].cmd; if (x == "481" || x == "512" || x == "515" || x == "518" || x == "519" || x == "520" || x == "461" || x == "402" || x == "517") got = x; }
    if (c->dead) w.fail("oper:lost", c->who() + " was lost after " + line + ": " + c->reason);
    if (got != want) w.fail("ban:reply", c->who() + " sent " + line + " and received '" + got + "' instead of '" + want + "'");
    coverTransition(line.substr(0, 7) + got);
  }
  void gline(const vector<string>& a) {   // gl OPER SRV FORM FORCE ACT MASK DUR TARGET
    string kind = a[1]; int s = atoi(a[2].c_str()) % n; string form = a[3]; bool force = a[4] == "!"; char act = a[5][0]; string mask = a[6]; long dur = atol(a[7].c_str()); int tgt = atoi(a[8].c_str()) % n;
    Client* c = op_[kind + std::to_string(s)]; if (!c) return; string rs = fmt("r%d", ++seq % 7); string fm = force ? "!" : ""; bool wide = force && (kind == "gop" || kind == "pop");
    bool glob = kind == "gop" || kind == "pop", locp = kind != "nop", bad = kind == "gop"; auto cs = comp(s); Time t0 = w.s.now; Time lo = t0 + dur * SEC, hi;
    if (mask == "#bad" && (form == "E" || form == "F")) bad = false;   // local_badchan is granted to nobody
    bool expBad = dur <= 0 || dur > 604800; long v = ++ver; string want; bool changed;
    auto create = [&](int t, bool local, bool atRemote) -> string {
      if (isChan(mask)) { if (local) return "481"; }
      else if (mask[0] == '$') { if (count(t, mask, false) >= maxUsers && !wide) return "519"; }
      else { int wd = width(mask); if (wd == 2 || (wd == 1 && !wide)) return "520"; if (count(t, mask, local) >= maxUsers && !wide) return "519"; }
      if (expBad) return atRemote ? "" : "515"; return "ok"; };
    if (form == "A" || form == "B" || form == "C") {
      string line = "GLINE " + fm + (form == "C" ? string() : string(1, act)) + mask + " *"; if (form != "B") line += fmt(" %ld :%s", dur, rs.c_str());
      bool have = g[s].count(mask); if (!have && form != "A") want = "512"; else if (!glob || (isChan(mask) && !bad)) want = "481";
      else if (!have) { want = create(s, false, false); }
      else if (form != "B" && expBad) want = "515"; else want = "ok";
      ask(c, line, want == "ok" ? "" : want); hi = w.s.now + dur * SEC + SEC; lo -= SEC;
      if (want == "ok") { if (!have) { G x; x.ver = v; x.lo = x.llo = lo; x.hi = x.lhi = hi; x.act = act == '+'; x.reason = rs; g[s][mask] = x; changed = true; } else modify(g[s][mask], form == "C" ? 0 : act == '+' ? 1 : -1, form != "B", lo, hi, false, 0, 0, form == "B" ? nullptr : &rs, v, &changed); if (changed) spread(s, mask); }
      effects(line);
    } else if (form == "D") {
      bool remote = tgt != s; if (remote && !cs.count(tgt)) return; string line = "GLINE " + fm + (act == '+' ? ">" : "<") + mask + (remote ? " " + w.name(tgt) : "");
      if (remote && !glob) want = "481"; else if (!g[tgt].count(mask)) want = "512"; else if (!remote && !locp) want = "481"; else want = "ok";
      ask(c, line, want == "ok" ? "" : want); if (want == "ok") modify(g[tgt][mask], act == '+' ? 2 : -2, false, 0, 0, false, 0, 0, nullptr, v, &changed); effects(line);
    } else {
      if (form == "F") tgt = s; bool remote = tgt != s; if (remote && (!cs.count(tgt) || isChan(mask))) return;
      string line = "GLINE " + fm + string(1, act) + mask + (form == "F" ? "" : " " + w.name(tgt)) + fmt(" %ld :%s", dur, rs.c_str()); bool have = loc[tgt].count(mask);
      if (remote ? !glob : !locp) want = "481"; else if (act == '+') want = have ? "" : create(tgt, true, remote); else want = have ? "ok" : "512";
      if (!remote && mask[0] == '#' && act == '+' && !have && locp) want = "481";
      ask(c, line, want == "ok" ? "" : want); hi = w.s.now + dur * SEC + SEC; lo -= SEC;
      if (want == "ok") { if (act == '+') { G x; x.lo = x.llo = lo; x.hi = x.lhi = hi; x.act = true; x.reason = rs; loc[tgt][mask] = x; } else loc[tgt].erase(mask); } effects(line);
    }
  }
  void jupe(const vector<string>& a) {   // ju OPER SRV FORM ACT IDX DUR TARGET
    string kind = a[1]; int s = atoi(a[2].c_str()) % n; string form = a[3]; bool act = a[4] == "+"; string nm = w.fakeName(atoi(a[5].c_str())); long dur = atol(a[6].c_str()); int tgt = atoi(a[7].c_str()) % n;
    Client* c = op_[kind + std::to_string(s)]; if (!c) return; string rs = fmt("r%d", ++seq % 7); bool glob = kind == "gop" || kind == "pop", locp = kind != "nop"; Time lo = w.s.now + dur * SEC - SEC, hi; bool expBad = dur <= 0 || dur > 604800; long v = ++ver;
    if (form == "F") tgt = s; bool remote = tgt != s && form != "A"; if (remote && !comp(s).count(tgt)) return;
    string line = fmt("JUPE %c%s%s %ld :%s", act ? '+' : '-', nm.c_str(), form == "A" ? " *" : form == "F" ? "" : (" " + w.name(tgt)).c_str(), dur, rs.c_str()); string want;
    bool local = form != "A"; int t = local ? tgt : s; bool have = j[t].count(nm); J* x = have ? &j[t][nm] : nullptr;
    if (have && x->local && !local) { have = false; }
    if (local && !remote ? !locp : !glob) want = "481"; else if (!have && expBad) want = remote ? "" : "515"; else want = "ok";
    ask(c, line, want == "ok" ? "" : want); hi = w.s.now + dur * SEC + SEC;
    if (want != "481" && x && x->local && !local) j[t].erase(nm);
    if (want == "ok") {
      if (!have) { J y; y.ver = v; y.lo = lo; y.hi = hi; y.act = act; y.local = local; y.reason = rs; j[t][nm] = y; jprop(t, -1, nm); }
      else if (x->local) { if (act) x->act = true; else j[t].erase(nm); }
      else if (local) { x->ldeact = !act; }
      else jset(t, -1, nm, act, v);
    }
    effects(line);
  }
  void op(const string& o) {
    auto a = words(o); w.s.mix(hashstr(o)); bool quick = a[0] == "q"; if (quick) a.erase(a.begin()); clear(a[0] == "heal" || a[0] == "crash" ? 90 * SEC : a[0] == "list" ? 15 * SEC : 12 * SEC); if (!quick || cut.size()) w.s.runFor(1500 * MS); int s = a.size() > 1 ? atoi(a[1].c_str()) : 0;
    if (a[0] == "wait") { w.s.runFor(atoi(a[1].c_str()) * SEC); rest(); gc(); effects("waiting"); return; }
    if (a[0] == "gl") { gline(a); return; } if (a[0] == "ju") { jupe(a); return; }
    if (a[0] == "list") { list(s % n); return; }
    if (a[0] == "cl") {   // cl SLOT SRV USER IP REAL
      auto& k = cl[s]; if (k.c) { k.c->send("QUIT"); k.c->mayDie = true; rest(); w.s.runFor(300 * MS); k.c->die("quit"); k.c = nullptr; }
      k = Cl(); k.srv = atoi(a[2].c_str()) % n; k.user = a[3]; k.ip = a[4]; k.real = a[5]; string m; Client* c = w.mk(k.srv, fmt("c%d_%d", s, ++seq), 6668, k.ip); c->user = k.user; c->real = k.real; c->mayDie = true; auto b = banned(k.srv, k, &m); c->connect();
      w.until([&] { return c->dead || c->ok(); }, 30 * SEC); rest();
      if (b && !c->dead) w.fail("gline:entry", c->who() + " got in although " + m + " is active there"); if (b && told(c) && !c->find("465")) w.fail("gline:silent", c->who() + " was refused because of " + m + " without the reason being given: " + c->reason);
      if (!b && !c->ok()) w.fail("gline:refused", c->who() + " was refused although no ban matches it: " + c->reason);
      if (!b) k.c = c; coverTransition(b ? "refused" : "accepted"); return;
    }
    if (a[0] == "join") { auto& k = cl[s]; if (!k.c || !k.c->ok()) return; string ch = a[2]; auto bad = [&](map<string, G>& t) { auto i = t.find(ch); return i != t.end() && on(i->second); }; bool b = bad(g[k.srv]) || bad(loc[k.srv]); size_t m = k.c->log.size(); k.c->send("JOIN " + ch); rest(); bool in = k.c->chans.count(lower(ch)); bool err = false; for (size_t i = m; i < k.c->log.size(); i++) if (k.c->log[i].cmd == "474") err = true;
      if (in == b || err != b) w.fail("badchan:join", k.c->who() + (in ? " joined " : " was refused ") + ch + (b ? " although it is banned" : " although it is not banned")); k.c->send("PART " + ch); rest(); return; }
    if (a[0] == "peer") {   // peer IDX SRV
      int at = atoi(a[2].c_str()) % n; if (peers[s]) { peers[s]->die("moves"); peers[s] = nullptr; w.s.runFor(SEC); rest(); }
      for (auto& x : peers) if (x.second && peerAt[x.first] != at && false) return;
      Peer* q = w.peer(at, s); auto i = j[at].find(q->name); bool ju = i != j[at].end() && i->second.on(); q->connect(); w.until([&] { return q->dead || q->linked(); }, 60 * SEC); rest();
      if (ju != q->dead) w.fail("jupe:link", q->name + (ju ? " was linked although it is juped there" : " was refused although it is not juped there: " + q->reason)); if (!ju) { peers[s] = q; peerAt[s] = at; } coverTransition(ju ? "jrefused" : "jlinked"); return;
    }
    if (a[0] == "old") {   // old IDX MASK ACT FORM: a linked server announces a state older than the one known, and is told the newer one
      if (!peers.count(s) || !peers[s]) return; Peer* q = peers[s]; int at = peerAt[s]; bool ju = a[2][0] == 'f'; char act = a[3][0]; size_t m = q->log.size(); string nm = ju ? w.fakeName(atoi(a[2].c_str() + 1)) : a[2]; bool have, on; const char* cmd = ju ? "JU" : "GL";
      if (ju) { auto i = j[at].find(nm); have = i != j[at].end() && !i->second.local && nm != q->name; on = have && i->second.act; } else { auto i = g[at].find(nm); have = i != g[at].end(); on = have && i->second.act; }
      if (!have || !q->gotEA) return; q->send(q->num + fmt(" %s * %c%s ", cmd, act, nm.c_str()) + (ju || a[4] == "3" ? "3600 1000000000 :old" : a[4] == "1" ? "1000000000" : "3600 1000000000 1000003600 :old")); rest();
      int n = 0; for (size_t i = m; i < q->log.size(); i++) { auto& x = q->log[i]; if (x.cmd != cmd) continue; string t = x.arg(1); if (t.size() && t[0] == '!') t = t.substr(1); if (x.arg(0) == "*" && t == (on ? "+" : "-") + nm && atoll(x.arg(3).c_str()) > 1000000000) n++; else w.fail("ban:correct", q->name + " announced an old state of " + nm + " and received " + x.raw); }
      if (n != 1) w.fail("ban:correct", q->name + " announced an old state of " + nm + fmt(" and was told the newer one %d times", n)); effects("an outdated announcement"); list(at); coverTransition(string("old") + cmd + (on ? "+" : "-")); return; }
    if (a[0] == "cut") { int e = s; if (e >= n - 1 || cut.count(e)) return; w.s.partition(w.node(e)->ip, w.node(e + 1)->ip); rstLink(w, e, e + 1); w.s.runFor(SEC); cut.insert(e); effects("a split"); return; }
    if (a[0] == "heal") { int e = s; if (e >= n - 1 || !cut.count(e)) return; relinks++; w.s.heal(w.node(e)->ip, w.node(e + 1)->ip); Time t0 = w.s.now; if (!w.waitLinked(300 * SEC, {{e, e + 1}})) w.fail("liveness:link", "a healed link does not come back"); rest(); if (w.s.now - t0 > 85 * SEC) throw 1; merge(e); gc(); effects("a merge"); for (int i = 0; i < n; i++) list(i); return; }
    if (a[0] == "crash") { int x = s % n; relinks++; for (auto& y : cl) if (y.second.srv == x && y.second.c) { y.second.c = nullptr; } for (auto& y : peers) if (y.second && peerAt[y.first] == x) y.second = nullptr; for (auto& y : w.cl) if (y->node == x) y->mayDie = true;
      w.s.crash(w.node(x)); w.s.runFor(200 * MS); w.s.boot(w.node(x)); g[x].clear(); loc[x].clear(); j[x].clear(); vector<std::pair<int, int>> want; vector<int> es; for (int e : {x - 1, x}) if (e >= 0 && e < n - 1 && !cut.count(e)) { want.push_back({e, e + 1}); es.push_back(e); } Time t0 = w.s.now;
      if (want.size() && !w.waitLinked(300 * SEC, want)) w.fail("liveness:link", "a restarted server does not link"); opers(x); rest(); if (w.s.now - t0 > 85 * SEC) throw 1; for (int e : es) cut.insert(e); for (int e : es) merge(e); gc(); effects("a restart"); list(x); return; }
  }
  void opers(int i) {
    for (auto kind : {"gop", "pop", "lop", "nop"}) { int q = ++seq; Client* c = w.mk(i, fmt("%s%d_%d", kind, i, q), 6668, fmt("10.30.%d.%d", i, 1 + q % 200)); c->user = "oper"; c->connect(); w.until([&] { return c->ok(); }, 20 * SEC); if (!c->ok()) w.fail("harness:reg", c->reason); c->send(fmt("OPER %s operpass", kind)); w.s.runFor(100 * MS); op_[fmt("%s%d", kind, i)] = c; }
  }
  void run() {
    w.features["IPCHECK_CLONE_LIMIT"] = "250"; w.features["CONNECTFREQUENCY"] = "20"; w.features["GLINEMAXUSERCOUNT"] = std::to_string(maxUsers);
    w.extraConf += "Operator { local = no; class = \"Exempt\"; host = \"*@*\"; password = \"$PLAIN$operpass\"; name = \"pop\"; };\nOperator { local = yes; class = \"Exempt\"; host = \"*@*\"; password = \"$PLAIN$operpass\"; name = \"nop\"; local_gline = no; local_jupe = no; };\n";
    for (int i = 0; i < n; i++) w.addServer("", i ? vector<int>{i - 1} : vector<int>{});
    w.start(); for (int i = 0; i < n; i++) opers(i); rest();
    vector<Msg> out; w.query(op_["gop0"], "TIME", "391", out); base = (Time)(out.empty() ? 0 : atoll(out.back().arg(2).c_str())) * SEC - w.s.now;
    try { for (auto& o : p.ops) op(o); clear(90 * SEC); for (int i = 0; i < n; i++) list(i); } catch (int) {}
  }
};
void gen14(Plan& p, Rng& r) {
  genNetKnobs(p, r, 2); p.knobs.erase("slat.max"); p.knobs.erase("slat.min"); int n = 1 + r.below(3); p.set("n", n); if (r.chance(0.4)) p.set("maxusers", 2 + r.below(3)); int nc = 3 + r.below(5), ops = 15 + r.below(35);
  vector<string> masks = {"*@10.40.0.3", "red@10.40.0.2", "*@10.40.0.0/24", "*@10.40.1.*", "r*@10.40.*", "*@host.example.org", "$Rbad*", "$R*bot", "#bad", "#bad", "*@*", "*@10.*", "*@10.40.0.0/15", "blue@*.net"};
  vector<string> sub; int k = 2 + r.below(4); for (int i = 0; i < k; i++) sub.push_back(r.pick(masks));
  vector<long> durs = {60, 60, 200, 200, 1000, 4000, 100000, 0, 700000};
  auto cls = [&](int s) { p.op("cl %d %d %s 10.40.%d.%d %s", s, (int)r.below(n), vector<string>{"red", "blue", "rose"}[r.below(3)].c_str(), (int)r.below(2), 2 + (int)r.below(3), vector<string>{"joe", "badguy", "spambot"}[r.below(3)].c_str()); };
  auto who = [&] { return vector<string>{"gop", "gop", "gop", "gop", "pop", "lop", "nop"}[r.below(7)]; };
  for (int i = 0; i < nc; i++) cls(i);
  for (int i = 0; i < ops; i++) {
    int q = r.below(50);
    if (n > 1 && r.chance(0.05)) {   // a record changed locally before another server learns of it, by restarting or a merge
      int x = r.below(n), y = (x + 1) % n, cutp = r.below(n - 1); string m = r.pick(sub); bool sp = r.chance(0.4); p.op("gl gop %d A ! %s %s 100000 %d", x, r.chance(0.7) ? "+" : "-", m.c_str(), x); if (sp) p.op("cut %d", cutp); p.op("gl gop %d D ! %s %s 60 %d", x, r.chance(0.7) ? "-" : "+", m.c_str(), x);
      if (sp) p.op("heal %d", cutp); else p.op("crash %d", y); if (r.chance(0.3)) cls(r.below(nc)); continue; }
    if (r.chance(0.08)) {   // several changes within a second
      int x = r.below(n); string m = r.pick(sub); for (int j = 2 + r.below(3); j > 0; j--) p.op("q gl gop %d %s ! %s %s %ld %d", r.chance(0.7) ? x : (int)r.below(n), r.chance(0.6) ? "A" : "B", r.chance(0.5) ? "+" : "-", m.c_str(), r.chance(0.8) ? 1000L : 4000L, x); continue; }
    if (r.chance(0.03)) { int x = r.below(n), t = r.below(2); for (int j = 2 + r.below(2); j > 0; j--) p.op("q ju gop %d A %s %d 1000 %d", r.chance(0.7) ? x : (int)r.below(n), r.chance(0.5) ? "+" : "-", t, x); continue; }
    if (r.chance(0.06)) { if (r.chance(0.3)) p.op("peer %d %d", (int)r.below(2), (int)r.below(n)); p.op("old %d %s %s %d", (int)r.below(2), r.chance(0.25) ? fmt("f%d", (int)r.below(2)).c_str() : r.pick(sub).c_str(), r.chance(0.5) ? "+" : "-", vector<int>{1, 3, 4}[r.below(3)]); continue; }
    if (q < 20) p.op("gl %s %d %s %s %s %s %ld %d", who().c_str(), (int)r.below(n), vector<string>{"A", "A", "A", "A", "B", "C", "D", "D", "E", "F"}[r.below(10)].c_str(), r.chance(0.7) ? "!" : "-", r.chance(0.6) ? "+" : "-", r.pick(sub).c_str(), durs[r.below(durs.size())], (int)r.below(n));
    else if (q < 27) p.op("ju %s %d %s %s %d %ld %d", who().c_str(), (int)r.below(n), vector<string>{"A", "A", "A", "E", "F"}[r.below(5)].c_str(), r.chance(0.65) ? "+" : "-", (int)r.below(2), durs[r.below(durs.size())], (int)r.below(n));
    else if (q < 35) cls(r.below(nc)); else if (q < 37) p.op("join %d %s", (int)r.below(nc), r.chance(0.8) ? "#bad" : "#good"); else if (q < 41) p.op("peer %d %d", (int)r.below(2), (int)r.below(n));
    else if (q < 43) p.op("cut %d", (int)r.below(n)); else if (q < 46) p.op("heal %d", (int)r.below(n)); else if (q == 46) p.op("crash %d", (int)r.below(n)); else if (q == 47) p.op("wait %d", vector<int>{5, 70, 250, 1200}[r.below(4)]); else p.op("list %d", (int)r.below(n));
  }
}
void run14(const Plan& p) { Ban b(p); b.run(); }
RegProp reg14({"C14", "Network bans", "Plans: operators of four kinds on 1-3 servers create, modify, activate and deactivate G-lines, bad channels and jupes network-wide and locally while clients connect, join and servers link, split, merge and restart; a model of every server's records predicts replies, lists, disconnections and refusals.", "delays, segmentation, partitions, crashes, expiry during splits", gen14, run14, 1, "", {}});
}
