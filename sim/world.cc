#include "world.h"
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/sha.h>

World* W = nullptr;

void Plan::op(const char* f, ...) {
  va_list ap; va_start(ap, f); char b[8192]; vsnprintf(b, sizeof b, f, ap); va_end(ap); ops.push_back(b);
}
vector<Prop>& props() { static vector<Prop> p; return p; }

// ------------------------------------------------------------------ text helpers
string lower(const string& s) {
  string r = s;
  for (auto& c : r) {
    if (c >= 'A' && c <= 'Z') c += 32;
    else if (c == '[') c = '{'; else if (c == ']') c = '}'; else if (c == '\\') c = '|'; else if (c == '~') c = '^';
  }
  return r;
}
vector<string> words(const string& s) {
  vector<string> v; size_t i = 0;
  while (i < s.size()) {
    while (i < s.size() && s[i] == ' ') i++;
    size_t j = i; while (j < s.size() && s[j] != ' ') j++;
    if (j > i) v.push_back(s.substr(i, j - i));
    i = j;
  }
  return v;
}
vector<string> splitBy(const string& s, char c) {
  vector<string> v; size_t i = 0;
  for (;;) { size_t j = s.find(c, i); if (j == string::npos) { v.push_back(s.substr(i)); return v; } v.push_back(s.substr(i, j - i)); i = j + 1; }
}
string join(const vector<string>& v, const string& sep) { string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += sep; r += v[i]; } return r; }
bool startsWith(const string& s, const string& p) { return s.compare(0, p.size(), p) == 0; }
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789[]";
string b64(unsigned v, int w) { string r(w, 'A'); for (int i = w - 1; i >= 0; i--) { r[i] = B64[v & 63]; v >>= 6; } return r; }
unsigned unb64(const string& s) { unsigned v = 0; for (char c : s) { const char* p = strchr(B64, c); v = v * 64 + (p && c ? p - B64 : 0); } return v; }
string plainB64(const string& in) {
  static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  string o; size_t i = 0;
  while (i < in.size()) {
    unsigned v = 0; int n = 0;
    for (int k = 0; k < 3; k++) { v <<= 8; if (i < in.size()) { v |= (unsigned char)in[i++]; n++; } }
    for (int k = 0; k < 4; k++) o += k <= n ? T[(v >> (18 - 6 * k)) & 63] : '=';
  }
  return o;
}
Msg parseIrc(const string& l) {
  Msg m; m.raw = l; size_t i = 0;
  if (i < l.size() && l[i] == '@') { size_t e = l.find(' '); if (e == string::npos) e = l.size(); m.tags = l.substr(1, e - 1); i = e; while (i < l.size() && l[i] == ' ') i++; }
  if (i < l.size() && l[i] == ':') { size_t e = l.find(' ', i); if (e == string::npos) e = l.size(); m.prefix = l.substr(i + 1, e - i - 1); i = e; while (i < l.size() && l[i] == ' ') i++; }
  size_t e = l.find(' ', i); if (e == string::npos) e = l.size();
  m.cmd = l.substr(i, e - i); i = e;
  while (i < l.size()) {
    while (i < l.size() && l[i] == ' ') i++;
    if (i >= l.size()) break;
    if (l[i] == ':') { m.p.push_back(l.substr(i + 1)); break; }
    e = l.find(' ', i); if (e == string::npos) e = l.size();
    m.p.push_back(l.substr(i, e - i)); i = e;
  }
  return m;
}
map<string, string> Msg::tagMap() const {
  map<string, string> r;
  if (tags.empty()) return r;
  for (auto& t : splitBy(tags, ';')) { auto e = t.find('='); if (e == string::npos) r[t] = ""; else r[t.substr(0, e)] = t.substr(e + 1); }
  return r;
}

// ------------------------------------------------------------------ coverage features
static set<uint64_t> feats;
void cover(uint64_t f) { if (feats.size() < 20000) feats.insert(mix64(f)); }
void coverTransition(const string& s) { cover(hashstr(s)); }
uint64_t featureCount() { return feats.size(); }
const set<uint64_t>& featureSet() { return feats; }

// ------------------------------------------------------------------ channel view
void ChanView::applyModes(const vector<string>& a, size_t from, std::function<void(char, bool, const string&)> onItem) {
  if (from >= a.size()) return;
  bool add = true; size_t ai = from + 1;
  auto next = [&]() -> string { return ai < a.size() ? a[ai++] : ""; };
  for (char c : a[from]) {
    if (c == '+') { add = true; continue; }
    if (c == '-') { add = false; continue; }
    string arg;
    switch (c) {
      case 'o': case 'v': {
        arg = next(); auto it = members.find(lower(arg));
        if (it != members.end()) { (c == 'o' ? it->second.op : it->second.voice) = add; if (c == 'v') it->second.voiceUnknown = false; }
        break; }
      case 'b': arg = next(); if (add) bans.insert(arg); else bans.erase(arg); break;
      case 'k': arg = next(); if (add) { modes.insert('k'); key = arg; } else { modes.erase('k'); key = ""; } break;
      case 'l': if (add) { arg = next(); modes.insert('l'); limit = atoi(arg.c_str()); } else { modes.erase('l'); limit = 0; } break;
      case 'A': arg = next(); if (add) { modes.insert('A'); apass = arg; } else { modes.erase('A'); apass = ""; } break;
      case 'U': arg = next(); if (add) { modes.insert('U'); upass = arg; } else { modes.erase('U'); upass = ""; } break;
      default: if (add) modes.insert(c); else modes.erase(c);
    }
    if (onItem) onItem(c, add, arg);
  }
}
string ChanView::modeStr() const {
  string s = "+"; for (char c : modes) s += c;
  if (modes.count('k')) s += " " + key;
  if (modes.count('l')) s += fmt(" %d", limit);
  return s;
}

// ------------------------------------------------------------------ TLS client side (real OpenSSL over memory BIOs)
struct Tls { SSL* ssl = nullptr; BIO *in = nullptr, *out = nullptr; bool up = false; };
static SSL_CTX* tlsCtx() { static SSL_CTX* c; if (!c) { c = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_verify(c, SSL_VERIFY_NONE, nullptr); } return c; }

// ------------------------------------------------------------------ IRC clients
void Client::connect() {
  rng = Rng(w->s.seed * 31 + id * 977 + 5);
  bornAt = w->s.now;
  sock = w->s.connectTo(ip, ip.find(':') == string::npos ? w->node(node)->ip : w->node(node)->ip6, port);
  sock->onEvent = [this] { event(); };
}
void Client::flushOut() {
  if (!outq.empty() && sock && sock->state == Sock::ESTAB) {
    ssize_t r = w->s.swrite(sock, outq.data(), outq.size());
    if (r >= 0) outq.clear(); else outq.clear();
  }
}
void Client::event() {
  if (dead) return;
  if (sock->state == Sock::FAILED) { die("connect failed"); return; }
  if (!connected && sock->state == Sock::ESTAB) {
    connected = true;
    if (transport == 2) {
      tls = new Tls; tls->ssl = SSL_new(tlsCtx()); tls->in = BIO_new(BIO_s_mem()); tls->out = BIO_new(BIO_s_mem());
      SSL_set_bio(tls->ssl, tls->in, tls->out); SSL_set_connect_state(tls->ssl);
      transportRead();
    } else if (transport == 1) {
      string k; for (int i = 0; i < 16; i++) k += (char)rng.below(256);
      string sp = wsBinary ? "binary.ircv3.net" : "text.ircv3.net";
      raw("GET / HTTP/1.1\r\nHost: irc.sim.net\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + plainB64(k) + "\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: " + sp + "\r\n" + wsHeaders + "\r\n");
    } else {
      if (onOpen) onOpen(*this);
      if (autoReg) reg();
    }
  }
  if (stalled) { w->s.ctr[C_reader_stall]++; return; }
  transportRead();
}
void Client::transportRead() {
  string d = w->s.sread(sock);
  if (transport == 2 && !tls) { if (sock->rfin || sock->rstSeen) die("closed"); return; }
  if (transport == 2) {
    if (d.size()) BIO_write(tls->in, d.data(), d.size());
    if (!tls->up) {
      int r = SSL_do_handshake(tls->ssl);
      if (r == 1) { tls->up = true; }
      else { int e = SSL_get_error(tls->ssl, r); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { ERR_clear_error(); die("tls handshake failed", true); return; } }
    }
    char b[16384]; int n;
    auto pump = [&] { char o[4096]; int k; while ((k = BIO_read(tls->out, o, sizeof o)) > 0) raw(string(o, k)); };
    pump();
    if (tls->up) {
      if (!opened) { opened = true; if (onOpen) onOpen(*this); if (autoReg) reg(); }
      string got;
      while ((n = SSL_read(tls->ssl, b, sizeof b)) > 0) got.append(b, n);
      int e = SSL_get_error(tls->ssl, n);
      if (got.size()) feed(got);
      if (!dead && (e == SSL_ERROR_ZERO_RETURN)) { die(reason.empty() ? "eof" : reason); return; }
      ERR_clear_error();
      if (!dead) pump();
    }
  } else if (d.size()) {
    if (transport == 1) {
      wsbuf += d;
      if (!wsOpen) {
        auto e = wsbuf.find("\r\n\r\n");
        if (e != string::npos) {
          string h = wsbuf.substr(0, e); wsbuf.erase(0, e + 4);
          if (h.find(" 101 ") == string::npos) { reason = h; die("ws refused: " + h); return; }
          wsOpen = true; if (onOpen) onOpen(*this); if (autoReg) reg();
        }
      }
      while (wsOpen && !dead) {
        if (wsbuf.size() < 2) break;
        int op = wsbuf[0] & 15; bool fin = wsbuf[0] & 0x80; uint64_t len = wsbuf[1] & 127; size_t h = 2;
        if (wsbuf[1] & 0x80) w->fail("ws:masked", who() + " received a masked frame");
        if (len == 126) { if (wsbuf.size() < 4) break; len = (uint8_t)wsbuf[2] << 8 | (uint8_t)wsbuf[3]; h = 4; }
        else if (len == 127) { if (wsbuf.size() < 10) break; len = 0; for (int i = 0; i < 8; i++) len = len << 8 | (uint8_t)wsbuf[2 + i]; h = 10; }
        if (wsbuf.size() < h + len) break;
        string pl = wsbuf.substr(h, len); wsbuf.erase(0, h + len);
        if (op == 8) { wsClose = pl.size() >= 2 ? ((uint8_t)pl[0] << 8 | (uint8_t)pl[1]) : 0; }
        else if (op == 9) { wsPings.push_back(w->s.now); string f; f += (char)0x8a; f += (char)(0x80 | pl.size()); f += string("\1\2\3\4", 4); for (size_t i = 0; i < pl.size(); i++) f += pl[i] ^ "\1\2\3\4"[i & 3]; raw(f); }
        else if (op == 1 || op == 2 || op == 0) {
          wsFrag += pl;
          if (fin) { string l = wsFrag; wsFrag.clear(); while (l.size() && (l.back() == '\n' || l.back() == '\r')) l.pop_back(); line(l); }
        } else if (op != 10) w->fail("ws:opcode", fmt("%s received opcode %d", who().c_str(), op));
      }
    } else feed(d);
  }
  if (dead) return;
  if (sock->avail() == 0 && (sock->rfin || sock->rstSeen)) die(reason.empty() ? (sock->rstSeen ? "reset" : "eof") : reason);
}
void Client::feed(const string& data) {
  bytesIn += data.size();
  inbuf += data; size_t i = 0;
  for (;;) {
    size_t e = inbuf.find('\n', i);
    if (e == string::npos) break;
    string l = inbuf.substr(i, e - i); i = e + 1;
    if (!l.empty() && l.back() == '\r') l.pop_back();
    line(l);
    if (dead) { inbuf.clear(); return; }
  }
  inbuf.erase(0, i);
}
void Client::raw(const string& b) {
  if (dead || !sock) return;
  if (sock->state != Sock::ESTAB) return;
  if (keepTx) tx.push_back(w->s.now);
  w->s.swrite(sock, b.data(), b.size());
}
void Client::send(const string& l) {
  if (!connected || dead) return;
  if (sent.size() < 400) sent.push_back(l);
  tracef("  %s >> %s", who().c_str(), l.substr(0, 300).c_str());
  app(transport == 1 ? l : l + "\r\n");
}
void Client::app(const string& l) {
  if (!connected || dead) return;
  if (transport == 0) { raw(l); return; }
  if (transport == 2) {
    if (!tls || !tls->up) return;
    const string& d = l; SSL_write(tls->ssl, d.data(), d.size());
    char o[4096]; int k; while ((k = BIO_read(tls->out, o, sizeof o)) > 0) raw(string(o, k));
    return;
  }
  if (!wsOpen) return;
  string f; f += (char)(0x80 | (wsBinary ? 2 : 1));
  if (l.size() < 126) f += (char)(0x80 | l.size());
  else { f += (char)(0x80 | 126); f += (char)(l.size() >> 8); f += (char)(l.size() & 255); }
  char key[4]; for (auto& c : key) c = rng.below(256);
  f.append(key, 4); for (size_t i = 0; i < l.size(); i++) f += l[i] ^ key[i & 3];
  raw(f);
}
void Client::reg() {
  if (pass.size()) send("PASS :" + pass);
  if (caps.size()) { send("CAP LS 302"); send("CAP REQ :" + join(vector<string>(caps.begin(), caps.end()))); }
  send("NICK " + wantNick);
  send("USER " + user + " 0 * :" + real);
  if (caps.size() && sendCapEnd) { send("CAP END"); capEndSent = true; }
}
void Client::die(const string& why, bool rst) {
  if (dead) return;
  dead = true; deadAt = w->s.now; if (reason.empty()) reason = why;
  tracef("  %s closed: %s", who().c_str(), why.c_str());
  if (sock) { sock->onEvent = nullptr; w->s.sclose(sock, rst); }
  if (!mayDie) w->fail("client:lost", who() + " lost its connection for no reason of its own: " + reason);
}
vector<Msg> Client::since(size_t m, const string& cmd) const {
  vector<Msg> r; for (size_t i = m; i < log.size(); i++) if (cmd.empty() || log[i].cmd == cmd) r.push_back(log[i]); return r;
}
const Msg* Client::find(const string& cmd, size_t from) const { for (size_t i = from; i < log.size(); i++) if (log[i].cmd == cmd) return &log[i]; return nullptr; }
void Client::line(const string& l) {
  if (l.empty()) return;
  linesIn++;
  Msg m = parseIrc(l); m.at = w->s.now;
  tracef("  %s << %s", who().c_str(), l.substr(0, 300).c_str());
  if (l.find('\0') != string::npos) w->fail("proto:nul", who() + " received a NUL byte in a line");
  if (m.cmd == "PING" && autoPong) send("PONG :" + m.last());
  if (m.cmd == "ERROR") reason = m.last();
  if (m.cmd == "001" && !registered) { registered = true; regAt = w->s.now; nick = m.arg(0); }
  if (m.cmd == "PONG" && startsWith(m.last(), "!b")) pongTok = std::max(pongTok, (int64_t)atoll(m.last().c_str() + 2));
  if (m.cmd == "CAP") {
    if (m.arg(1) == "ACK") for (auto& c : words(m.last())) capsAck.insert(c);
  }
  track(m);
  if (keepLog) log.push_back(m);
  if (onMsg) onMsg(*this, m);
}
void Client::track(Msg& m) {
  string who_ = lower(m.nick()), me = lower(nick);
  auto bad = [&](const string& what) { if (checkView) w->fail("view:" + m.cmd, who() + " " + what + ": " + m.raw); };
  if (m.cmd == "JOIN") {
    string c = lower(m.arg(0));
    if (who_ == me) {
      if (chans.count(c)) bad("was told it joined a channel it is already on");
      ChanView v; v.name = m.arg(0); v.members[me]; chans[c] = v;
    } else {
      auto it = chans.find(c);
      if (it == chans.end()) { bad("saw a JOIN on a channel it is not on"); return; }
      if (it->second.members.count(who_)) bad("saw a JOIN of a member already there");
      it->second.members[who_];
    }
  } else if (m.cmd == "PART" || m.cmd == "KICK") {
    string c = lower(m.arg(0)), t = m.cmd == "KICK" ? lower(m.arg(1)) : who_;
    auto it = chans.find(c);
    if (it == chans.end()) { bad("saw a departure from a channel it is not on"); return; }
    if (!it->second.members.count(t) && !it->second.modes.count('D') && !it->second.modes.count('d')) bad("saw the departure of someone not there");
    if (t == me) chans.erase(it); else it->second.members.erase(t);
  } else if (m.cmd == "QUIT") {
    bool any = false;
    for (auto& c : chans) any |= c.second.members.erase(who_) > 0;
    if (!any && who_ != me) bad("saw the QUIT of someone it shares no channel with");
  } else if (m.cmd == "NICK") {
    string to = lower(m.last());
    if (who_ == me) nick = m.last();
    bool any = false;
    for (auto& c : chans) {
      auto i = c.second.members.find(who_);
      if (i != c.second.members.end()) {
        any = true; Member mm = i->second; c.second.members.erase(i);
        if (c.second.members.count(to)) bad("saw a NICK change to the name of another member");
        c.second.members[to] = mm;
      }
    }
    if (!any && who_ != me) bad("saw the NICK change of someone it shares no channel with");
  } else if (m.cmd == "MODE") {
    if (m.arg(0).size() && strchr("#&+", m.arg(0)[0])) {
      auto it = chans.find(lower(m.arg(0)));
      if (it == chans.end() && m.arg(1) == "-Z+z" && m.prefix.find('!') == string::npos) return;   // the server shows that the channel is no longer all-TLS just before the JOIN that makes it so
      if (it == chans.end()) { bad("saw a MODE for a channel it is not on"); return; }
      auto& c = it->second;
      c.applyModes(m.p, 1);   // a change about someone just kicked may still arrive (crossing messages); it has no effect
    } else if (lower(m.arg(0)) == me) {
      bool add = true;
      for (char ch : m.arg(1)) { if (ch == '+') add = true; else if (ch == '-') add = false; else if (add) { if (umodes.find(ch) == string::npos) umodes += ch; } else umodes.erase(std::remove(umodes.begin(), umodes.end(), ch), umodes.end()); }
    }
  } else if (m.cmd == "353") {
    auto it = chans.find(lower(m.arg(2)));
    if (it != chans.end() && !it->second.namesDone)
      for (auto n : words(m.last())) {
        Member mm; while (n.size() && strchr("@+<", n[0])) { if (n[0] == '@') mm.op = true; if (n[0] == '+') mm.voice = true; if (n[0] == '<') mm.delayed = true; n.erase(0, 1); } mm.voiceUnknown = mm.op && !mm.voice;
        auto b = n.find('!'); if (b != string::npos) n = n.substr(0, b);
        it->second.members[lower(n)] = mm;
      }
  } else if (m.cmd == "366") {
    for (auto& c : splitBy(m.arg(1), ',')) { auto it = chans.find(lower(c)); if (it != chans.end()) it->second.namesDone = true; }
  } else if (m.cmd == "324") {
    auto it = chans.find(lower(m.arg(1)));
    if (it != chans.end()) { auto& c = it->second; if (!c.modesKnown) { c.modes.clear(); c.key = ""; c.limit = 0; c.applyModes(m.p, 2); c.modesKnown = true; } }
  } else if (m.cmd == "332") {
    auto it = chans.find(lower(m.arg(1))); if (it != chans.end()) it->second.topic = m.last();
  } else if (m.cmd == "TOPIC") {
    auto it = chans.find(lower(m.arg(0)));
    if (it == chans.end()) { bad("saw a TOPIC for a channel it is not on"); return; }
    it->second.topic = m.last();
  } else if (m.cmd == "381") oper = true;
}

// ------------------------------------------------------------------ view of the network held by a P10 server
string NetView::byName(const string& n) const { for (auto& s : servers) if (lower(s.second.name) == lower(n)) return s.first; return ""; }
string NetView::byNick(const string& n) const { for (auto& s : users) if (lower(s.second.nick) == lower(n)) return s.first; return ""; }
void NetView::dropUser(const string& num) {
  users.erase(num);
  for (auto it = chans.begin(); it != chans.end();) { it->second.members.erase(num); if (it->second.members.empty()) it = chans.erase(it); else ++it; }
}
void NetView::dropServer(const string& num) {
  vector<string> kids; for (auto& s : servers) if (s.second.uplink == num && s.first != num) kids.push_back(s.first);
  servers.erase(num);
  for (auto& k : kids) dropServer(k);
  vector<string> us; for (auto& u : users) if (u.second.server == num) us.push_back(u.first);
  for (auto& u : us) dropUser(u);
}
static void userModes(NUser& u, const vector<string>& a, size_t from, size_t to) {
  bool add = true; size_t ai = from + 1;
  for (char c : a[from]) {
    if (c == '+') add = true; else if (c == '-') add = false;
    else {
      if (add) u.modes.insert(c); else u.modes.erase(c);
      if (add && c == 'r' && ai < to) u.account = a[ai++];
      if (c == 'h' && add && ai < to) u.sethost = a[ai++];
    }
  }
}
void NetView::apply(const Msg& m, const string& line, const string& self) {
  // m.prefix/cmd hold the P10 source and token
  const string& src = m.prefix; const string& t = m.cmd; auto& p = m.p;
  auto odd = [&](const string& why) { if (anomalies.size() < 50) anomalies.push_back(why + ": " + line); };
  if (t == "S" || t == "SERVER") {
    if (p.size() < 6) { odd("short S"); return; }
    NServer s; s.name = p[0]; s.hops = atoi(p[1].c_str()); s.boot = atoll(p[2].c_str()); s.ts = atoll(p[3].c_str()); s.bursting = p[4][0] == 'J';
    s.num = p[5].size() >= 5 ? p[5].substr(0, 2) : p[5].substr(0, 1); s.desc = p.back(); s.uplink = t == "S" ? src : self;
    if (servers.count(s.num)) odd("server numeric already in use");
    if (byName(s.name).size()) odd("server already present");
    servers[s.num] = s;
  } else if (t == "N") {
    if (p.size() >= 8) {
      NUser u; u.nick = p[0]; u.ts = atoll(p[2].c_str()); u.user = p[3]; u.host = p[4]; u.num = p[p.size() - 2]; u.ip = p[p.size() - 3]; u.real = p.back(); u.server = src;
      if (p[5][0] == '+') userModes(u, p, 5, p.size() - 3);
      if (u.num.substr(0, 2) != src) odd("user numeric not from its server");
      if (users.count(u.num)) odd("user numeric already in use");
      string o = byNick(u.nick); if (o.size()) odd("nick already in use");
      if (!servers.count(src)) odd("user on an unknown server");
      users[u.num] = u;
    } else {
      auto it = users.find(src);
      if (it == users.end()) { odd("nick change of unknown user"); return; }
      string o = byNick(p[0]); if (o.size() && o != src) odd("nick change to a nick in use");
      it->second.nick = p[0]; if (p.size() > 1) it->second.ts = atoll(p[1].c_str());
    }
  } else if (t == "Q") { if (!users.count(src)) odd("quit of unknown user"); dropUser(src); }
  else if (t == "D") { dropUser(p.empty() ? "" : p[0]); }
  else if (t == "SQ") {
    string n = byName(p[0]); if (n.empty() && servers.count(p[0])) n = p[0];
    if (n.size()) dropServer(n);
  } else if (t == "B") {
    if (p.size() < 2) return;
    string lc = lower(p[0]); int64_t ts = atoll(p[1].c_str());
    auto& c = chans[lc];
    if (c.name.empty()) { c.name = p[0]; c.ts = ts; }
    bool wipe = false, ign = false;
    if (ts < c.ts) { wipe = true; c.ts = ts; } else if (ts > c.ts) ign = true;
    if (wipe) { c.modes.clear(); c.key = ""; c.limit = 0; c.bans.clear(); c.apass = c.upass = ""; for (auto& x : c.members) { x.second.op = x.second.voice = false; x.second.oplevel = -1; } }
    for (size_t i = 2; i < p.size(); i++) {
      if (p[i].empty()) continue;
      if (p[i][0] == '+') {
        size_t extra = 0; for (char ch : p[i]) if (strchr("klAU", ch)) extra++;
        if (!ign) { vector<string> a(p.begin() + i, p.begin() + std::min(p.size(), i + 1 + extra)); c.applyModes(a, 0); }
        i += extra;
      } else if (p[i][0] == '%') {
        bool excl = false; if (!ign) for (auto& b : words(p[i].substr(1))) { if (b == "~") { excl = true; continue; } c.bans.insert(excl ? "~" + b : b); }
      } else {
        Member cur; string mode;
        for (auto& e : splitBy(p[i], ',')) {
          auto k = e.find(':');
          if (k != string::npos) {
            cur = Member(); string f = e.substr(k + 1); int lvl = -1; bool inc = false;
            for (size_t q = 0; q < f.size(); q++) {
              if (f[q] == 'o') { cur.op = true; } else if (f[q] == 'v') cur.voice = true;
              else if (isdigit(f[q])) { lvl = atoi(f.c_str() + q); while (q + 1 < f.size() && isdigit(f[q + 1])) q++; cur.op = true; }
            }
            (void)inc; cur.oplevel = lvl;
          }
          string n = e.substr(0, k);
          if (!users.count(n)) odd("channel member unknown");
          c.members[n] = ign ? Member() : cur;
        }
      }
    }
  } else if (t == "C") { for (auto& n : splitBy(p[0], ',')) { auto& c = chans[lower(n)]; if (c.name.empty()) { c.name = n; c.ts = p.size() > 1 ? atoll(p[1].c_str()) : 0; } Member mm; mm.op = true; c.members[src] = mm; if (p.size() > 1 && atoll(p[1].c_str()) < c.ts) c.ts = atoll(p[1].c_str()); } }
  else if (t == "J") { for (auto& n : splitBy(p[0], ',')) { if (n == "0") { for (auto it = chans.begin(); it != chans.end();) { it->second.members.erase(src); if (it->second.members.empty()) it = chans.erase(it); else ++it; } continue; } auto& c = chans[lower(n)]; if (c.name.empty()) { c.name = n; c.ts = p.size() > 1 ? atoll(p[1].c_str()) : 0; } c.members[src]; } }
  else if (t == "L") { for (auto& n : splitBy(p[0], ',')) { auto it = chans.find(lower(n)); if (it == chans.end()) continue; it->second.members.erase(src); if (it->second.members.empty()) chans.erase(it); } }
  else if (t == "K") { auto it = chans.find(lower(p[0])); if (it != chans.end() && p.size() > 1) { it->second.members.erase(p[1]); if (it->second.members.empty()) chans.erase(it); } }
  else if (t == "M" || t == "OM") {
    if (p.empty()) return;
    if (strchr("#&+", p[0][0])) {
      auto it = chans.find(lower(p[0])); if (it == chans.end()) return;
      // member arguments are numerics
      it->second.applyModes(p, 1, [&](char ch, bool add, const string& a) { if (ch == 'o' || ch == 'v') { string n = a.substr(0, a.find(':')); auto k = it->second.members.find(n); if (k != it->second.members.end()) (ch == 'o' ? k->second.op : k->second.voice) = add; } });
    } else { auto it = users.find(src); if (it != users.end() && p.size() > 1) userModes(it->second, p, 1, p.size()); }
  } else if (t == "CM") {
    auto it = chans.find(lower(p[0])); if (it == chans.end() || p.size() < 2) return;
    auto& c = it->second;
    for (char ch : p[1]) {
      if (ch == 'o') for (auto& x : c.members) x.second.op = false;
      else if (ch == 'v') for (auto& x : c.members) x.second.voice = false;
      else if (ch == 'b') c.bans.clear();
      else { c.modes.erase(ch); if (ch == 'k') c.key = ""; if (ch == 'l') c.limit = 0; }
    }
  } else if (t == "T") { auto it = chans.find(lower(p[0])); if (it != chans.end()) { it->second.topic = p.back(); if (p.size() > 4) { it->second.topicTs = atoll(p[2].c_str()); it->second.topicBy = p[3]; } } }
  else if (t == "A") { auto it = users.find(src); if (it != users.end()) { it->second.away = p.size() && p.back().size(); it->second.awayMsg = p.empty() ? "" : p.back(); } }
  else if (t == "AC") { if (p.size() >= 2) { auto it = users.find(p[0]); if (it != users.end()) { string a = p[1]; if (p[1] == "R" || p[1] == "M") a = p.size() > 2 ? p[2] : ""; else if (p[1] == "U") a = ""; it->second.account = a; it->second.modes.insert('r'); } } }
  else if (t == "DE") { }
  else if (t == "GL") { if (p.size() >= 2) glines[p[1].substr(1)] = join(p); }
  else if (t == "JU") { if (p.size() >= 2) jupes[lower(p[1].substr(1))] = join(p); }
  else if (t == "SL") { if (p.size() >= 2) slines[p[1].substr(1)] = join(p); }
  else if (t == "CF") { if (p.size() >= 2) configs[p[0]] = join(p); }
}

// ------------------------------------------------------------------ P10 peers
void Peer::connect() {
  boot = w->s.nodes[node]->wall(); linkTs = boot; num = b64(numeric, 2);
  sock = w->s.connectTo(ip, w->node(node)->ip, port);
  sock->onEvent = [this] { event(); };
}
void Peer::accept(const SockP& s) { sock = s; connected = true; sock->onEvent = [this] { event(); }; boot = w->s.nodes[node]->wall(); linkTs = boot; num = b64(numeric, 2); }
void Peer::handshake() {
  send("PASS :" + pass);
  send(fmt("SERVER %s %d %lld %lld J10 %s%s %s :%s", name.c_str(), hops, (long long)boot, (long long)linkTs, num.c_str(), b64(maxClients, 3).c_str(), flags.c_str(), desc.c_str()));
}
void Peer::event() {
  if (dead) return;
  if (sock->state == Sock::FAILED) { die("connect failed"); return; }
  if (!connected && sock->state == Sock::ESTAB) { connected = true; if (autoHandshake) handshake(); }
  if (stalled) { w->s.ctr[C_reader_stall]++; return; }
  string d = w->s.sread(sock);
  inbuf += d; bytesIn += d.size(); size_t i = 0;
  for (;;) {
    size_t e = inbuf.find('\n', i); if (e == string::npos) break;
    string l = inbuf.substr(i, e - i); i = e + 1; if (l.size() && l.back() == '\r') l.pop_back();
    line(l);
    if (dead) return;
  }
  inbuf.erase(0, i);
  if (sock->avail() == 0 && (sock->rfin || sock->rstSeen)) die(reason.empty() ? (sock->rstSeen ? "reset" : "eof") : reason);
}
void Peer::raw(const string& b) { if (dead || !sock || sock->state != Sock::ESTAB) return; if (tx.size() < 100000) tx.push_back(w->s.now); w->s.swrite(sock, b.data(), b.size()); }
void Peer::send(const string& l) { tracef("  %s >> %s", name.c_str(), l.substr(0, 300).c_str()); raw(l + "\r\n"); }
void Peer::die(const string& why, bool rst) {
  if (dead) return;
  dead = true; if (reason.empty()) reason = why; tracef("  %s closed: %s", name.c_str(), why.c_str());
  if (sock) { sock->onEvent = nullptr; w->s.sclose(sock, rst); }
}
vector<Msg> Peer::since(size_t m, const string& cmd) const { vector<Msg> r; for (size_t i = m; i < log.size(); i++) if (cmd.empty() || log[i].cmd == cmd) r.push_back(log[i]); return r; }
string Peer::user(const string& nick, int64_t ts, const string& u, const string& host, const string& modes, const string& uip) {
  string n = newNum(); Addr a = Addr::parse(uip, 0);
  unsigned v = a.ip[12] << 24 | a.ip[13] << 16 | a.ip[14] << 8 | a.ip[15];
  send(fmt("%s N %s 1 %lld %s %s %s%s%s %s :fake user", num.c_str(), nick.c_str(), (long long)ts, u.c_str(), host.c_str(), modes.c_str(), modes.size() ? " " : "", b64(v, 6).c_str(), n.c_str()));
  return n;
}
void Peer::line(const string& l0) {
  if (l0.empty()) return;
  linesIn++;
  string l = l0;
  tracef("  %s << %s", name.c_str(), l.substr(0, 300).c_str());
  if (l[0] == '@') { auto e = l.find(' '); if (e != string::npos) l = l.substr(e + 1); }
  Msg m;
  if (startsWith(l, "PASS ") || startsWith(l, "SERVER ") || startsWith(l, "ERROR") || startsWith(l, "PING ") || startsWith(l, "NOTICE ") || l[0] == ':') m = parseIrc(l);
  else { m = parseIrc(":" + l); }
  m.raw = l0; m.at = w->s.now;
  if (m.cmd == "ERROR" || m.cmd == "Y") reason = m.last();
  if (m.cmd == "SERVER" && m.p.size() >= 6) { gotServer = true; uplink = m.p[5].substr(0, 2); uplinkBoot = atoll(m.p[2].c_str()); view.servers[num] = NServer{num, name, num}; }
  else if (m.cmd == "PING") send(num + " Z " + num + " :" + m.last());
  else if (m.cmd == "G" && autoPong) { if (m.p.size() >= 3) send(num + " Z " + uplink + " " + m.p[0] + " " + m.p[2] + " 0 " + m.p[2]); else send(num + " Z " + uplink + " :" + m.last()); }
  else if (m.cmd == "Z" && startsWith(m.last(), "!b")) pongTok = std::max(pongTok, (int64_t)atoll(m.last().c_str() + 2));
  view.apply(m, l, num);
  if (m.cmd == "EB" && m.prefix == uplink) {
    gotEB = true;
    if (autoEB && !sentEB) { for (auto& b : burst) send(b); send(num + " EB"); sentEB = true; }
    send(num + " EA");
  }
  if (m.cmd == "EA" && m.prefix == uplink) gotEA = true;
  if (log.size() < 20000) log.push_back(m);
  if (onMsg) onMsg(*this, m, l);
}

// ------------------------------------------------------------------ DNS server
static string dnsName(const string& q, size_t& o) {
  string r; int guard = 0;
  while (o < q.size() && q[o] && ++guard < 128) { int n = (uint8_t)q[o]; if (n > 63 || o + 1 + n > q.size()) return ""; if (r.size()) r += '.'; r += q.substr(o + 1, n); o += n + 1; }
  o++;
  return r;
}
static string encName(const string& n) { string r; for (auto& l : splitBy(n, '.')) { if (l.empty()) continue; r += (char)l.size(); r += l; } r += '\0'; return r; }
static string be16(int v) { return string{(char)(v >> 8), (char)v}; }
static string be32(unsigned v) { return be16(v >> 16) + be16(v & 0xffff); }
string DnsServer::answer(const string& q, bool tcp, bool* drop) {
  *drop = false;
  if (q.size() < 17) { *drop = true; return ""; }
  size_t o = 12; string name = lower(dnsName(q, o));
  if (o + 4 > q.size()) { *drop = true; return ""; }
  int type = (uint8_t)q[o] << 8 | (uint8_t)q[o + 1];
  string question = q.substr(12, o + 4 - 12);
  queries++; if (tcp) tcpQueries++;
  tracef("  dns query %s type %d%s", name.c_str(), type, tcp ? " (tcp)" : "");
  log.push_back(name + fmt("/%d", type));
  if (rng.chance(pSilent)) { *drop = true; return ""; }
  string id = q.substr(0, 2);
  if (rng.chance(pBogusId)) { id = be16(rng.below(65536)); S->ctr[C_dns_bogus]++; }
  int rcode = 0; string ans; int count = 0; bool tc = false;
  if (rng.chance(pServfail)) { rcode = 2; S->ctr[C_dns_bogus]++; }
  else {
    string rr = string("\xc0\x0c", 2);
    if (rng.chance(pWrongName)) { rr = encName("evil.example.com"); S->ctr[C_dns_bogus]++; }
    if (type == 12) {
      auto it = ptr.find(name);
      if (it == ptr.end() || rng.chance(pNx)) rcode = 3;
      else { string n = encName(it->second); ans += rr + be16(12) + be16(1) + be32(300) + be16(n.size()) + n; count++; }
    } else if (type == 1 || type == 28) {
      auto it = fwd.find(name);
      if (it == fwd.end() || rng.chance(pNx)) rcode = 3;
      else for (auto& a : it->second) {
        Addr x = Addr::parse(a, 0);
        if (type == 1 && x.v4()) { ans += rr + be16(1) + be16(1) + be32(300) + be16(4) + string((char*)x.ip + 12, 4); count++; }
        if (type == 28 && !x.v4()) { ans += rr + be16(28) + be16(1) + be32(300) + be16(16) + string((char*)x.ip, 16); count++; }
      }
    }
  }
  if (!tcp && rng.chance(pTrunc)) { tc = true; ans = ""; count = 0; rcode = 0; }
  string h = id + be16(0x8180 | (tc ? 0x200 : 0) | rcode) + be16(1) + be16(count) + be16(0) + be16(0);
  string r = h + question + ans;
  if (rng.chance(pGarbage)) { S->ctr[C_dns_bogus]++; int k = rng.below(4); if (k == 0) r.resize(rng.below(r.size())); else if (k == 1) for (int i = 0; i < 6; i++) r[2 + rng.below(r.size() - 2)] = rng.below(256); else if (k == 2) r += string(600, 'x'); else { r = r.substr(0, 12); for (int i = 0; i < 40; i++) r += (char)rng.below(256); } }
  return r;
}
void DnsServer::start() {
  rng = Rng(w->s.seed ^ 0xd45);
  Addr a = Addr::parse(ip, 53);
  w->s.udpActors[a.str()] = [this, a](const Addr& from, const Addr&, const string& q) {
    if (hook && hook(q, from)) return;
    bool drop; string r = answer(q, false, &drop);
    if (drop) return;
    Time d = rng.below(delayMax + 1); if (d > SEC) S->ctr[C_dns_delay]++;
    Addr src = a;
    if (rng.chance(pSpoofSrc)) { src = Addr::parse("10.66.6.6", 53); S->ctr[C_dns_bogus]++; }
    int n = rng.chance(pDup) ? 2 : 1;
    for (int i = 0; i < n; i++) w->s.after(d + i * 1000, [this, src, from, r] { w->s.udpSend(src, from, r); }, false);
  };
  w->s.tcpActors[a.str()] = [this](SockP c) {
    auto buf = std::make_shared<string>(); SockP keep = c;
    c->onEvent = [this, keep, buf] {
      *buf += w->s.sread(keep);
      while (buf->size() >= 2) {
        size_t n = (uint8_t)(*buf)[0] << 8 | (uint8_t)(*buf)[1]; if (buf->size() < 2 + n) break;
        string q = buf->substr(2, n); buf->erase(0, 2 + n);
        bool drop; string r = answer(q, true, &drop);
        if (drop) { if (rng.chance(0.5)) { w->s.sclose(keep, rng.chance(0.5)); return; } continue; }
        string o = be16(r.size()) + r;
        Time d = rng.below(delayMax + 1);
        w->s.after(d, [this, keep, o] { w->s.swrite(keep, o.data(), o.size()); }, false);
      }
      if (keep->rfin || keep->rstSeen) { w->s.sclose(keep); }
    };
  };
}

// ------------------------------------------------------------------ the world
World::World(const Plan& p) : plan(p) {
  W = this; S = &s; s.seed = p.seed; s.rng = Rng(p.seed ^ 0x5eed); s.netrng = Rng(p.seed ^ 0x0e7); rng = Rng(p.seed ^ 0x3071d); dns.w = this;
  s.mix(p.seed);
  s.latMin = p.num("lat.min", 200); s.latMax = p.num("lat.max", 1500);
  if (s.latMax < s.latMin) s.latMax = s.latMin;
  s.slatMin = p.num("slat.min", 0); s.slatMax = p.num("slat.max", 0);
  cryptoSeed(p.seed);
  features = {{"HUB", "TRUE"}, {"NODNS", "TRUE"}, {"CONFIG_OPERCMDS", "TRUE"}, {"NETWORK", "SimNet"}};
}
void World::addServer(const string& name, vector<int> autoTo) {
  SrvSpec x; int i = srv.size();
  x.name = name.empty() ? fmt("s%d.sim.net", i) : name; x.numeric = i + 1; x.autoTo = autoTo;
  srv.push_back(x);
  Node* n = s.addNode(x.name, fmt("10.1.0.%d", i + 1));
  n->schedMax = 0;
}
string World::config(int i) {
  auto& c = srv[i]; Node* n = node(i);
  string o;
  o += fmt("General { name = \"%s\"; vhost = \"%s\"; vhost = \"%s\"; description = \"Sim %d\"; numeric = %d;%s%s };\n", c.name.c_str(), n->ip.c_str(), n->ip6.c_str(), i, c.numeric,
           c.dns.size() ? fmt(" dns server = \"%s\";", c.dns.c_str()).c_str() : "", c.tls ? " tls certfile = \"server.pem\"; tls keyfile = \"server.key\";" : "");
  o += "Admin { Location = \"a\"; Location = \"b\"; Contact = \"c\"; };\n";
  o += fmt("Class { name = \"Server\"; pingfreq = %d seconds; connectfreq = %d seconds; sendq = %lld bytes; maxlinks = 50; };\n", c.pingfreqS, c.connectfreq, (long long)c.sendqS);
  o += fmt("Class { name = \"Local\"; pingfreq = %d seconds; sendq = %lld bytes; maxlinks = 200; usermode = \"\"; };\n", c.pingfreqC, (long long)c.sendqC);
  o += fmt("Class { name = \"Exempt\"; pingfreq = %d seconds; sendq = %lld bytes; maxflood = %lld bytes; maxlinks = 200; };\n", c.pingfreqC, (long long)c.sendqC, (long long)c.maxfloodX);
  if (c.clientBlocks.size()) o += c.clientBlocks;
  else o += "Client { ip = \"*\"; class = \"Local\"; maxlinks = 200; };\nClient { ip = \"*\"; port = 6668; class = \"Exempt\"; maxlinks = 200; };\nClient { ip = \"*\"; port = 7002; class = \"Exempt\"; maxlinks = 200; };\nClient { ip = \"*\"; port = 6697; class = \"Exempt\"; maxlinks = 200; };\n";
  for (size_t j = 0; j < srv.size(); j++) {
    if ((int)j == i) continue;
    bool no = false; for (int x : c.noConnect) if (x == (int)j) no = true;
    if (no) continue;
    bool au = false; for (int x : c.autoTo) if (x == (int)j) au = true;
    o += fmt("Connect { name = \"%s\"; host = \"%s\"; port = 4400; password = \"%s\"; class = \"Server\"; hub; autoconnect = %s; };\n", srv[j].name.c_str(), node(j)->ip.c_str(), c.linkpass.c_str(), au ? "yes" : "no");
  }
  for (int j = 0; j < 8; j++) o += fmt("Connect { name = \"f%d.sim.net\"; host = \"10.9.0.%d\"; password = \"linkpass\"; class = \"Server\"; hub; autoconnect = no; };\n", j, j + 1);
  o += "Connect { name = \"svc.sim.net\"; host = \"10.9.0.100\"; password = \"linkpass\"; class = \"Server\"; hub; autoconnect = no; };\n"; o += uworldOper ? "UWorld { oper = \"svc.sim.net\"; };\n" : "UWorld { name = \"svc.sim.net\"; };\n";
  o += "Operator { local = no; class = \"Exempt\"; host = \"*@*\"; password = \"$PLAIN$operpass\"; name = \"gop\"; set = yes; gline = yes; wide_gline = yes; force_opmode = yes; badchan = yes; force_local_opmode = yes; };\n";
  o += "Operator { local = yes; class = \"Exempt\"; host = \"*@*\"; password = \"$PLAIN$operpass\"; name = \"lop\"; };\n";
  o += "Port { server = yes; port = 4400; };\nPort { port = 6667; };\nPort { port = 6668; };\nPort { websocket = yes; port = 7000; };\nPort { websocket = yes; port = 7002; };\n";
  if (c.tls) o += "Port { tls = yes; port = 6697; };\n";
  if (c.iauth.size()) o += c.iauth;
  o += "Features {\n";
  map<string, string> f = features; for (auto& x : c.features) f[x.first] = x.second;
  for (auto& x : f) if (x.second != "") o += fmt("  \"%s\" = \"%s\";\n", x.first.c_str(), x.second.c_str());
  o += "  \"LOG\" = \"SYSTEM\" \"FILE\" \"ircd.log\"; \"LOG\" = \"SYSTEM\" \"LEVEL\" \"CRIT\";\n";
  o += "};\n" + extraConf + c.extra;
  return o;
}
void World::writeConfig(int i) { auto f = std::make_shared<VFile>(); f->data = config(i); node(i)->fs["ircd.conf"] = f; }
void World::applyFaultKnobs() {
  s.chunkMode = plan.num("chunk", 0); s.pEagain = plan.real("eagain", 0); s.pShort = plan.real("short", 0);
  s.udpDrop = plan.real("udp.drop", 0); s.udpDup = plan.real("udp.dup", 0); s.udpJitter = plan.num("udp.jitter", 2000);
  s.rstLoss = plan.real("rstloss", 0.5);
  s.capServer = plan.num("cap.server", 65536); s.capClient = plan.num("cap.client", 65536);
  for (auto& n : s.nodes) {
    n->schedMax = plan.num("sched", 0); n->pSubset = plan.real("subset", 0); n->shuffle = !plan.num("noshuffle", 0);
    if (plan.num("poll", 0)) n->noEpoll = plan.num("poll") == 1 || (plan.num("poll") == 2 && n->idx % 2);
    n->clockOff = plan.num(fmt("clk%d", n->idx), 0) * MS;
  }
}
void World::stopFaults() {
  s.pEagain = s.pShort = 0; s.chunkMode = 0; s.udpDrop = s.udpDup = 0; s.healAll();
  for (auto& n : s.nodes) { n->schedMax = 0; n->pSubset = 0; n->stallUntil = 0; n->disk = DiskFaults(); n->pAcceptFail = n->pSocketFail = n->pEpollCtlFail = 0; n->killAtSyscall = -1; n->mallocFailAt = -1; s.poke(n.get()); }
}
void World::start(bool wait) {
  applyFaultKnobs();
  for (size_t i = 0; i < srv.size(); i++) { writeConfig(i); s.boot(node(i)); }
  if (wait) {
    if (!until([&] { for (auto& n : s.nodes) if (!n->listening || n->st != Node::BLOCKED) return false; return true; }, 60 * SEC)) {
      string why; for (auto& n : s.nodes) why += fmt("%s st=%d rc=%d %s %s; ", n->name.c_str(), n->st, n->exitCode, n->exitWhy.c_str(), n->err.c_str());
      fail("harness:boot", "servers did not start: " + why);
    }
    if (srv.size() > 1) waitLinked();
  }
}
vector<std::pair<int,int>> World::links() const { vector<std::pair<int,int>> v; for (size_t i = 0; i < srv.size(); i++) for (int j : srv[i].autoTo) v.push_back({(int)i, j}); return v; }
// Two servers count as linked when an established stream between them has carried data both ways (server port).
bool World::isLinked(int a, int b) {
  Node *na = node(a), *nb = node(b);
  if (na->st == Node::DEAD || na->st == Node::OFF || nb->st == Node::DEAD || nb->st == Node::OFF) return false;
  for (auto& p : na->fds) {
    auto& k = p.second; if (k->kind != Sock::TCP || k->state != Sock::ESTAB || k->rfin || k->rstSeen || k->wfin) continue;
    auto pe = k->peer.lock(); if (!pe || pe->node != nb || pe->state != Sock::ESTAB) continue;
    for (auto& q : nb->fds) if (q.second == pe) return true;
  }
  return false;
}
bool World::waitLinked(Time max, vector<std::pair<int,int>> want) {
  if (want.empty()) want = links();
  return until([&] { for (auto& l : want) if (!isLinked(l.first, l.second)) return false; return s.quiet(); }, max);
}
bool World::until(std::function<bool()> cond, Time max) {
  Time lim = s.now + max;
  while (!cond()) {
    if (s.q.empty() || s.q.top().at > lim) { if (s.now < lim) s.now = lim; return cond(); }
    s.step();
  }
  return true;
}
Client* World::mk(int nd, const string& nick, int port, const string& ip) {
  auto c = std::make_unique<Client>();
  c->w = this; c->id = cl.size(); c->node = nd; c->port = port; c->wantNick = nick; c->user = "u" + std::to_string(c->id);
  int k = nextIp++;
  c->ip = ip.empty() ? fmt("10.20.%d.%d", k / 250, 1 + k % 250) : ip;
  if (port == 7000 || port == 7002) c->transport = 1;
  if (port == 6697) c->transport = 2;
  cl.push_back(std::move(c)); return cl.back().get();
}
Client* World::client(int nd, const string& nick, int port, const string& ip) { auto c = mk(nd, nick, port, ip); c->connect(); return c; }
Peer* World::peer(int nd, int idx) {
  auto p = std::make_unique<Peer>(); p->w = this; p->id = pr.size(); p->node = nd; p->ip = fmt("10.9.0.%d", idx + 1); p->name = fakeName(idx); p->numeric = 100 + idx;
  pr.push_back(std::move(p)); return pr.back().get();
}
Peer* World::service(int nd) { Peer* p = peer(nd, 0); p->ip = "10.9.0.100"; p->name = "svc.sim.net"; p->numeric = 200; p->flags = "+s6"; return p; }
bool World::waitReg(Time max) { return until([&] { for (auto& c : cl) if (c->sock && !c->dead && !c->registered) return false; return true; }, max); }
bool World::settle(Time max, bool must) {
  static int64_t tok = 0;
  Time lim = s.now + max;
  for (int round = 0; round < 2; round++) {
    int64_t t = ++tok; set<Client*> asked;
    for (auto& c : cl) if (c->ok() && !c->stalled) { asked.insert(c.get()); c->send(fmt("PING :!b%lld", (long long)t)); }
    bool done = until([&] {
      for (auto c : asked) if (c->ok() && !c->stalled && c->pongTok < t) return false;
      return s.quiet(); }, lim - s.now);
    if (!done) {
      if (!must) return false;
      string w_; for (auto c : asked) if (c->ok() && !c->stalled && c->pongTok < t) w_ += c->who() + " ";
      fail("liveness:settle", fmt("no reply to PING within %lld s of simulated time after faults stopped: %s%s", (long long)(max / SEC), w_.c_str(), s.quiet() ? "" : "(network still busy)"));
    }
  }
  return true;
}
Client* World::byNick(const string& n) { for (auto& c : cl) if (c->ok() && lower(c->nick) == lower(n)) return c.get(); return nullptr; }
string World::query(Client* c, const string& l, const string& end, vector<Msg>& out, Time max) {
  size_t m = c->log.size(); c->send(l); size_t endAt = 0;
  auto ends = splitBy(end, '|');
  bool ok = until([&] { for (size_t i = std::max(m, endAt); i < c->log.size(); i++) { for (auto& e : ends) if (c->log[i].cmd == e) { endAt = i + 1; return true; } } endAt = c->log.size(); return c->dead; }, max);
  if (!ok) fail("liveness:query", c->who() + ": no complete answer to: " + l);
  if (c->dead) return "dead";
  for (size_t i = m; i < endAt; i++) out.push_back(c->log[i]);
  return out.empty() ? "" : out.back().cmd;
}
map<int, NetView> World::dumpAll(const char* why, bool) {
  map<int, NetView> r; vector<Peer*> ps;
  for (size_t i = 0; i < srv.size(); i++) {
    if (node(i)->st != Node::BLOCKED && node(i)->st != Node::RUNNING) continue;
    Peer* p = peer(i, 7 - (int)i); p->desc = "probe";
    p->connect();
    if (!until([&] { return p->dead || p->linked(); }, 60 * SEC) || p->dead) fail("probe:link", fmt("%s: a configured server could not link to %s: %s", why, srv[i].name.c_str(), p->reason.c_str()));
    r[i] = p->view; // exactly the burst
    r[i].servers.erase(p->num);
    for (auto it = r[i].servers.begin(); it != r[i].servers.end();) it = it->second.desc == "probe" ? r[i].servers.erase(it) : std::next(it);   // this and any earlier probe
    until([&] { return s.quiet(); }, 30 * SEC);
    p->send(p->num + " SQ " + srv[i].name + " 0 :done"); 
    until([&] { return p->dead; }, 10 * SEC); p->die("done");
    until([&] { return s.quiet(); }, 30 * SEC);
  }
  return r;
}
void genNetKnobs(Plan& p, Rng& r, int level) {
  if (level >= 1) {
    if (r.chance(0.5)) { static const int L[] = {2000, 20000, 80000, 400000}; p.set("lat.max", L[r.below(4)]); }
    if (r.chance(0.4)) p.set("chunk", 1 + r.below(3));
    if (r.chance(0.4)) p.set("sched", vector<int>{1000, 20000, 300000}[r.below(3)]);
    if (r.chance(0.4)) p.setr("subset", 0.3 + 0.6 * r.below(2) * 0.9);
    if (r.chance(0.15)) p.set("poll", 1 + r.below(2));
  }
  if (level >= 2) {
    if (r.chance(0.4)) p.setr("eagain", r.chance(0.5) ? 0.05 : 0.3);
    if (r.chance(0.4)) p.setr("short", r.chance(0.5) ? 0.1 : 0.5);
    if (r.chance(0.2)) p.set("cap.server", vector<int>{600, 2048, 8192}[r.below(3)]);
    if (r.chance(0.2)) p.set("cap.client", vector<int>{600, 2048, 8192}[r.below(3)]);
    if (r.chance(0.3)) { p.set("slat.min", 1000); p.set("slat.max", vector<int>{50000, 500000, 3000000}[r.below(3)]); }
  }
}
