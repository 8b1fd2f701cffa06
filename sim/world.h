// Actors around the simulated servers: IRC clients, P10 servers, DNS, ident, iauth; configuration; run plans.
#pragma once
#include "sim.h"

struct Plan {
  string prop; uint64_t seed = 0;
  map<string, string> knobs;   // absent = neutral
  vector<string> ops;
  int64_t num(const string& k, int64_t def = 0) const { auto i = knobs.find(k); return i == knobs.end() ? def : atoll(i->second.c_str()); }
  double real(const string& k, double def = 0) const { auto i = knobs.find(k); return i == knobs.end() ? def : atof(i->second.c_str()); }
  string str(const string& k, const string& def = "") const { auto i = knobs.find(k); return i == knobs.end() ? def : i->second; }
  bool has(const string& k) const { return knobs.count(k); }
  void set(const string& k, int64_t v) { knobs[k] = std::to_string(v); }
  void setr(const string& k, double v) { knobs[k] = fmt("%.4f", v); }
  void op(const char* f, ...) __attribute__((format(printf, 2, 3)));
};

struct Msg {
  string tags, prefix, cmd; vector<string> p; string raw; Time at = 0;
  string nick() const { auto i = prefix.find('!'); return i == string::npos ? prefix : prefix.substr(0, i); }
  string last() const { return p.empty() ? "" : p.back(); }
  const string& arg(size_t i) const { static string e; return i < p.size() ? p[i] : e; }
  map<string, string> tagMap() const;
};
Msg parseIrc(const string& line);
string lower(const string& s);              // IRC case folding
vector<string> words(const string& s);
vector<string> splitBy(const string& s, char c);
string b64(unsigned v, int w);
unsigned unb64(const string& s);
string join(const vector<string>& v, const string& sep = " ");
bool startsWith(const string& s, const string& p);

struct World;

struct Member { bool op = false, voice = false; int oplevel = -1; bool delayed = false, voiceUnknown = false; bool operator==(const Member& o) const { return op == o.op && voice == o.voice; } };
struct ChanView {
  string name; map<string, Member> members; set<char> modes; string key; int limit = 0; set<string> bans; string topic; string topicBy; bool namesDone = false; bool modesKnown = false;
  string apass, upass; int64_t ts = 0, topicTs = 0;
  void applyModes(const vector<string>& a, size_t from, std::function<void(char, bool, const string&)> onItem = nullptr);
  string modeStr() const;
};

struct Client {
  World* w = nullptr; int id = 0; int node = 0; SockP sock; string ip; int port = 6668;
  string wantNick, user, real = "real name", pass; string nick;
  bool connected = false, registered = false, dead = false, closing = false; string reason;
  string inbuf; vector<Msg> log; size_t mark = 0;
  bool keepLog = true, autoPong = true, autoReg = true, stalled = false, checkView = false, mayDie = false;
  Time deadAt = 0, bornAt = 0, regAt = 0;
  int64_t pingTok = 0, pongTok = 0;
  set<string> caps;                          // to request
  set<string> capsAck; bool capEndSent = false; bool sendCapEnd = true;
  map<string, ChanView> chans;
  string umodes; string host, account; bool oper = false;
  // transport
  int transport = 0;                         // 0 plain, 1 websocket, 2 tls
  string wsbuf; bool wsOpen = false; string wsFrag; int wsClose = -1; string outq; Rng rng; bool wsBinary = false; string wsHeaders;
  struct Tls* tls = nullptr; bool opened = false;
  std::function<void(Client&, Msg&)> onMsg;
  std::function<void(Client&)> onOpen;
  uint64_t bytesIn = 0, linesIn = 0; bool keepTx = false; vector<Time> tx, wsPings;   // when bytes were put on the wire
  vector<string> sent;
  string who() const { return fmt("client%d(%s@s%d)", id, nick.empty() ? wantNick.c_str() : nick.c_str(), node); }

  void connect();
  void event();
  void feed(const string& data);
  void line(const string& l);
  void track(Msg& m);
  void app(const string& bytes);             // bytes inside the transport layer (a TLS record, a WebSocket message)
  void raw(const string& bytes);             // bytes on the wire (after the transport layer)
  void send(const string& l);                // one line
  void reg();
  void die(const string& why, bool rst = false);
  bool live() const { return connected && !dead; }
  bool ok() const { return registered && !dead; }
  vector<Msg> since(size_t m, const string& cmd = "") const;
  const Msg* find(const string& cmd, size_t from = 0) const;
  void transportRead();
  void flushOut();
};

struct NUser { string num, nick, user, host, ip, real, account, server; int64_t ts = 0; set<char> modes; string sethost; bool away = false; string awayMsg; };
struct NServer { string num, name, uplink, desc; int64_t boot = 0, ts = 0; int hops = 0; bool bursting = false; };
struct NetView {
  map<string, NServer> servers; map<string, NUser> users; map<string, ChanView> chans;
  map<string, string> glines, jupes, slines, configs;
  vector<string> anomalies;
  void apply(const Msg& m, const string& line, const string& self);
  void dropServer(const string& num);
  void dropUser(const string& num);
  string byName(const string& n) const; string byNick(const string& n) const;
};

struct Peer {
  World* w = nullptr; int id = 0; int node = 0; SockP sock; string ip, name, num, pass = "linkpass", desc = "fake server", flags = "+6";
  int numeric = 0; int64_t boot = 0, linkTs = 0; int maxClients = 4095; int port = 4400; int hops = 1;
  bool connected = false, gotServer = false, gotEB = false, gotEA = false, dead = false, sentEB = false, autoEB = true, stalled = false, autoPong = true, autoHandshake = true;
  string reason, inbuf, uplink; int64_t uplinkBoot = 0;
  vector<Msg> log; vector<string> burst;     // our own burst lines, sent before EB
  NetView view; int next = 0;
  uint64_t linesIn = 0, bytesIn = 0; int64_t pingTok = 0, pongTok = 0; vector<Time> tx;
  std::function<void(Peer&, Msg&, const string&)> onMsg;
  void connect();
  void accept(const SockP& s);
  void event(); void line(const string& l);
  void raw(const string& b); void send(const string& l);
  void handshake();
  void die(const string& why, bool rst = false);
  bool live() const { return connected && !dead; }
  bool linked() const { return live() && gotEB; }
  string user(const string& nick, int64_t ts, const string& u = "fake", const string& host = "fake.host", const string& modes = "+", const string& ip = "10.8.0.1"); // returns numnick and sends N
  string newNum() { return num + b64(next++, 3); }
  vector<Msg> since(size_t m, const string& cmd = "") const;
};

struct SrvSpec {
  string name; int numeric = 1; vector<int> autoTo; map<string, string> features; string extra; bool hub = true;
  int connectfreq = 15, pingfreqS = 90, pingfreqC = 90; int64_t sendqS = 9000000, sendqC = 1000000, maxfloodX = 262144;
  string dns; string iauth; bool tls = false; string clientBlocks;  // replaces default Client blocks
  string linkpass = "linkpass"; vector<int> noConnect;
};

struct DnsServer {
  World* w = nullptr; string ip = "10.3.0.53";
  map<string, string> ptr;                 // reverse name -> host name
  map<string, vector<string>> fwd;         // host -> addresses
  // behaviour
  double pSilent = 0, pServfail = 0, pBogusId = 0, pGarbage = 0, pDup = 0, pTrunc = 0, pSpoofSrc = 0, pWrongName = 0, pNx = 0; Time delayMax = 0;
  Rng rng; uint64_t queries = 0, tcpQueries = 0; set<string> tcpClose;
  vector<string> log;
  std::function<bool(const string& q, const Addr& from)> hook;   // true: handled elsewhere
  void start();
  string answer(const string& query, bool tcp, bool* drop);
};

struct World {
  Sim s; const Plan& plan; Rng rng;
  vector<SrvSpec> srv; vector<std::unique_ptr<Client>> cl; vector<std::unique_ptr<Peer>> pr; DnsServer dns;
  map<string, string> features;
  string extraConf; bool uworldOper = false;
  explicit World(const Plan& p);
  void addServer(const string& name = "", vector<int> autoTo = {});
  string config(int i);
  void writeConfig(int i) ;
  void start(bool waitLinked = true);
  Node* node(int i) { return s.nodes[i].get(); }
  string name(int i) { return srv[i].name; }
  Client* client(int node, const string& nick, int port = 6668, const string& ip = "");
  Client* mk(int node, const string& nick, int port = 6668, const string& ip = "");
  Peer* peer(int node, int idx);                // configured fake server fN
  Peer* service(int node);                      // svc.sim.net, which may set accounts (UWorld)
  bool until(std::function<bool()> cond, Time max);
  bool settle(Time max = 300 * SEC, bool mustHold = true);
  bool waitReg(Time max = 60 * SEC);
  bool waitLinked(Time max = 300 * SEC, vector<std::pair<int,int>> want = {});
  bool linkedAll();
  bool isLinked(int a, int b);
  [[noreturn]] void fail(const string& cls, const string& msg) { s.fail(cls, msg); }
  void applyFaultKnobs();
  void stopFaults();
  Client* byNick(const string& n);
  string query(Client* c, const string& line, const string& endNumeric, vector<Msg>& out, Time max = 60 * SEC);
  string fakeName(int i) { return fmt("f%d.sim.net", i); }
  vector<string> split(int i);
  int nextIp = 1;
  vector<std::pair<int,int>> links() const;
  map<int, NetView> dumpAll(const char* why, bool probeEach = true);
};
extern World* W;

// coverage features of a run (distinct-state measure)
void cover(uint64_t f);
void coverTransition(const string& s);
uint64_t featureCount();

struct Prop {
  const char* id; const char* title; const char* rule; const char* faults;
  void (*gen)(Plan&, Rng&);
  void (*run)(const Plan&);
  double weight;                  // relative time
  const char* real_stub;
  vector<string> assumptions;
};
vector<Prop>& props();
struct RegProp { RegProp(Prop p) { props().push_back(p); } };
void genNetKnobs(Plan& p, Rng& r, int level);    // level 0: benign, 1: delays and chunking, 2: everything that loses nothing on the wire
