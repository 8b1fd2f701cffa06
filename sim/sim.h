// Deterministic simulator for ircu2: kernel, network, scheduler.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <cstdarg>

typedef int64_t Time;  // microseconds of simulated time
static const Time MS = 1000, SEC = 1000000;
static const int64_t EPOCH = 1700000000;  // simulated wall clock at t=0
static const Time NEVER = INT64_MAX / 4;
using std::string; using std::vector; using std::map; using std::set; using std::shared_ptr;

uint64_t mix64(uint64_t x);
uint64_t hashstr(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL);
inline uint64_t hashstr(const string& s, uint64_t h = 0xcbf29ce484222325ULL) { return hashstr(s.data(), s.size(), h); }
string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

struct Rng {
  uint64_t s = 1;
  Rng() {}
  explicit Rng(uint64_t seed) : s(mix64(seed + 0x9e3779b97f4a7c15ULL)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  int64_t below(int64_t n) { return n <= 1 ? 0 : (int64_t)(next() % (uint64_t)n); }
  int64_t range(int64_t a, int64_t b) { return a + below(b - a + 1); }
  bool chance(double p) { return p > 0 && (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> const T& pick(const vector<T>& v) { return v[below(v.size())]; }
  template <class T> T& pick(vector<T>& v) { return v[below(v.size())]; }
  template <class T> void shuffle(vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]); }
};

struct Addr {
  uint8_t ip[16] = {0};
  uint16_t port = 0;
  bool v4() const { static const uint8_t z[12] = {0,0,0,0,0,0,0,0,0,0,0xff,0xff}; return !memcmp(ip, z, 12); }
  bool any() const { for (int i = 0; i < 16; i++) if (ip[i] && !(v4() && i >= 10 && i < 12)) return false; return true; }
  static Addr parse(const string& s, int port);
  string ipstr() const;
  string str() const { return ipstr() + "#" + std::to_string(port); }
  string key() const { return string((const char*)ip, 16); }
};

// fault / event counters, reported in the evidence
#define SIM_COUNTERS(X) X(segments) X(bytes) X(conns) X(conn_refused) X(conn_timeout) X(chunk_split) X(short_read) X(short_write) \
  X(eagain_read) X(eagain_write) X(enobufs_write) X(rst) X(rst_loss) X(fin) X(partition) X(heal) X(held_segments) X(crash) X(crash_mid_syscall) X(restart) X(reexec) \
  X(udp_sent) X(udp_drop) X(udp_dup) X(udp_reorder) X(clock_jump) X(slow_wake) X(subset_wake) X(epoll_shuffle) X(eintr) X(signal) \
  X(accept_fail) X(socket_fail) X(epollctl_fail) X(open_fail) X(read_eio) X(write_enospc) X(file_short_read) X(file_short_write) X(malloc_fail) \
  X(reader_stall) X(dns_delay) X(dns_bogus) X(slices) X(syscalls) X(link_cut) X(poll_engine) X(client_kill) X(backpressure)
enum Ctr {
#define X(n) C_##n,
  SIM_COUNTERS(X)
#undef X
  C_MAX
};
extern const char* ctrNames[];

struct Node; struct Sock; struct Sim;
typedef shared_ptr<Sock> SockP;

struct VFile { string data; bool isdev = false; };

struct EpItem { SockP s; uint32_t events; uint64_t data; };

struct Sock {
  enum Kind { TCP, LISTEN, UDP, PIPE, EPOLL, FILE_ } kind = TCP;
  enum State { FRESH, CONNECTING, ESTAB, FAILED, CLOSED } state = FRESH;
  int refs = 0;
  uint64_t id = 0;
  Node* node = nullptr;                 // owning node, or null if an actor owns it
  bool nonblock = false;
  bool isPair = false;                  // socketpair / pipe end
  int family = 2;
  Addr local, remote;
  // stream
  std::weak_ptr<Sock> peer;
  string rbuf; size_t roff = 0;
  bool rfin = false, wfin = false;      // peer's FIN arrived; our FIN was sent
  int err = 0;
  bool rstSeen = false;
  uint64_t wrote = 0;                    // bytes ever accepted from our side
  size_t outstanding = 0;               // bytes we wrote that the peer has not read
  size_t cap = 65536;
  bool wasFull = false, wroteOnce = false;
  Time lastArr = 0;
  Rng rng;
  int chunkMode = 0; Time latMin = 0, latMax = 0; double pEagain = 0, pShort = 0;
  std::deque<std::function<void()>> held;  // segments towards this socket kept back by a partition
  std::function<void()> onEvent;        // actor-owned: something arrived
  // listen
  std::deque<SockP> acceptq;
  // udp
  std::deque<std::pair<Addr, string>> dgrams;
  bool udpConnected = false;
  // epoll
  map<int, EpItem> items;
  // file
  shared_ptr<VFile> file; string path; size_t off = 0; int flags = 0;
  size_t avail() const { return rbuf.size() - roff; }
};

struct DiskFaults { double openFail = 0, readEio = 0, readShort = 0, writeFail = 0, writeShort = 0; set<string> failPaths; };

struct Node {
  int idx = 0;
  string name, ip, ip6;
  void* dl = nullptr;
  int (*entry)(int, char**) = nullptr;
  enum St { OFF, RUNNING, BLOCKED, DEAD } st = OFF;
  // context
  char* stack = nullptr; size_t stackSize = 1 << 20;
  void* sp = nullptr;
  void* fakeStack = nullptr;
  vector<std::pair<char*, size_t>> segs; vector<string> pristine;
  bool dirty = false;
  // kernel state
  map<int, SockP> fds;
  map<string, shared_ptr<VFile>> fs;
  map<int, void (*)(int)> sigs; set<int> sigIgn;
  std::deque<int> pendSig;
  int exitCode = 0; string exitWhy; bool exited = false;
  string err;                          // stderr/stdout capture
  Time clockOff = 0;
  uint64_t wakeGen = 0; Time wakeAt = NEVER, deadline = NEVER; bool blockedInf = false;
  bool timedOut = false; Time spinFrom = 0; int spins = 0;
  Time schedMax = 0; Time stallUntil = 0;
  Rng rng;
  DiskFaults disk;
  double pAcceptFail = 0, pSocketFail = 0, pEpollCtlFail = 0;
  bool noEpoll = false; bool shuffle = true; double pSubset = 0;
  int64_t killAtSyscall = -1; int64_t mallocFailAt = -1; int64_t nmalloc = 0;
  int64_t liveBytes = 0, liveBlocks = 0;
  vector<SockP> lastPairs;             // child ends of recent socketpairs (for fork/exec emulation)
  int boots = 0; int pid = 100;
  bool autoReexec = true;
  bool listening = false;
  time_t wall() const;
};

struct Event { Time at; uint64_t seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Event& a, const Event& b) const { return a.at != b.at ? a.at > b.at : a.seq > b.seq; } };

struct Violation { string cls, msg; };

struct Sim {
  Time now = 0;
  uint64_t seq = 0;
  uint64_t hash = 0;
  uint64_t schedHash = 0;
  std::priority_queue<Event, vector<Event>, EvCmp> q;
  vector<std::unique_ptr<Node>> nodes;
  Rng rng, netrng;
  uint64_t seed = 0;
  uint64_t nextSock = 1;
  uint64_t ctr[C_MAX] = {0};
  // network knobs
  Time latMin = 200, latMax = 3000; int chunkMode = 0; double pEagain = 0, pShort = 0, rstLoss = 0.5;
  Time slatMin = 0, slatMax = 0; // server-server latency (0: same)
  double udpDrop = 0, udpDup = 0; Time udpJitter = 2000;
  size_t capServer = 65536, capClient = 65536;
  set<std::pair<string, string>> cut;  // blocked IP pairs (address keys, both orders)
  set<string> cutHost;
  uint64_t liveEvents = 0;             // queued events that are not timer wake-ups
  map<string, std::function<void(SockP)>> tcpActors;                       // addr.str() -> accept
  map<string, std::function<void(const Addr&, const Addr&, const string&)>> udpActors;  // (from,to,data)
  std::function<void(Node*, vector<string>, SockP io, SockP err)> onExec;  // helper process started
  std::function<void(Node*)> onNodeExit;
  std::function<void(SockP, Node*)> onAccept;
  std::function<void(SockP)> onConnect;
  bool trace = false;
  int64_t steps = 0, maxSteps = 20000000;

  void at(Time t, std::function<void()> f, bool live = true);
  void after(Time d, std::function<void()> f, bool live = true) { at(now + d, std::move(f), live); }
  bool step();                          // run one event
  void runFor(Time d);
  void runUntil(Time t);
  bool quiet() const { return liveEvents == 0; }
  void mix(uint64_t v) { hash = mix64(hash ^ (v + 0x9e3779b97f4a7c15ULL)); }
  Node* addNode(const string& name, const string& ip);
  void boot(Node* n);
  void crash(Node* n, bool mid = false);
  void signal(Node* n, int sig);
  void poke(Node* n, Time extra = 0);                   // something n may be waiting for changed
  void poke(Sock* s);
  bool blocked(const Addr& a, const Addr& b) const;
  void partition(const string& ipa, const string& ipb);
  void heal(const string& ipa, const string& ipb);
  void healAll();
  void flushHeld();
  // streams for actors
  SockP connectTo(const string& fromIp, const string& toIp, int port, int fromPort = 0);
  ssize_t swrite(const SockP& s, const char* p, size_t n);
  string sread(const SockP& s, size_t max = SIZE_MAX);
  void sclose(const SockP& s, bool rst = false);
  void udpSend(const Addr& from, const Addr& to, const string& data);
  [[noreturn]] void fail(const string& cls, const string& msg);
  // internals
  void deliver(const SockP& from, const SockP& to, string data, bool fin, bool rst);
  void unref(SockP s);
  void doClose(const SockP& s, bool rst);
  SockP mk(Sock::Kind k, Node* n);
  void link(const SockP& a, const SockP& b);
  void setup(const SockP& s);
  void wake(Node* n, uint64_t gen);
  void switchTo(Node* n);
  SockP findListener(const Addr& a);
  void startConnect(const SockP& s, const Addr& to);
  vector<SockP> allStreams;
};
extern Sim* S;
extern Node* cur;
void loadImages(const string& prefix, int n);
[[noreturn]] void endRun(const Violation* v);   // supplied by the driver
void tracef(const char* f, ...) __attribute__((format(printf, 1, 2)));
void cryptoSeed(uint64_t seed);
