// Simulated kernel: processes, clocks, descriptors, streams, datagrams, files, event engines.
#include "sim.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>
#include <openssl/ssl.h>
#include <openssl/rand.h>
#include <openssl/bio.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
#endif

Sim* S = nullptr;
Node* cur = nullptr;
const char* ctrNames[] = {
#define X(n) #n,
    SIM_COUNTERS(X)
#undef X
};
extern "C" void sim_switch(void** save, void* to);

uint64_t mix64(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL;
  x ^= x >> 27; x *= 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
uint64_t hashstr(const void* p, size_t n, uint64_t h) {
  auto* c = (const unsigned char*)p;
  while (n--) { h ^= *c++; h *= 0x100000001b3ULL; }
  return mix64(h);
}
string fmt(const char* f, ...) {
  va_list ap, ap2; va_start(ap, f); va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, f, ap); va_end(ap);
  string s(n, 0); vsnprintf(&s[0], n + 1, f, ap2); va_end(ap2);
  return s;
}
void tracef(const char* f, ...) {
  if (!S || !S->trace) return;
  va_list ap; va_start(ap, f);
  fprintf(stderr, "[%10.6f] ", S->now / 1e6); vfprintf(stderr, f, ap); fputc('\n', stderr);
  va_end(ap);
}
Addr Addr::parse(const string& s, int port) {
  Addr a; a.port = port;
  if (s.find(':') != string::npos) { inet_pton(AF_INET6, s.c_str(), a.ip); }
  else { a.ip[10] = a.ip[11] = 0xff; inet_pton(AF_INET, s.c_str(), a.ip + 12); }
  return a;
}
string Addr::ipstr() const {
  char b[64];
  if (v4()) inet_ntop(AF_INET, ip + 12, b, sizeof b); else inet_ntop(AF_INET6, ip, b, sizeof b);
  return b;
}
static Addr fromSa(const struct sockaddr* sa) {
  Addr a;
  if (sa->sa_family == AF_INET6) { auto* p = (const sockaddr_in6*)sa; memcpy(a.ip, &p->sin6_addr, 16); a.port = ntohs(p->sin6_port); }
  else { auto* p = (const sockaddr_in*)sa; a.ip[10] = a.ip[11] = 0xff; memcpy(a.ip + 12, &p->sin_addr, 4); a.port = ntohs(p->sin_port); }
  return a;
}
static void toSa(const Addr& a, int family, struct sockaddr* sa, socklen_t* len) {
  char b[sizeof(sockaddr_in6)]; memset(b, 0, sizeof b); socklen_t n;
  if (family == AF_INET6) { auto* p = (sockaddr_in6*)b; p->sin6_family = AF_INET6; memcpy(&p->sin6_addr, a.ip, 16); p->sin6_port = htons(a.port); n = sizeof *p; }
  else { auto* p = (sockaddr_in*)b; p->sin_family = AF_INET; memcpy(&p->sin_addr, a.ip + 12, 4); p->sin_port = htons(a.port); n = sizeof *p; }
  if (len) { memcpy(sa, b, std::min<size_t>(*len, n)); *len = n; }
}
time_t Node::wall() const { return (time_t)((EPOCH * SEC + S->now + clockOff) / SEC); }

// ---------------------------------------------------------------- scheduler
void Sim::at(Time t, std::function<void()> f, bool live) {
  if (t < now) t = now;
  if (live) { liveEvents++; q.push({t, seq++, [this, f = std::move(f)] { liveEvents--; f(); }}); }
  else q.push({t, seq++, std::move(f)});
}
bool Sim::step() {
  if (q.empty()) return false;
  if (++steps > maxSteps) fail("livelock", fmt("more than %lld simulator events in one run", (long long)maxSteps));
  auto fn = std::move(const_cast<Event&>(q.top()).fn);
  Time t = q.top().at; q.pop();
  now = t;
  fn();
  return true;
}
void Sim::runUntil(Time t) {
  while (!q.empty() && q.top().at <= t) step();
  if (now < t) now = t;
}
void Sim::runFor(Time d) { runUntil(now + d); }

// ---------------------------------------------------------------- processes
static string imgPrefix; struct Img { void* dl; int (*entry)(int, char**); vector<std::pair<char*, size_t>> segs; vector<string> pristine; };
static vector<Img> images;
__attribute__((no_sanitize("address"))) static void rawcopy(char* d, const char* s, size_t n) {
  for (size_t i = 0; i < n; i += 8) { if (n - i >= 8) *(volatile uint64_t*)(d + i) = *(const uint64_t*)(s + i); else for (; i < n; i++) *(volatile char*)(d + i) = s[i]; }
}
void loadImages(const string& prefix, int n) {
  imgPrefix = prefix;
  for (int i = 0; i < n; i++) {
    string p = prefix + std::to_string(i) + ".so";
    Img im; im.dl = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!im.dl) { fprintf(stderr, "dlopen %s: %s\n", p.c_str(), dlerror()); exit(2); }
    im.entry = (int (*)(int, char**))dlsym(im.dl, "ircd_main");
    if (!im.entry) { fprintf(stderr, "no ircd_main in %s\n", p.c_str()); exit(2); }
    struct link_map* lm; dlinfo(im.dl, RTLD_DI_LINKMAP, &lm);
    struct D { const char* nm; Img* im; } d{lm->l_name, &im};
    dl_iterate_phdr([](struct dl_phdr_info* in, size_t, void* vp) {
      D* d = (D*)vp;
      if (strcmp(in->dlpi_name, d->nm)) return 0;
      for (int k = 0; k < in->dlpi_phnum; k++) {
        auto& ph = in->dlpi_phdr[k];
        if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) d->im->segs.push_back({(char*)in->dlpi_addr + ph.p_vaddr, ph.p_memsz});
      }
      return 1; }, &d);
    for (auto& s : im.segs) { string c(s.second, 0); rawcopy(&c[0], s.first, s.second); im.pristine.push_back(c); }
    images.push_back(std::move(im));
  }
}

Node* Sim::addNode(const string& name, const string& ip) {
  auto n = std::make_unique<Node>();
  n->idx = nodes.size(); n->name = name; n->ip = ip;
  n->ip6 = fmt("fd00::%x", n->idx + 1);
  if ((size_t)n->idx >= images.size()) { fprintf(stderr, "too many nodes\n"); exit(2); }
  auto& im = images[n->idx];
  n->dl = im.dl; n->entry = im.entry;
  n->stack = (char*)mmap((void*)(0x310000000000ULL + n->idx * 0x1000000ULL), n->stackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  n->rng = Rng(seed * 1000003 + n->idx * 7919 + 11);
  n->pid = 1000 + n->idx * 100;
  Node* r = n.get(); nodes.push_back(std::move(n));
  return r;
}

static const void* mainBottom; static size_t mainSize; static void* mainFake; static void* mainSp;
static Node* entering;

static void switchBack(bool dying) {  // node -> scheduler
  Node* n = cur;
  (void)dying;
#ifdef HAVE_ASAN
  __sanitizer_start_switch_fiber(dying ? nullptr : &n->fakeStack, mainBottom, mainSize);
#endif
  cur = nullptr;
  sim_switch(&n->sp, mainSp);
#ifdef HAVE_ASAN
  __sanitizer_finish_switch_fiber(n->fakeStack, &mainBottom, &mainSize);
#endif
}
[[noreturn]] static void nodeEnd() {
  switchBack(true);
  abort();
}
static void releaseAll(Node* n, bool rst) {
  auto fds = std::move(n->fds); n->fds.clear();
  for (auto& p : fds) {
    for (auto& o : fds) if (o.second->kind == Sock::EPOLL) o.second->items.erase(p.first);
  }
  for (auto& p : fds) S->unref(p.second);
  for (auto& p : n->lastPairs) S->unref(p);
  n->lastPairs.clear();
  n->sigs.clear(); n->sigIgn.clear(); n->pendSig.clear();
  n->wakeGen++; n->wakeAt = NEVER; n->deadline = NEVER;
}
static void trampoline() {
#ifdef HAVE_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &mainBottom, &mainSize);
#endif
  Node* n = entering;
  static char a0[] = "ircd", a1[] = "-n", a2[] = "-f", a3[] = "ircd.conf";
  static char* argv[] = {a0, a1, a2, a3, nullptr};
  int rc = n->entry(4, argv);
  n->exitCode = rc; n->exitWhy = "return from main"; n->exited = true; n->st = Node::DEAD;
  releaseAll(n, false);
  nodeEnd();
}
void Sim::switchTo(Node* n) {
  cur = n; entering = n;
#ifdef HAVE_ASAN
  __sanitizer_start_switch_fiber(&mainFake, n->stack, n->stackSize);
#endif
  ctr[C_slices]++;
  sim_switch(&mainSp, n->sp);
#ifdef HAVE_ASAN
  __sanitizer_finish_switch_fiber(mainFake, nullptr, nullptr);
#endif
  cur = nullptr;
  if (n->exited) {
    n->exited = false;
    tracef("node %s exited rc=%d (%s)", n->name.c_str(), n->exitCode, n->exitWhy.c_str());
    if (onNodeExit) onNodeExit(n);
  }
}
extern "C" { extern int optind; }
void Sim::boot(Node* n) {
  if (n->st == Node::RUNNING || n->st == Node::BLOCKED) return;
  auto& im = images[n->idx];
  if (n->dirty) for (size_t i = 0; i < im.segs.size(); i++) rawcopy(im.segs[i].first, im.pristine[i].data(), im.segs[i].second);
#ifdef HAVE_ASAN
  ASAN_UNPOISON_MEMORY_REGION(n->stack, n->stackSize);
#endif
  n->dirty = true; n->boots++; n->pid++; n->st = Node::RUNNING; n->exited = false; n->exitCode = -1; n->exitWhy = ""; n->err.clear();
  n->liveBytes = n->liveBlocks = 0; n->nmalloc = 0; n->lastPairs.clear(); n->listening = false; n->stallUntil = 0;
  uint64_t* top = (uint64_t*)(n->stack + n->stackSize - 64);
  *--top = 0;                       // fake return address / alignment
  *--top = (uint64_t)(uintptr_t)&trampoline;
  for (int i = 0; i < 6; i++) *--top = 0;
  n->sp = top; n->fakeStack = nullptr;
  mix(0xb007 + n->idx);
  tracef("boot %s", n->name.c_str());
  auto* np = n; uint64_t gen = ++n->wakeGen;
  n->wakeAt = now;
  at(now, [this, np, gen] { if (np->wakeGen == gen && np->st == Node::RUNNING) { np->wakeAt = NEVER; switchTo(np); } });
}
void Sim::crash(Node* n, bool mid) {
  if (n->st != Node::RUNNING && n->st != Node::BLOCKED) return;
  ctr[C_crash]++; if (mid) ctr[C_crash_mid_syscall]++;
  tracef("CRASH %s%s", n->name.c_str(), mid ? " (mid-slice)" : "");
  mix(0xdead + n->idx);
  n->st = Node::DEAD; n->exitCode = 137; n->exitWhy = "killed";
  releaseAll(n, true);
}
void Sim::signal(Node* n, int sig) {
  if (n->st != Node::BLOCKED && n->st != Node::RUNNING) return;
  ctr[C_signal]++; mix(0x516 + sig);
  tracef("signal %d -> %s", sig, n->name.c_str());
  if (n->sigIgn.count(sig)) return;
  if (!n->sigs.count(sig)) {  // default action: terminate
    if (sig == SIGCHLD || sig == SIGWINCH) return;
    n->st = Node::DEAD; n->exitCode = 128 + sig; n->exitWhy = "signal"; releaseAll(n, true);
    if (onNodeExit) onNodeExit(n);
    return;
  }
  n->pendSig.push_back(sig);
  poke(n);
}
void Sim::poke(Node* n, Time extra) {
  if (!n || n->st != Node::BLOCKED) return;
  Time d = extra + (n->schedMax > 0 ? n->rng.below(n->schedMax + 1) : 0);
  if (d > 200000) ctr[C_slow_wake]++;
  Time t = std::max(now + d, n->stallUntil);
  if (n->wakeAt <= t) return;
  uint64_t gen = ++n->wakeGen; n->wakeAt = t;
  at(t, [this, n, gen] { wake(n, gen); });
}
void Sim::poke(Sock* s) { if (s->node) poke(s->node); else if (s->onEvent) { auto f = s->onEvent; f(); } }
void Sim::wake(Node* n, uint64_t gen) {
  if (n->wakeGen != gen || n->st != Node::BLOCKED) return;
  n->wakeAt = NEVER; n->timedOut = false;
  n->st = Node::RUNNING;
  switchTo(n);
}
void Sim::fail(const string& cls, const string& msg) {
  Violation v{cls, msg};
  tracef("FAIL %s: %s", cls.c_str(), msg.c_str());
  endRun(&v);
}

// ---------------------------------------------------------------- sockets
SockP Sim::mk(Sock::Kind k, Node* n) {
  auto s = std::make_shared<Sock>();
  s->kind = k; s->node = n; s->refs = 1; s->id = nextSock++;
  s->rng = Rng(seed ^ (s->id * 0x1234567ULL));
  return s;
}
static bool isServerIp(const Addr& a) { for (auto& n : S->nodes) if (a.ipstr() == n->ip) return true; return false; }
void Sim::setup(const SockP& s) {  // network parameters of one end
  s->chunkMode = chunkMode; s->pEagain = pEagain; s->pShort = pShort;
  bool srv = !s->isPair && isServerIp(s->local) && isServerIp(s->remote);
  s->latMin = srv && slatMax ? slatMin : latMin; s->latMax = srv && slatMax ? slatMax : latMax;
  s->cap = srv ? capServer : capClient;
  if (s->isPair) { s->latMin = 0; s->latMax = 200; s->cap = 65536; }
}
void Sim::link(const SockP& a, const SockP& b) { a->peer = b; b->peer = a; a->state = b->state = Sock::ESTAB; setup(a); setup(b); }
bool Sim::blocked(const Addr& a, const Addr& b) const {
  if (cut.empty() && cutHost.empty()) return false;
  string x = a.ipstr(), y = b.ipstr();
  return cut.count({x, y}) || cutHost.count(x) || cutHost.count(y);
}
void Sim::partition(const string& a, const string& b) { ctr[C_partition]++; mix(hashstr(a + b)); cut.insert({a, b}); cut.insert({b, a}); tracef("partition %s %s", a.c_str(), b.c_str()); }
void Sim::heal(const string& a, const string& b) { ctr[C_heal]++; mix(hashstr(b + a)); cut.erase({a, b}); cut.erase({b, a}); tracef("heal %s %s", a.c_str(), b.c_str()); flushHeld(); }
void Sim::healAll() { if (cut.size() || cutHost.size()) ctr[C_heal]++; cut.clear(); cutHost.clear(); tracef("heal all"); flushHeld(); }
static vector<std::weak_ptr<Sock>> heldSocks;
// Segments kept back leave one after the other; segments sent meanwhile queue up behind them.
static void drainHeld(Sim* sim, std::weak_ptr<Sock> w) {
  auto s = w.lock(); if (!s || s->held.empty()) return;
  if (!s->isPair && sim->blocked(s->remote, s->local)) { heldSocks.push_back(w); return; }
  auto f = s->held.front(); s->held.pop_front();
  f();
  if (s->held.size()) sim->after(s->rng.range(sim->latMin, sim->latMax) / 4, [sim, w] { drainHeld(sim, w); });
}
void Sim::flushHeld() {
  auto v = std::move(heldSocks); heldSocks.clear();
  for (auto& w : v) {
    auto s = w.lock(); if (!s || s->held.empty()) continue;
    after(s->rng.range(latMin, latMax), [this, w] { drainHeld(this, w); });
  }
}
// schedule one segment towards `to`
static void orphanRst(Sim* sim, const SockP& s) {
  std::weak_ptr<Sock> ws = s;
  sim->after(s->latMin + 1, [sim, ws] {
    auto s = ws.lock(); if (!s || s->state != Sock::ESTAB || s->rstSeen) return;
    sim->ctr[C_rst]++; s->err = s->rfin ? EPIPE : ECONNRESET; s->rstSeen = true; sim->poke(s.get());
  });
}
void Sim::deliver(const SockP& from, const SockP& to, string data, bool fin, bool rst) {
  Time lat = from->rng.range(from->latMin, from->latMax);
  Time t = std::max(now + lat, to->lastArr + 1);
  if (rst && from->rng.chance(rstLoss)) t = now + lat;  // the reset overtakes undelivered data, which is lost
  to->lastArr = std::max(t, to->lastArr);
  ctr[C_segments]++;
  std::weak_ptr<Sock> wto = to, wfrom = from;
  auto body = std::make_shared<std::function<void()>>();
  SockP hold = from;
  *body = [this, wto, wfrom, hold, data, fin, rst]() {
    auto to = wto.lock();
    auto from = wfrom.lock();
    if (!to) { if (from && data.size() && !from->isPair) orphanRst(this, from); return; }
    mix(to->id * 31 + data.size() + fin * 7 + rst * 13); schedHash = mix64(schedHash ^ (to->id * 1315423911ULL + data.size() * 7 + fin));
    if (to->state == Sock::CLOSED || to->rstSeen) {
      if (from && (data.size() || fin) && !rst && from->state == Sock::ESTAB && !from->rstSeen && data.size()) {
        // answer data for a closed socket with a reset
        deliver(to, from, "", false, true);
      }
      return;
    }
    if (rst) { ctr[C_rst]++; to->err = to->wfin ? EPIPE : ECONNRESET; to->rstSeen = true; if (to->avail() == 0) {} tracef("  rst -> sock %llu", (unsigned long long)to->id); }
    else {
      to->rbuf.append(data); ctr[C_bytes] += data.size();
      if (fin) { to->rfin = true; ctr[C_fin]++; }
    }
    poke(to.get());
  };
  auto run = [this, wto, body]() {
    auto to = wto.lock();
    if (to && !to->isPair && (to->held.size() || blocked(to->remote, to->local))) {
      if (to->held.empty()) heldSocks.push_back(to);
      ctr[C_held_segments]++;
      to->held.push_back(*body);
      return;
    }
    (*body)();
  };
  at(t, run);
}
ssize_t Sim::swrite(const SockP& s, const char* p, size_t n) {
  if (s->rstSeen) { if (s->err) { int e = s->err; s->err = 0; errno = e; return -1; } errno = EPIPE; return -1; }
  if (s->state != Sock::ESTAB) { errno = s->state == Sock::CLOSED ? EBADF : EPIPE; return -1; }
  if (s->wfin) { errno = EPIPE; return -1; }
  auto peer = s->peer.lock();
  if (!peer) { if (s->isPair) { errno = EPIPE; return -1; } orphanRst(this, s); return n; }  // the peer forgot the connection: it will answer with a reset
  size_t room = s->cap > s->outstanding ? s->cap - s->outstanding : 0;
  if (s->node && room == 0) { s->wasFull = true; ctr[C_backpressure]++; errno = EAGAIN; return -1; }
  if (s->node) n = std::min(n, room);
  s->outstanding += n; s->wrote += n;
  if (s->outstanding >= s->cap) s->wasFull = true;
  size_t off = 0;
  if (trace && s->node && peer->node) { string t(p, n); for (auto& c : t) if ((unsigned char)c < 32) c = '|'; tracef("  [%s -> %s] %s", s->node->name.c_str(), peer->node->name.c_str(), t.substr(0, 900).c_str()); }
  while (off < n) {
    size_t k = n - off;
    if (s->chunkMode == 1 && s->rng.chance(0.5)) k = 1 + s->rng.below(k);
    else if (s->chunkMode == 2) k = 1 + s->rng.below(std::min<size_t>(k, 12));
    else if (s->chunkMode == 3) k = 1;
    else if (k > 1448 * 4) k = 1448 * 4;
    if (k < n - off) ctr[C_chunk_split]++;
    deliver(s, peer, string(p + off, k), false, false);
    off += k;
  }
  return n;
}
static void consumed(const SockP& s, size_t n) {
  auto peer = s->peer.lock();
  if (!peer) return;
  peer->outstanding = peer->outstanding > n ? peer->outstanding - n : 0;
  if (peer->wasFull && peer->outstanding < peer->cap * 2 / 3 + 1) { peer->wasFull = false; if (peer->node) S->poke(peer->node); else if (peer->onEvent) { std::weak_ptr<Sock> w = peer; S->after(0, [w] { auto p = w.lock(); if (p && p->onEvent) p->onEvent(); }); } }
}
string Sim::sread(const SockP& s, size_t max) {
  size_t n = std::min(max, s->avail());
  string r = s->rbuf.substr(s->roff, n);
  s->roff += n; if (s->roff == s->rbuf.size()) { s->rbuf.clear(); s->roff = 0; }
  if (n) consumed(s, n);
  return r;
}
void Sim::doClose(const SockP& s, bool rst) {
  if (s->state == Sock::CLOSED) return;
  if (s->kind == Sock::LISTEN) {
    for (auto& c : s->acceptq) doClose(c, true);
    s->acceptq.clear();
  } else if (s->kind == Sock::TCP || s->kind == Sock::PIPE) {
    auto peer = s->peer.lock();
    if (s->state == Sock::ESTAB && peer) {
      if (!s->isPair && (rst || s->avail() > 0)) deliver(s, peer, "", false, true);
      else if (!s->wfin) deliver(s, peer, "", true, false);
      s->wfin = true;
    }
  }
  s->state = Sock::CLOSED;
  s->onEvent = nullptr;
}
void Sim::unref(SockP s) {
  if (!s) return;
  if (--s->refs <= 0) {
    if (s->kind == Sock::EPOLL) s->items.clear();
    doClose(s, false);
  }
}
void Sim::sclose(const SockP& s, bool rst) { if (s) { doClose(s, rst); } }
SockP Sim::findListener(const Addr& a) {
  string ip = a.ipstr();
  for (auto& n : nodes) {
    if (ip != n->ip && ip != n->ip6) continue;
    if (n->st != Node::RUNNING && n->st != Node::BLOCKED) return nullptr;
    for (auto& p : n->fds) {
      auto& s = p.second;
      if (s->kind == Sock::LISTEN && s->local.port == a.port && (s->local.any() || !memcmp(s->local.ip, a.ip, 16)) && ((s->family == AF_INET) == a.v4())) return s;
    }
  }
  return nullptr;
}
void Sim::startConnect(const SockP& s, const Addr& to) {
  s->remote = to; s->state = Sock::CONNECTING; setup(s);
  ctr[C_conns]++;
  Time l1 = s->rng.range(s->latMin, s->latMax), l2 = s->rng.range(s->latMin, s->latMax);
  auto attempt = std::make_shared<std::function<void()>>();
  std::weak_ptr<Sock> w = s;
  Time started = now;
  *attempt = [this, w, to, l2, attempt, started]() {
    auto s = w.lock(); if (!s || s->state != Sock::CONNECTING) return;
    if (blocked(s->local, to)) {  // SYN lost: retransmit, finally time out
      if (now - started > 127 * SEC) { ctr[C_conn_timeout]++; s->err = ETIMEDOUT; s->state = Sock::FAILED; poke(s.get()); *attempt = nullptr; return; }
      at(now + SEC, [attempt] { if (*attempt) { auto f = *attempt; f(); } }, false);
      return;
    }
    auto l = findListener(to);
    std::function<void(SockP)> actor;
    if (!l) { auto it = tcpActors.find(to.str()); if (it != tcpActors.end()) actor = it->second; }
    if (!l && !actor) {
      ctr[C_conn_refused]++;
      std::weak_ptr<Sock> w2 = s;
      after(l2, [this, w2] { auto s = w2.lock(); if (s && s->state == Sock::CONNECTING) { s->err = ECONNREFUSED; s->state = Sock::FAILED; mix(0xcf); poke(s.get()); } });
      return;
    }
    auto b = mk(Sock::TCP, l ? l->node : nullptr);
    b->local = to; b->remote = s->local; b->family = l ? l->family : (to.v4() ? AF_INET : AF_INET6);
    b->peer = s; b->state = Sock::ESTAB; setup(b);
    s->peer = b;
    std::weak_ptr<Sock> w2 = s; SockP keep = b;
    b->lastArr = now + l2;  // nothing can arrive before the handshake ends
    after(l2, [this, w2, keep] { auto s = w2.lock(); if (s && s->state == Sock::CONNECTING) { s->state = Sock::ESTAB; mix(0xc0); poke(s.get()); } });
    if (l) { l->acceptq.push_back(b); mix(0xacc); poke(l->node); }
    else actor(b);
  };
  after(l1, [attempt] { auto f = *attempt; if (f) f(); });
}
SockP Sim::connectTo(const string& fromIp, const string& toIp, int port, int fromPort) {
  auto s = mk(Sock::TCP, nullptr);
  static int eph = 20000;
  if (!fromPort) fromPort = 20000 + (int)(s->id % 40000);
  (void)eph;
  s->local = Addr::parse(fromIp, fromPort); s->family = s->local.v4() ? AF_INET : AF_INET6;
  startConnect(s, Addr::parse(toIp, port));
  return s;
}
void Sim::udpSend(const Addr& from, const Addr& to, const string& data) {
  ctr[C_udp_sent]++;
  if (blocked(from, to)) { ctr[C_udp_drop]++; return; }
  int copies = 1;
  if (netrng.chance(udpDrop)) { ctr[C_udp_drop]++; copies = 0; }
  else if (netrng.chance(udpDup)) { ctr[C_udp_dup]++; copies = 2; }
  for (int i = 0; i < copies; i++) {
    Time lat = netrng.range(latMin, latMax) + netrng.below(udpJitter + 1);
    after(lat, [this, from, to, data] {
      mix(hashstr(data)); string ip = to.ipstr();
      for (auto& n : nodes) if (ip == n->ip || ip == n->ip6) {
        for (auto& p : n->fds) {
          auto& s = p.second;
          if (s->kind == Sock::UDP && s->local.port == to.port && (s->local.any() || !memcmp(s->local.ip, to.ip, 16)) && ((s->family == AF_INET) == to.v4())) { s->dgrams.push_back({from, data}); poke(n.get()); return; }
        }
        return;
      }
      auto it = udpActors.find(to.str());
      if (it != udpActors.end()) it->second(from, to, data);
    });
  }
}

// ---------------------------------------------------------------- system calls
static inline void sys(int id) {
  Node* n = cur;
  S->ctr[C_syscalls]++;
  if (n && n->killAtSyscall >= 0 && n->killAtSyscall-- == 0) { n->killAtSyscall = -1; S->crash(n, true); nodeEnd(); }
}
static SockP getfd(int fd) { auto it = cur->fds.find(fd); if (it == cur->fds.end()) { errno = EBADF; return nullptr; } return it->second; }
static int newfd(const SockP& s) {
  int fd = 3;
  for (auto& p : cur->fds) { if (p.first < 3) continue; if (p.first == fd) fd++; else break; }
  if (fd >= 1024) { errno = EMFILE; return -1; }
  cur->fds[fd] = s;
  return fd;
}
static uint32_t readiness(const SockP& s) {
  uint32_t r = 0;
  switch (s->kind) {
    case Sock::LISTEN: if (!s->acceptq.empty()) r |= EPOLLIN; break;
    case Sock::UDP: if (!s->dgrams.empty()) r |= EPOLLIN; r |= EPOLLOUT; break;
    case Sock::TCP: case Sock::PIPE:
      switch (s->state) {
        case Sock::FRESH: r |= EPOLLOUT | EPOLLHUP; break;
        case Sock::CONNECTING: break;
        case Sock::FAILED: r |= EPOLLIN | EPOLLOUT | EPOLLHUP; if (s->err) r |= EPOLLERR; break;
        case Sock::ESTAB:
          if (s->avail() || s->rfin) r |= EPOLLIN;
          if (s->cap > s->outstanding && !(s->wasFull)) r |= EPOLLOUT;
          if (s->rstSeen) { r |= EPOLLIN | EPOLLOUT | EPOLLHUP; if (s->err) r |= EPOLLERR; }
          if (s->rfin && s->wfin) r |= EPOLLHUP;
          if (s->isPair && s->rfin) r |= EPOLLHUP;
          break;
        case Sock::CLOSED: r |= EPOLLIN | EPOLLHUP; break;
      }
      break;
    case Sock::FILE_: r |= EPOLLIN | EPOLLOUT; break;
    case Sock::EPOLL: break;
  }
  return r;
}
// Block the current node until something is ready; returns false on EINTR.
template <class F> static int waitFor(int timeoutMs, F ready) {
  Node* n = cur;
  Time dl = timeoutMs < 0 ? NEVER : S->now + (Time)timeoutMs * MS;
  bool first = true;
  for (;;) {
    if (!n->pendSig.empty()) {
      int s = n->pendSig.front(); n->pendSig.pop_front();
      auto h = n->sigs.find(s);
      if (h != n->sigs.end() && h->second) h->second(s);
      S->ctr[C_eintr]++;
      errno = EINTR; return -1;
    }
    // Always give the scheduler a chance between two waits: a loop iteration costs simulated time.
    if (!first) {
      int r = ready();
      if (r) return r;
      if (S->now >= dl) return 0;
    }
    bool rdy = first && ready();
    first = false;
    n->st = Node::BLOCKED; n->deadline = dl; n->wakeAt = NEVER;
    uint64_t gen = ++n->wakeGen;
    if (rdy || timeoutMs == 0 || !n->pendSig.empty()) {
      // a loop iteration takes time; a node that never stops iterating is spinning
      if (S->now - n->spinFrom > SEC) { n->spinFrom = S->now; n->spins = 0; }
      if (++n->spins > 20000) S->fail("liveness:spin", fmt("node %s iterates its event loop without end: more than 20000 times in a second of simulated time", n->name.c_str()));
      S->poke(n, 10);
    }
    else if (dl != NEVER) {
      Time t = std::max(dl, n->stallUntil);
      n->wakeAt = t;
      S->at(t, [n, gen] { S->wake(n, gen); }, false);
    }
    switchBack(false);
    n->st = Node::RUNNING;
  }
}
typedef struct { } Nothing;
extern "C" {
#define SH(ret, name, args) ret sim_##name args

SH(int, epoll_create, (int)) {
  sys(1);
  if (cur->noEpoll) { S->ctr[C_poll_engine]++; errno = EMFILE; return -1; }
  return newfd(S->mk(Sock::EPOLL, cur));
}
SH(int, epoll_create1, (int)) { return sim_epoll_create(1); }
SH(int, epoll_ctl, (int ep, int op, int fd, struct epoll_event* ev)) {
  sys(2);
  auto e = getfd(ep); if (!e) return -1;
  auto s = getfd(fd); if (!s) return -1;
  if (e->kind != Sock::EPOLL) { errno = EINVAL; return -1; }
  if (s->kind == Sock::FILE_) { errno = EPERM; return -1; }
  auto it = e->items.find(fd);
  if (op == EPOLL_CTL_ADD) {
    if (it != e->items.end()) { errno = EEXIST; return -1; }
    if (cur->rng.chance(cur->pEpollCtlFail)) { S->ctr[C_epollctl_fail]++; errno = ENOMEM; return -1; }
    e->items[fd] = {s, ev->events, ev->data.u64};
  } else if (it == e->items.end()) { errno = ENOENT; return -1; }
  else if (op == EPOLL_CTL_MOD) { it->second.events = ev->events; it->second.data = ev->data.u64; }
  else e->items.erase(it);
  return 0;
}
SH(int, epoll_wait, (int ep, struct epoll_event* evs, int max, int timeout)) {
  sys(3);
  auto e = getfd(ep); if (!e) return -1;
  auto collect = [&](bool store) {
    vector<struct epoll_event> v;
    for (auto& p : e->items) {
      uint32_t r = readiness(p.second.s) & (p.second.events | EPOLLERR | EPOLLHUP);
      if (r && cur->spins > 19900 && store) tracef("  spin: %s fd %d kind %d state %d ready %x events %x rfin %d wfin %d rst %d err %d out %zu cap %zu peer %s", cur->name.c_str(), p.first, p.second.s->kind, p.second.s->state, r, p.second.events, p.second.s->rfin, p.second.s->wfin, p.second.s->rstSeen, p.second.s->err, p.second.s->outstanding, p.second.s->cap, p.second.s->remote.str().c_str());
      if (r) { if (!store) return 1; struct epoll_event x; x.events = r; x.data.u64 = p.second.data; v.push_back(x); }
    }
    if (!store) return 0;
    if (v.size() > 1 && cur->shuffle) { cur->rng.shuffle(v); S->ctr[C_epoll_shuffle]++; }
    if (v.size() > 1 && cur->rng.chance(cur->pSubset)) { v.resize(1 + cur->rng.below(v.size() - 1)); S->ctr[C_subset_wake]++; }
    int n = std::min<int>(max, v.size());
    for (int i = 0; i < n; i++) evs[i] = v[i];
    return n;
  };
  int r = waitFor(timeout, [&] { return collect(false); });
  if (r <= 0) return r;
  return collect(true);
}
SH(int, epoll_pwait, (int ep, struct epoll_event* evs, int max, int timeout, const void*)) { return sim_epoll_wait(ep, evs, max, timeout); }
SH(int, poll, (struct pollfd* p, nfds_t n, int timeout)) {
  sys(4);
  auto scan = [&](bool store) {
    int c = 0; vector<int> hits;
    for (nfds_t i = 0; i < n; i++) {
      if (store) p[i].revents = 0;
      if (p[i].fd < 0) continue;
      auto it = cur->fds.find(p[i].fd);
      uint32_t rd = it == cur->fds.end() ? (uint32_t)POLLNVAL : readiness(it->second);
      if (rd & POLLIN) rd |= POLLRDNORM;
      if (rd & POLLOUT) rd |= POLLWRNORM;
      uint32_t r = rd & ((uint32_t)p[i].events | POLLERR | POLLHUP | POLLNVAL);
      if (r) { c++; if (store) { p[i].revents = r; hits.push_back(i); } else return 1; }
    }
    if (store && c > 1 && cur->rng.chance(cur->pSubset)) {
      int drop = cur->rng.below(c - 1); S->ctr[C_subset_wake]++;
      for (int k = 0; k < drop; k++) { size_t j = cur->rng.below(hits.size()); p[hits[j]].revents = 0; hits.erase(hits.begin() + j); c--; }
    }
    return c;
  };
  int r = waitFor(timeout, [&] { return scan(false); });
  if (r <= 0) return r;
  return scan(true);
}
SH(int, ppoll, (struct pollfd*, nfds_t, const void*, const void*)) { errno = ENOSYS; return -1; }
SH(int, select, (int, void*, void*, void*, void*)) { errno = ENOSYS; return -1; }

SH(int, socket, (int fam, int type, int)) {
  sys(5);
  if (cur->rng.chance(cur->pSocketFail)) { S->ctr[C_socket_fail]++; errno = EMFILE; return -1; }
  auto s = S->mk((type & 0xf) == SOCK_DGRAM ? Sock::UDP : Sock::TCP, cur);
  s->family = fam; s->local = Addr(); if (fam == AF_INET) { s->local.ip[10] = s->local.ip[11] = 0xff; }
  int fd = newfd(s); if (fd < 0) S->unref(s);
  return fd;
}
static void mkpair(SockP& a, SockP& b) {
  a = S->mk(Sock::PIPE, cur); b = S->mk(Sock::PIPE, cur);
  a->isPair = b->isPair = true; S->link(a, b);
}
SH(int, socketpair, (int, int, int, int* sv)) {
  sys(6);
  SockP a, b; mkpair(a, b);
  sv[0] = newfd(a); sv[1] = newfd(b);
  if (sv[0] < 0 || sv[1] < 0) return -1;
  b->refs++; cur->lastPairs.push_back(b);
  while (cur->lastPairs.size() > 2) { S->unref(cur->lastPairs[0]); cur->lastPairs.erase(cur->lastPairs.begin()); }
  return 0;
}
SH(int, pipe, (int* p)) {
  sys(6);
  SockP a, b; mkpair(a, b);
  p[0] = newfd(a); p[1] = newfd(b);
  return p[0] < 0 || p[1] < 0 ? -1 : 0;
}
SH(int, pipe2, (int* p, int)) { return sim_pipe(p); }
SH(int, bind, (int fd, const struct sockaddr* sa, socklen_t)) {
  sys(7);
  auto s = getfd(fd); if (!s) return -1;
  Addr a = fromSa(sa);
  if (a.port) for (auto& p : cur->fds) if (p.second != s && p.second->kind == s->kind && p.second->local.port == a.port && p.second->family == s->family && p.second->kind == Sock::UDP) { errno = EADDRINUSE; return -1; }
  if (s->kind == Sock::TCP && a.port) for (auto& p : cur->fds) if (p.second->kind == Sock::LISTEN && p.second->local.port == a.port && p.second->family == s->family && (p.second->local.any() || a.any() || !memcmp(a.ip, p.second->local.ip, 16))) { errno = EADDRINUSE; return -1; }
  s->local = a;
  if (!a.port && s->kind == Sock::UDP) s->local.port = 30000 + s->id % 20000;
  return 0;
}
SH(int, listen, (int fd, int)) {
  sys(8);
  auto s = getfd(fd); if (!s) return -1;
  s->kind = Sock::LISTEN; cur->listening = true; return 0;
}
SH(int, accept, (int fd, struct sockaddr* sa, socklen_t* len)) {
  sys(9);
  auto s = getfd(fd); if (!s) return -1;
  if (s->acceptq.empty()) { errno = EAGAIN; return -1; }
  if (cur->rng.chance(cur->pAcceptFail)) {
    S->ctr[C_accept_fail]++;
    int k = cur->rng.below(3);
    if (k == 0) { auto c = s->acceptq.front(); s->acceptq.pop_front(); S->doClose(c, true); errno = ECONNABORTED; return -1; }
    errno = k == 1 ? EMFILE : ENFILE; return -1;
  }
  auto c = s->acceptq.front();
  int nfd = newfd(c); if (nfd < 0) return -1;
  s->acceptq.pop_front();
  if (sa) toSa(c->remote, s->family, sa, len);
  if (S->onAccept) S->onAccept(c, cur);
  return nfd;
}
SH(int, accept4, (int fd, struct sockaddr* sa, socklen_t* len, int)) { return sim_accept(fd, sa, len); }
SH(int, connect, (int fd, const struct sockaddr* sa, socklen_t)) {
  sys(10);
  auto s = getfd(fd); if (!s) return -1;
  Addr a = fromSa(sa);
  if (s->local.any()) { uint16_t p = s->local.port; s->local = Addr::parse(a.v4() ? cur->ip : cur->ip6, p); }
  if (s->kind == Sock::UDP) { s->remote = a; s->udpConnected = true; if (!s->local.port) s->local.port = 30000 + s->id % 20000; return 0; }
  if (!s->local.port) s->local.port = 20000 + s->id % 40000;
  S->startConnect(s, a);
  errno = EINPROGRESS; return -1;
}
static ssize_t do_recv(const SockP& s, char* buf, size_t len) {
  if (s->kind == Sock::UDP) {
    if (s->dgrams.empty()) { errno = EAGAIN; return -1; }
    auto d = s->dgrams.front(); s->dgrams.pop_front();
    size_t n = std::min(len, d.second.size()); memcpy(buf, d.second.data(), n); return n;
  }
  if (s->state == Sock::CONNECTING) { errno = EAGAIN; return -1; }
  if (s->state != Sock::ESTAB) { if (s->err) { errno = s->err; s->err = 0; return -1; } errno = ENOTCONN; return -1; }
  if (s->avail()) {
    if (s->node && s->rng.chance(s->pEagain)) { S->ctr[C_eagain_read]++; errno = EAGAIN; S->poke(s->node); return -1; }
    size_t n = std::min(len, s->avail());
    if (n > 1 && s->rng.chance(s->pShort)) { n = 1 + s->rng.below(n - 1); S->ctr[C_short_read]++; }
    string d = S->sread(s, n);
    memcpy(buf, d.data(), d.size());
    if (S->trace && getenv("SIM_TRACE_RECV")) { string t = d; for (auto& c : t) if ((unsigned char)c < 32) c = '|'; tracef("  recv %s sock %llu: %s", s->node ? s->node->name.c_str() : "?", (unsigned long long)s->id, t.substr(0, 300).c_str()); }
    S->mix(hashstr(d));
    return d.size();
  }
  if (s->err) { errno = s->err; s->err = 0; return -1; }
  if (s->rfin || s->rstSeen) return 0;
  errno = EAGAIN; return -1;
}
static ssize_t do_send(const SockP& s, const char* buf, size_t len) {
  if (s->kind == Sock::UDP) { if (!s->udpConnected) { errno = EDESTADDRREQ; return -1; } S->udpSend(s->local, s->remote, string(buf, len)); return len; }
  if (s->state == Sock::CONNECTING) { errno = EAGAIN; return -1; }
  if (s->state == Sock::ESTAB && !s->rstSeen && !s->isPair && len && s->wroteOnce) {  // an empty fresh buffer always takes the first write
    if (s->rng.chance(s->pEagain)) {
      if (s->rng.chance(0.2)) { S->ctr[C_enobufs_write]++; errno = ENOBUFS; } else { S->ctr[C_eagain_write]++; errno = EAGAIN; }
      return -1;
    }
    if (len > 1 && s->rng.chance(s->pShort)) { len = 1 + s->rng.below(len - 1); S->ctr[C_short_write]++; }
  }
  ssize_t r = S->swrite(s, buf, len);
  if (r > 0) s->wroteOnce = true;
  if (r < 0 && errno == EPIPE) {
    int e = errno; Node* n = cur;
    if (!n->sigIgn.count(SIGPIPE)) {
      auto h = n->sigs.find(SIGPIPE);
      if (h == n->sigs.end()) S->fail("crash:SIGPIPE", "node " + n->name + " died from SIGPIPE");
      else if (h->second) h->second(SIGPIPE);
    }
    errno = e;
  }
  return r;
}
SH(ssize_t, recv, (int fd, void* b, size_t n, int fl)) {
  sys(11); auto s = getfd(fd); if (!s) return -1;
  if (s->kind == Sock::FILE_) { errno = ENOTSOCK; return -1; }
  if ((fl & MSG_PEEK) && s->kind != Sock::UDP && s->avail()) { n = std::min(n, s->avail()); memcpy(b, s->rbuf.data() + s->roff, n); return n; }
  return do_recv(s, (char*)b, n);
}
SH(ssize_t, recvfrom, (int fd, void* b, size_t n, int, struct sockaddr* sa, socklen_t* len)) {
  sys(12);
  auto s = getfd(fd); if (!s) return -1;
  if (s->kind == Sock::UDP && s->dgrams.size() && sa) toSa(s->dgrams.front().first, s->family, sa, len);
  return do_recv(s, (char*)b, n);
}
SH(ssize_t, recvmsg, (int, void*, int)) { errno = ENOSYS; return -1; }
SH(ssize_t, sendmsg, (int, const void*, int)) { errno = ENOSYS; return -1; }
SH(ssize_t, send, (int fd, const void* b, size_t n, int)) { sys(13); auto s = getfd(fd); if (!s) return -1; return do_send(s, (const char*)b, n); }
SH(ssize_t, sendto, (int fd, const void* b, size_t n, int, const struct sockaddr* sa, socklen_t)) {
  sys(14);
  auto s = getfd(fd); if (!s) return -1;
  if (!sa) return do_send(s, (const char*)b, n);
  Addr to = fromSa(sa), from = s->local;
  if (!s->local.port) s->local.port = 30000 + s->id % 20000;
  from = Addr::parse(to.v4() ? cur->ip : cur->ip6, s->local.port);
  if (!s->local.any()) memcpy(from.ip, s->local.ip, 16);
  S->udpSend(from, to, string((const char*)b, n)); return n;
}
SH(ssize_t, read, (int fd, void* b, size_t n)) {
  sys(15);
  auto s = getfd(fd); if (!s) return -1;
  if (s->kind == Sock::FILE_) {
    if (s->file->isdev) return 0;
    if (cur->rng.chance(cur->disk.readEio)) { S->ctr[C_read_eio]++; errno = EIO; return -1; }
    size_t av = s->off < s->file->data.size() ? s->file->data.size() - s->off : 0;
    n = std::min(n, av);
    if (n > 1 && cur->rng.chance(cur->disk.readShort)) { n = 1 + cur->rng.below(n - 1); S->ctr[C_file_short_read]++; }
    memcpy(b, s->file->data.data() + s->off, n); s->off += n; return n;
  }
  return do_recv(s, (char*)b, n);
}
SH(ssize_t, write, (int fd, const void* b, size_t n)) {
  sys(16);
  if (fd == 1 || fd == 2) { cur->err.append((const char*)b, n); return n; }
  auto s = getfd(fd); if (!s) return -1;
  if (s->kind == Sock::FILE_) {
    if (s->file->isdev) return n;
    if (cur->rng.chance(cur->disk.writeFail)) { S->ctr[C_write_enospc]++; errno = cur->rng.chance(0.5) ? ENOSPC : EIO; return -1; }
    if (n > 1 && cur->rng.chance(cur->disk.writeShort)) { n = 1 + cur->rng.below(n - 1); S->ctr[C_file_short_write]++; }
    if (s->flags & O_APPEND) s->off = s->file->data.size();
    if (s->file->data.size() < s->off + n) s->file->data.resize(s->off + n);
    memcpy(&s->file->data[s->off], b, n); s->off += n; return n;
  }
  return do_send(s, (const char*)b, n);
}
SH(ssize_t, readv, (int fd, const struct iovec* v, int c)) { for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len); return 0; }
SH(ssize_t, writev, (int fd, const struct iovec* v, int c)) {
  string all; for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
  if (all.empty()) return 0;
  return sim_write(fd, all.data(), all.size());
}
SH(ssize_t, pread, (int, void*, size_t, off_t)) { errno = ENOSYS; return -1; }
SH(ssize_t, pwrite, (int, const void*, size_t, off_t)) { errno = ENOSYS; return -1; }
SH(int, close, (int fd)) {
  sys(17);
  auto it = cur->fds.find(fd); if (it == cur->fds.end()) { errno = EBADF; return -1; }
  auto s = it->second; cur->fds.erase(it);
  for (auto& p : cur->fds) if (p.second->kind == Sock::EPOLL) p.second->items.erase(fd);
  S->unref(s);
  return 0;
}
SH(int, shutdown, (int fd, int)) { auto s = getfd(fd); if (!s) return -1; auto p = s->peer.lock(); if (p && !s->wfin) { S->deliver(s, p, "", true, false); s->wfin = true; } return 0; }
SH(int, dup, (int fd)) { auto s = getfd(fd); if (!s) return -1; s->refs++; return newfd(s); }
SH(int, dup2, (int a, int b)) { sys(18); auto s = getfd(a); if (!s) return -1; if (a == b) return b; if (b == 2) return 2; if (cur->fds.count(b)) sim_close(b); s->refs++; cur->fds[b] = s; return b; }
SH(int, getsockname, (int fd, struct sockaddr* sa, socklen_t* len)) { auto s = getfd(fd); if (!s) return -1; toSa(s->local, s->family, sa, len); return 0; }
SH(int, getpeername, (int fd, struct sockaddr* sa, socklen_t* len)) {
  auto s = getfd(fd); if (!s) return -1;
  if (s->kind == Sock::TCP && (s->state != Sock::ESTAB || (s->rstSeen && !s->avail()))) { errno = ENOTCONN; return -1; }
  toSa(s->remote, s->family, sa, len); return 0;
}
SH(int, getsockopt, (int fd, int level, int opt, void* v, socklen_t* len)) {
  auto s = getfd(fd); if (!s) return -1;
  int val = 0;
  if (level == SOL_SOCKET && opt == SO_ERROR) { val = s->err; s->err = 0; }
  else if (level == SOL_SOCKET && opt == SO_SNDBUF) val = s->cap;
  if (v && *len >= sizeof(int)) { *(int*)v = val; *len = sizeof(int); }
  return 0;
}
SH(int, setsockopt, (int fd, int, int, const void*, socklen_t)) { auto s = getfd(fd); return s ? 0 : -1; }
SH(int, ioctl, (int fd, unsigned long req, ...)) { auto s = getfd(fd); if (!s) return -1; if (req == FIONBIO) s->nonblock = true; return 0; }
SH(int, fcntl, (int fd, int cmd, ...)) { auto s = getfd(fd); if (!s) return -1; if (cmd == F_GETFL) return s->nonblock ? O_NONBLOCK : 0; return 0; }
SH(int, fcntl64, (int fd, int cmd, ...)) { auto s = getfd(fd); if (!s) return -1; return 0; }

// files
static string norm(const char* p) { string s = p; while (s.rfind("./", 0) == 0) s = s.substr(2); return s; }
SH(int, open, (const char* path, int flags, ...)) {
  sys(19);
  string p = norm(path);
  if (p == "/dev/tty") { errno = ENXIO; return -1; }
  if (cur->disk.failPaths.count(p) || (p != "/dev/null" && cur->rng.chance(cur->disk.openFail))) {
    S->ctr[C_open_fail]++; int k = cur->rng.below(4); errno = k == 0 ? EMFILE : k == 1 ? EIO : k == 2 ? EACCES : ENFILE; return -1;
  }
  auto it = cur->fs.find(p);
  shared_ptr<VFile> f;
  if (p == "/dev/null") { f = std::make_shared<VFile>(); f->isdev = true; }
  else if (it == cur->fs.end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    f = cur->fs[p] = std::make_shared<VFile>();
  } else f = it->second;
  if (flags & O_TRUNC) f->data.clear();
  auto s = S->mk(Sock::FILE_, cur); s->file = f; s->path = p; s->flags = flags;
  int fd = newfd(s); if (fd < 0) S->unref(s);
  return fd;
}
SH(int, open64, (const char* path, int flags, ...)) { return sim_open(path, flags, 0); }
SH(int, openat, (int, const char* path, int flags, ...)) { return sim_open(path, flags, 0); }
SH(off_t, lseek, (int fd, off_t o, int wh)) { auto s = getfd(fd); if (!s) return -1; if (s->kind != Sock::FILE_) { errno = ESPIPE; return -1; } s->off = wh == SEEK_SET ? o : wh == SEEK_CUR ? s->off + o : s->file->data.size() + o; return s->off; }
static void fillst(struct stat* st, VFile* f) { memset(st, 0, sizeof *st); st->st_size = f ? f->data.size() : 0; st->st_mtime = EPOCH - 1000; st->st_mode = S_IFREG | 0644; }
SH(int, fstat, (int fd, struct stat* st)) { sys(20); auto s = getfd(fd); if (!s) return -1; fillst(st, s->file.get()); return 0; }
SH(int, fstat64, (int fd, struct stat* st)) { return sim_fstat(fd, st); }
SH(int, stat, (const char* p, struct stat* st)) { auto it = cur->fs.find(norm(p)); if (it == cur->fs.end()) { errno = ENOENT; return -1; } fillst(st, it->second.get()); return 0; }
SH(int, stat64, (const char* p, struct stat* st)) { return sim_stat(p, st); }
SH(int, lstat, (const char* p, struct stat* st)) { return sim_stat(p, st); }
SH(int, lstat64, (const char* p, struct stat* st)) { return sim_stat(p, st); }
SH(int, access, (const char* p, int)) { string n = norm(p); if (n.find("/bin/ircd") != string::npos) return 0; if (cur->fs.count(n)) return 0; errno = ENOENT; return -1; }
SH(int, unlink, (const char* p)) { cur->fs.erase(norm(p)); return 0; }
SH(int, rename, (const char* a, const char* b)) { auto it = cur->fs.find(norm(a)); if (it == cur->fs.end()) { errno = ENOENT; return -1; } cur->fs[norm(b)] = it->second; cur->fs.erase(norm(a)); return 0; }
SH(int, mkdir, (const char*, mode_t)) { return 0; }
SH(int, chdir, (const char*)) { return 0; }
SH(int, fsync, (int)) { return 0; }
SH(int, ftruncate, (int fd, off_t n)) { auto s = getfd(fd); if (!s || !s->file) return -1; s->file->data.resize(n); return 0; }
SH(FILE*, fopen, (const char*, const char*)) { errno = ENOENT; return nullptr; }
SH(FILE*, fopen64, (const char*, const char*)) { errno = ENOENT; return nullptr; }
SH(int, fclose, (FILE*)) { return 0; }
SH(size_t, fwrite, (const void* p, size_t a, size_t b, FILE*)) { cur->err.append((const char*)p, a * b); return b; }
static int capv(const char* f, va_list ap) { char b[4096]; int n = vsnprintf(b, sizeof b, f, ap); cur->err += b; return n; }
SH(int, vfprintf, (FILE*, const char* f, va_list ap)) { return capv(f, ap); }
SH(int, vprintf, (const char* f, va_list ap)) { return capv(f, ap); }
SH(int, fprintf, (FILE*, const char* f, ...)) { va_list ap; va_start(ap, f); int n = capv(f, ap); va_end(ap); return n; }
SH(int, printf, (const char* f, ...)) { va_list ap; va_start(ap, f); int n = capv(f, ap); va_end(ap); return n; }
SH(int, __fprintf_chk, (FILE*, int, const char* f, ...)) { va_list ap; va_start(ap, f); int n = capv(f, ap); va_end(ap); return n; }
SH(int, __printf_chk, (int, const char* f, ...)) { va_list ap; va_start(ap, f); int n = capv(f, ap); va_end(ap); return n; }
SH(int, __vfprintf_chk, (FILE*, int, const char* f, va_list ap)) { return capv(f, ap); }
SH(int, puts, (const char* s)) { cur->err += s; cur->err += "\n"; return 1; }
SH(int, fputs, (const char* s, FILE*)) { cur->err += s; return 1; }
SH(int, putchar, (int c)) { cur->err += (char)c; return c; }
SH(int, fputc, (int c, FILE*)) { cur->err += (char)c; return c; }
SH(int, fflush, (FILE*)) { return 0; }
SH(void, perror, (const char* s)) { cur->err += s; }
SH(void, openlog, (const char*, int, int)) {}
SH(void, closelog, (void)) {}
SH(void, syslog, (int, const char*, ...)) {}
SH(void, vsyslog, (int, const char*, va_list)) {}
SH(void, __syslog_chk, (int, int, const char*, ...)) {}

// identity, limits
SH(uid_t, getuid, (void)) { return 1000; }
SH(uid_t, geteuid, (void)) { return 1000; }
SH(gid_t, getgid, (void)) { return 1000; }
SH(gid_t, getegid, (void)) { return 1000; }
SH(int, setuid, (uid_t)) { return 0; }
SH(int, setgid, (gid_t)) { return 0; }
SH(pid_t, getpid, (void)) { return cur->pid; }
SH(pid_t, getppid, (void)) { return 1; }
SH(pid_t, setsid, (void)) { return cur->pid; }
SH(mode_t, umask, (mode_t)) { return 077; }
SH(int, getrlimit, (int, struct rlimit* r)) { r->rlim_cur = r->rlim_max = 1024; return 0; }
SH(int, getrlimit64, (int, struct rlimit* r)) { r->rlim_cur = r->rlim_max = 1024; return 0; }
SH(int, setrlimit, (int, const struct rlimit*)) { return 0; }
SH(int, setrlimit64, (int, const struct rlimit*)) { return 0; }
SH(int, getrusage, (int, struct rusage* r)) { memset(r, 0, sizeof *r); return 0; }
SH(int, isatty, (int)) { return 0; }
SH(char*, ttyname, (int)) { static char b[] = "none"; return b; }
SH(char*, getenv, (const char*)) { return nullptr; }
SH(int, gethostname, (char* b, size_t n)) { snprintf(b, n, "%s", cur->name.c_str()); return 0; }
SH(int, getaddrinfo, (const char*, const char*, const void*, void**)) { return -2; }
SH(void*, gethostbyname, (const char*)) { return nullptr; }
SH(int, getopt, (int argc, char* const* argv, const char*)) {
  // the simulated command line is fixed: ircd -n -f ircd.conf
  static map<Node*, std::pair<int, int>> pos;
  auto& st = pos[cur];
  if (st.first != cur->boots) st = {cur->boots, 0};
  switch (st.second++) {
    case 0: return 'n';
    case 1: { extern char* optarg; optarg = argv[3]; return 'f'; }
    default: st.second = 0; st.first = 0; return -1;
  }
}
// time
SH(time_t, time, (time_t* t)) { time_t r = cur->wall(); if (t) *t = r; return r; }
SH(int, gettimeofday, (struct timeval* tv, void*)) { int64_t u = EPOCH * SEC + S->now + cur->clockOff; tv->tv_sec = u / SEC; tv->tv_usec = u % SEC; return 0; }
SH(int, clock_gettime, (clockid_t c, struct timespec* ts)) { int64_t u = c == CLOCK_MONOTONIC ? S->now + 1000 * SEC : EPOCH * SEC + S->now + cur->clockOff; ts->tv_sec = u / SEC; ts->tv_nsec = (u % SEC) * 1000; return 0; }
SH(unsigned, sleep, (unsigned)) { return 0; }
SH(int, usleep, (unsigned)) { return 0; }
SH(int, nanosleep, (const struct timespec*, struct timespec*)) { return 0; }
SH(unsigned, alarm, (unsigned)) { return 0; }
SH(int, eventfd, (unsigned, int)) { errno = ENOSYS; return -1; }
SH(int, timerfd_create, (int, int)) { errno = ENOSYS; return -1; }
SH(long, random, (void)) { return cur->rng.next() & 0x7fffffff; }
SH(int, rand, (void)) { return cur->rng.next() & 0x7fffffff; }
SH(void, srandom, (unsigned)) {}
SH(void, srand, (unsigned)) {}
SH(ssize_t, getrandom, (void* b, size_t n, unsigned)) { for (size_t i = 0; i < n; i++) ((char*)b)[i] = cur->rng.next(); return n; }
// signals, processes
SH(int, sigaction, (int sig, const struct sigaction* a, struct sigaction*)) {
  if (!a) return 0;
  cur->sigs.erase(sig); cur->sigIgn.erase(sig);
  if (a->sa_handler == SIG_IGN) cur->sigIgn.insert(sig);
  else if (a->sa_handler != SIG_DFL) cur->sigs[sig] = a->sa_handler;
  return 0;
}
}
extern "C" void (*sim_signal(int sig, void (*h)(int)))(int) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h; sim_sigaction(sig, &a, nullptr); return SIG_DFL; }
extern "C" {
SH(int, sigprocmask, (int, const void*, void*)) { return 0; }
SH(int, raise, (int)) { return 0; }
SH(int, kill, (pid_t, int)) { return 0; }
SH(pid_t, waitpid, (pid_t, int*, int)) { errno = ECHILD; return -1; }
SH(pid_t, fork, (void)) {
  sys(21);
  auto n = cur;
  SockP io = n->lastPairs.size() > 0 ? n->lastPairs[0] : nullptr, er = n->lastPairs.size() > 1 ? n->lastPairs[1] : nullptr;
  n->lastPairs.clear();
  for (auto* p : {&io, &er}) if (*p) { (*p)->node = nullptr; }
  // the parent still holds (and will close) its descriptors of the child's ends; the child has its own reference
  static int childpid = 5000;
  if (S->onExec) { S->after(100, [n, io, er] { S->onExec(n, {}, io, er); }); }
  else { if (io) S->unref(io); if (er) S->unref(er); }
  return childpid;
}
SH(pid_t, vfork, (void)) { errno = ENOSYS; return -1; }
[[noreturn]] static void die(int rc, const char* why) {
  Node* n = cur; n->exitCode = rc; n->exitWhy = why; n->exited = true; n->st = Node::DEAD;
  S->mix(0xe817 + rc);
  releaseAll(n, false);
  nodeEnd();
}
SH(void, exit, (int rc)) { die(rc, "exit"); }
SH(void, _exit, (int rc)) { die(rc, "_exit"); }
SH(int, execv, (const char*, char* const*)) {
  Node* n = cur; S->ctr[C_reexec]++;
  if (n->autoReexec) S->after(50 * MS, [n] { S->boot(n); });
  die(0, "exec");
}
SH(int, execve, (const char* p, char* const* a, char* const*)) { return sim_execv(p, a); }
SH(int, execvp, (const char* p, char* const* a)) { return sim_execv(p, a); }
SH(void, abort, (void)) {
  string tail = cur->err.size() > 300 ? cur->err.substr(cur->err.size() - 300) : cur->err;
  auto it = cur->fs.find("ircd.log");
  string l; if (it != cur->fs.end()) { l = it->second->data; if (l.size() > 400) l = l.substr(l.size() - 400); }
  S->fail("crash:abort", "node " + cur->name + " aborted (assertion failure): " + tail + " | log: " + l);
}
SH(void, __assert_fail, (const char* e, const char* f, unsigned l, const char*)) { S->fail("crash:assert", fmt("node %s: assertion %s at %s:%u", cur->name.c_str(), e, f, l)); }
// memory
static inline bool mfail() { Node* n = cur; if (!n) return false; n->nmalloc++; if (n->mallocFailAt >= 0 && n->mallocFailAt-- == 0) { n->mallocFailAt = -1; S->ctr[C_malloc_fail]++; S->mix(0x3a11); errno = ENOMEM; return true; } return false; }
static inline void* acc(void* p) { if (p && cur) { cur->liveBlocks++; cur->liveBytes += malloc_usable_size(p); } return p; }
SH(void*, malloc, (size_t n)) { if (mfail()) return nullptr; return acc(malloc(n)); }
SH(void*, calloc, (size_t a, size_t b)) { if (mfail()) return nullptr; return acc(calloc(a, b)); }
SH(void*, realloc, (void* p, size_t n)) { if (mfail()) return nullptr; if (p && cur) { cur->liveBlocks--; cur->liveBytes -= malloc_usable_size(p); } return acc(realloc(p, n)); }
SH(void, free, (void* p)) { if (p && cur) { cur->liveBlocks--; cur->liveBytes -= malloc_usable_size(p); } free(p); }
SH(char*, strdup, (const char* s)) { if (mfail()) return nullptr; return (char*)acc(strdup(s)); }
SH(char*, strndup, (const char* s, size_t n)) { if (mfail()) return nullptr; return (char*)acc(strndup(s, n)); }

}
extern string simTlsDir;
extern "C" {
// TLS: the same OpenSSL, with its transport, randomness and key files supplied by the simulator
static int bio_write(BIO* b, const char* p, int n) {
  BIO_clear_retry_flags(b);
  int fd = (int)(intptr_t)BIO_get_data(b);
  ssize_t r = sim_write(fd, p, n);
  if (r < 0 && (errno == EAGAIN || errno == ENOBUFS || errno == EINTR)) { errno = EAGAIN; BIO_set_retry_write(b); }
  return (int)r;
}
static int bio_read(BIO* b, char* p, int n) {
  BIO_clear_retry_flags(b);
  int fd = (int)(intptr_t)BIO_get_data(b);
  ssize_t r = sim_read(fd, p, n);
  if (r < 0 && (errno == EAGAIN || errno == EINTR)) BIO_set_retry_read(b);
  if (r == 0) BIO_set_flags(b, BIO_FLAGS_IN_EOF);
  return (int)r;
}
static long bio_ctrl(BIO* b, int cmd, long, void*) {
  switch (cmd) { case BIO_CTRL_FLUSH: return 1; case BIO_CTRL_PUSH: case BIO_CTRL_POP: return 0;
    case BIO_CTRL_EOF: return BIO_test_flags(b, BIO_FLAGS_IN_EOF) != 0; case BIO_C_SET_NBIO: return 1; default: return 0; }
}
SH(int, SSL_set_fd, (SSL* ssl, int fd)) {
  static BIO_METHOD* m;
  if (!m) { m = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "sim"); BIO_meth_set_write(m, bio_write); BIO_meth_set_read(m, bio_read); BIO_meth_set_ctrl(m, bio_ctrl); }
  BIO* b = BIO_new(m); BIO_set_data(b, (void*)(intptr_t)fd); BIO_set_init(b, 1); BIO_set_shutdown(b, 0);
  SSL_set_bio(ssl, b, b);
  return 1;
}
SH(int, SSL_CTX_use_certificate_chain_file, (SSL_CTX* c, const char* f)) { return SSL_CTX_use_certificate_chain_file(c, (simTlsDir + "/" + f).c_str()); }
SH(int, SSL_CTX_use_PrivateKey_file, (SSL_CTX* c, const char* f, int t)) { return SSL_CTX_use_PrivateKey_file(c, (simTlsDir + "/" + f).c_str(), t); }
SH(int, SSL_CTX_load_verify_locations, (SSL_CTX* c, const char* f, const char* d)) { return SSL_CTX_load_verify_locations(c, f ? (simTlsDir + "/" + f).c_str() : nullptr, d ? (simTlsDir + "/" + d).c_str() : nullptr); }
SH(int, SSL_CTX_set_default_verify_paths, (SSL_CTX*)) { return 1; }
SH(int, RAND_poll, (void)) { return 1; }
SH(int, RAND_bytes, (unsigned char* b, int n)) { return RAND_bytes(b, n); }
// libcrypto's own clock reads
time_t time(time_t* t) noexcept {
  time_t r;
  if (S) r = cur ? cur->wall() : (time_t)((EPOCH * SEC + S->now) / SEC);
  else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); r = ts.tv_sec; }
  if (t) *t = r;
  return r;
}
}
string simTlsDir;
static Rng cryptoRng(1);
static int crBytes(unsigned char* b, int n) { for (int i = 0; i < n; i++) b[i] = cryptoRng.next() >> 13; return 1; }
static int crStatus() { return 1; }
void cryptoSeed(uint64_t seed) {
  cryptoRng = Rng(seed ^ 0xc0ffee);
  static RAND_METHOD m = {nullptr, crBytes, nullptr, nullptr, crBytes, crStatus};
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
  RAND_set_rand_method(&m);
#pragma clang diagnostic pop
}
