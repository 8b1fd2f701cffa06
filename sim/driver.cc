// Seeded search, replay, minimisation, evidence.
#include "world.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <dirent.h>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1:symbolize=1:"
         "fast_unwind_on_malloc=1:malloc_context_size=6:quarantine_size_mb=16:max_free_fill_size=0:detect_odr_violation=0:allow_user_segv_handler=1:print_legend=0";
}
const set<uint64_t>& featureSet();
extern string simTlsDir;

static const int MAXF = 8192;
struct Result {
  volatile int status;   // 0 running/crashed, 1 ok, 2 violation
  uint64_t hash, sched; int64_t simTime, steps, ops; uint64_t ctr[C_MAX];
  int nf; uint64_t feats[MAXF];
  char cls[200]; char msg[12000];
};
static Result* R;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static Result* newResult() { return (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

void endRun(const Violation* v) {
  R->hash = S->hash; R->sched = S->schedHash; R->simTime = S->now; R->steps = S->steps;
  memcpy(R->ctr, S->ctr, sizeof R->ctr);
  int n = 0; for (auto f : featureSet()) if (n < MAXF) R->feats[n++] = f; R->nf = n;
  if (v) { snprintf(R->cls, sizeof R->cls, "%s", v->cls.c_str()); snprintf(R->msg, sizeof R->msg, "%s", v->msg.c_str()); for (char* p = R->msg; *p; p++) if ((unsigned char)*p < 32) *p = ' '; }
  R->status = v ? 2 : 1;
  _exit(v ? 1 : 0);
}

static Prop* findProp(const string& id) { for (auto& p : props()) if (id == p.id) return &p; return nullptr; }
static bool gTrace = false; static int gCpu = 25;

// One simulated run in a child process.  Returns false if it could not even be started.
static void runChild(const Plan& plan, Result* r) {
  R = r; r->status = 0; r->cls[0] = r->msg[0] = 0; r->nf = 0; r->hash = 0; r->simTime = 0; r->steps = 0; memset(r->ctr, 0, sizeof r->ctr);
  int ef = memfd_create("err", 0);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    if (!gTrace) { dup2(ef, 2); dup2(ef, 1); }
    struct rlimit rl{(rlim_t)gCpu, (rlim_t)gCpu + 5}; setrlimit(RLIMIT_CPU, &rl); rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    Prop* p = findProp(plan.prop);
    new World(plan);
    S->trace = gTrace;
    p->run(plan);
    endRun(nullptr);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (r->status == 0) {
    string err; char b[65536]; lseek(ef, 0, SEEK_SET); ssize_t n; while ((n = read(ef, b, sizeof b)) > 0) err.append(b, n);
    string cls;
    auto k = err.find("ERROR: AddressSanitizer");
    if (k != string::npos) {
      auto s = err.find("SUMMARY: AddressSanitizer: "); string sum;
      if (s != string::npos) { sum = err.substr(s + 27); sum = sum.substr(0, sum.find('\n')); }
      vector<string> w = words(sum); cls = "crash:asan " + (w.size() ? w[0] : "?") + (w.size() > 2 ? " in " + w.back() : "");
      err = err.substr(k, 3500);
    } else if (WIFSIGNALED(st)) cls = WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "crash:hang" : fmt("crash:signal %d", WTERMSIG(st));
    else cls = fmt("crash:exit %d", WEXITSTATUS(st));
    snprintf(r->cls, sizeof r->cls, "%s", cls.c_str());
    for (auto& c : err) if (c == '\n') c = '|';
    snprintf(r->msg, sizeof r->msg, "%s", err.substr(0, 6000).c_str());
    r->status = 2; r->hash = hashstr(cls);
  }
  close(ef);
}
static Plan makePlan(Prop* p, uint64_t seed) { Plan pl; pl.prop = p->id; pl.seed = seed; Rng r(seed ^ hashstr(string(p->id))); p->gen(pl, r); return pl; }

static string planText(const Plan& p, const Result* r) {
  string o = "ircsim-replay 1\nproperty " + p.prop + fmt("\nseed %llu\n", (unsigned long long)p.seed);
  if (r) o += fmt("class %s\nhash %016llx\nmessage %s\n", r->cls, (unsigned long long)r->hash, r->msg);
  for (auto& k : p.knobs) o += "knob " + k.first + " " + k.second + "\n";
  for (auto& op : p.ops) o += "op " + op + "\n";
  return o;
}
static bool loadPlan(const string& path, Plan& p, string& cls, string& hash) {
  FILE* f = fopen(path.c_str(), "r"); if (!f) return false;
  char* l = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&l, &cap, f)) > 0) {
    string s(l, n); while (s.size() && s.back() == '\n') s.pop_back();
    auto sp = s.find(' '); string k = s.substr(0, sp), v = sp == string::npos ? "" : s.substr(sp + 1);
    if (k == "property") p.prop = v; else if (k == "seed") p.seed = strtoull(v.c_str(), 0, 10); else if (k == "class") cls = v; else if (k == "hash") hash = v;
    else if (k == "knob") { auto q = v.find(' '); p.knobs[v.substr(0, q)] = q == string::npos ? "" : v.substr(q + 1); }
    else if (k == "op") p.ops.push_back(v);
  }
  free(l); fclose(f); return true;
}

static Plan minimise(const Plan& p0, const string& cls, double budget, Result* r, int* tried) {
  double t0 = now(); Plan best = p0; *tried = 0;
  auto test = [&](const Plan& c) { (*tried)++; runChild(c, r); return r->status == 2 && cls == r->cls; };
  // ddmin over the operations
  size_t n = 2;
  while (best.ops.size() >= 1 && now() - t0 < budget) {
    bool red = false; size_t sz = std::max<size_t>(1, (best.ops.size() + n - 1) / n);
    for (size_t i = 0; i < best.ops.size() && now() - t0 < budget; i += sz) {
      Plan c = best; c.ops.erase(c.ops.begin() + i, c.ops.begin() + std::min(i + sz, c.ops.size()));
      if (test(c)) { best = c; red = true; n = std::max<size_t>(n - 1, 2); break; }
    }
    if (!red) { if (sz == 1) break; n = std::min(n * 2, best.ops.size()); }
  }
  auto ks = best.knobs;
  for (auto& k : ks) { if (now() - t0 > budget * 1.3) break; Plan c = best; c.knobs.erase(k.first); if (test(c)) best = c; }
  return best;
}

struct Known { string prop, cls, match, text, replay; };
static vector<Known> loadKnown(const string& path) {
  vector<Known> v; FILE* f = fopen(path.c_str(), "r"); if (!f) return v;
  char* l = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&l, &cap, f)) > 0) {
    string s(l, n); while (s.size() && s.back() == '\n') s.pop_back();
    if (!startsWith(s, "known: ")) continue;   // lines "fixed: ..." suppress nothing
    // known: property=ID | class=... | match=... | replay=... | text
    auto parts = splitBy(s.substr(7), '|'); Known k;
    for (auto& x : parts) { while (x.size() && x[0] == ' ') x.erase(0, 1); while (x.size() && x.back() == ' ') x.pop_back();
      if (startsWith(x, "property=")) k.prop = x.substr(9); else if (startsWith(x, "class=")) k.cls = x.substr(6); else if (startsWith(x, "match=")) k.match = x.substr(6); else if (startsWith(x, "replay=")) k.replay = x.substr(7); else k.text = x; }
    v.push_back(k);
  }
  free(l); fclose(f); return v;
}

static string jstr(const string& s) { string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; } return o + "\""; }

struct WorkerShm { volatile uint64_t runs, nontrivial, simTimeMs, steps, ctr[C_MAX], recheck, mismatch, nfeat, nsched, opsTotal; volatile int found; uint64_t foundSeed[8]; char foundCls[8][200]; uint64_t feats[1 << 18]; uint64_t sched[1 << 16]; volatile int knownHits; };

static int cmdCheck(const string& id, const string& tier, uint64_t seed, double secs, const string& evid, const string& outdir, const string& known, int workers, int64_t maxRuns) {
  Prop* p = findProp(id); if (!p) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
  double t0 = now();
  auto kn = loadKnown(known);
  // known findings first: each is replayed and reported
  bool knownBroken = false;
  for (auto& k : kn) if (k.prop == id) {
    if (k.replay.empty()) { printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), k.text.c_str()); continue; }
    string base = known.substr(0, known.rfind('/') + 1); Plan pl; string c, h; Result* r = newResult();
    if (!loadPlan(base + k.replay, pl, c, h)) { printf("cannot read %s\n", k.replay.c_str()); continue; }
    runChild(pl, r);
    if (r->status == 2 && k.cls == r->cls) printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), k.text.c_str());
    else if (r->status == 2) { printf("class: %s\nmessage: %.1500s\nVIOLATION property=%s replay=%s\n", r->cls, r->msg, id.c_str(), (base + k.replay).c_str()); knownBroken = true; }
    else printf("note: the known finding '%s' was not reproduced by %s\n", k.text.c_str(), k.replay.c_str());
  }
  fflush(stdout);
  auto isKnown = [&](const string& cls, const string& msg) { for (auto& k : kn) if (k.prop == id && k.replay.empty() && k.cls == cls && (k.match.empty() || msg.find(k.match) != string::npos)) return true; return false; };
  vector<WorkerShm*> ws; vector<pid_t> pids;
  volatile int* stop = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  uint64_t base = mix64(seed * 0x9e3779b97f4a7c15ULL + hashstr(id)) & 0xffffffffffffULL; (void)base;
  for (int w = 0; w < workers; w++) {
    auto* s = (WorkerShm*)mmap(nullptr, sizeof(WorkerShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ws.push_back(s);
    pid_t pid = fork();
    if (pid == 0) {
      Result* r = newResult(); set<uint64_t> fs, sc;
      for (uint64_t i = 0; now() - t0 < secs && !*stop && (maxRuns <= 0 || (int64_t)(i * workers + w) < maxRuns); i++) {
        uint64_t sd = seed * 1000000ULL + i * workers + w;
        Plan pl = makePlan(p, sd);
        runChild(pl, r);
        s->runs++; s->simTimeMs += r->simTime / 1000; s->steps += r->steps; s->opsTotal += pl.ops.size();
        for (int k = 0; k < C_MAX; k++) s->ctr[k] += r->ctr[k];
        if (r->steps > 500 && pl.ops.size() > 1) s->nontrivial++;
        for (int k = 0; k < r->nf; k++) if (fs.insert(r->feats[k]).second && s->nfeat < (1 << 18)) { s->feats[s->nfeat] = r->feats[k]; s->nfeat++; }
        if (sc.insert(r->sched).second && s->nsched < (1 << 16)) { s->sched[s->nsched] = r->sched; s->nsched++; }
        if (r->status == 2) {
          if (isKnown(r->cls, r->msg)) { s->knownHits++; continue; }
          int f = s->found; if (f < 8) { s->foundSeed[f] = sd; snprintf(s->foundCls[f], 200, "%s", r->cls); s->found++; }
          if (f + 1 >= 8) break;
          *stop = 1; break;
        } else if (i % 40 == 0) {
          uint64_t h = r->hash; runChild(pl, r); s->recheck++; if (r->hash != h) { s->mismatch++; if (getenv("SIM_VERBOSE")) fprintf(stderr, "determinism mismatch seed %llu\n", (unsigned long long)sd); }
        }
      }
      _exit(0);
    }
    pids.push_back(pid);
  }
  for (auto pid : pids) { int st; waitpid(pid, &st, 0); }
  uint64_t runs = 0, nontriv = 0, ms = 0, steps = 0, rec = 0, mis = 0, opsT = 0, kh = 0; uint64_t ctr[C_MAX] = {0}; set<uint64_t> fs, sc; vector<std::pair<uint64_t, string>> found;
  for (auto* s : ws) {
    runs += s->runs; nontriv += s->nontrivial; ms += s->simTimeMs; steps += s->steps; rec += s->recheck; mis += s->mismatch; opsT += s->opsTotal; kh += s->knownHits;
    for (int k = 0; k < C_MAX; k++) ctr[k] += s->ctr[k];
    for (uint64_t k = 0; k < s->nfeat; k++) fs.insert(s->feats[k]);
    for (uint64_t k = 0; k < s->nsched; k++) sc.insert(s->sched[k]);
    for (int k = 0; k < s->found && k < 8; k++) found.push_back({s->foundSeed[k], s->foundCls[k]});
  }
  double searchWall = now() - t0;
  int nviol = knownBroken, unrepro = 0; Result* r = newResult();
  std::sort(found.begin(), found.end());
  for (auto& f : found) {
    Plan pl = makePlan(p, f.first);
    int same = 0; uint64_t h0 = 0; bool hsame = true;
    for (int k = 0; k < 2; k++) { runChild(pl, r); if (r->status == 2 && f.second == r->cls) same++; if (k && r->hash != h0) hsame = false; h0 = r->hash; }
    if (same < 2) { unrepro++; printf("UNREPRODUCED property=%s seed=%llu class=%s (%d of 2 repeats)\n", id.c_str(), (unsigned long long)f.first, f.second.c_str(), same); continue; }
    int tried = 0; Plan m = minimise(pl, f.second, tier == "quick" ? 20 : 60, r, &tried);
    runChild(m, r);
    if (!(r->status == 2 && f.second == r->cls)) { m = pl; runChild(m, r); }
    string path = fmt("%s/%s-%llu.replay", outdir.c_str(), id.c_str(), (unsigned long long)f.first);
    FILE* o = fopen(path.c_str(), "w"); if (o) { string t = planText(m, r); fwrite(t.data(), 1, t.size(), o); fclose(o); }
    printf("class: %s\nmessage: %.1500s\nseed %llu: %zu ops -> %zu after %d minimisation runs%s\n", r->cls, r->msg, (unsigned long long)f.first, pl.ops.size(), m.ops.size(), tried, hsame ? "" : " (event hashes differ between repeats)");
    printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
    nviol++;
    break;
  }
  fflush(stdout);
  // evidence
  double wall = now() - t0;
  Plan sample = makePlan(p, seed * 1000000ULL);
  string e = "{\n";
  e += fmt("\"property\": %s, \"tier\": %s, \"seed\": %llu, \"level\": \"exploration\",\n", jstr(id).c_str(), jstr(tier).c_str(), (unsigned long long)seed);
  e += fmt("\"coverage\": {\"evaluations\": %llu, \"distinct_nontrivial\": %zu,\n\"rule\": %s,\n", (unsigned long long)runs, sc.size(), jstr(string(p->rule) + " One evaluation is one simulated execution of the whole system from boot; distinct_nontrivial counts executions with pairwise different delivery schedules (hash of the order, destination and size of every segment delivered), non-trivial meaning more than 500 simulator events and at least two operations.").c_str());
  e += fmt("\"nontrivial_runs\": %llu, \"distinct_states\": %zu, \"distinct_states_measure\": \"distinct (operation kind x outcome x network situation) features recorded by the oracle\",\n", (unsigned long long)nontriv, fs.size());
  e += fmt("\"runs_per_hour\": %.0f, \"seeds_per_hour\": %.0f, \"simulated_hours\": %.3f, \"simulator_events\": %llu, \"operations\": %llu,\n", runs / searchWall * 3600, runs / searchWall * 3600, ms / 3.6e6, (unsigned long long)steps, (unsigned long long)opsT);
  e += "\"faults_injected\": {"; bool first = true;
  for (int k = 0; k < C_MAX; k++) if (ctr[k]) { e += fmt("%s\"%s\": %llu", first ? "" : ", ", ctrNames[k], (unsigned long long)ctr[k]); first = false; }
  e += "},\n";
  e += fmt("\"determinism_rechecks\": %llu, \"determinism_mismatches\": %llu, \"unreproduced\": %d, \"known_finding_hits\": %llu,\n", (unsigned long long)rec, (unsigned long long)mis, unrepro, (unsigned long long)kh);
  e += "\"real_components\": \"all of ircd/*.c of the working tree (event loop, epoll and poll engines, parser, messages, config lexer/parser, resolver, auth, TLS glue) and OpenSSL\",\n";
  e += "\"stubbed_components\": \"kernel: sockets, epoll/poll, clock, files, processes, randomness; parties: clients, P10 peers, DNS/ident servers, iauth helper where used\",\n";
  e += "\"fault_model\": " + jstr(p->faults) + ",\n";
  e += "\"samples\": [";
  { string t = planText(sample, nullptr); if (t.size() > 3000) t = t.substr(0, 3000) + "..."; e += jstr(t); }
  e += "]},\n\"assumptions\": [";
  vector<string> as = p->assumptions; as.push_back("the simulated kernel behaves like Linux for the calls the server makes"); as.push_back("seeded search: a clean result covers the executions explored, nothing more");
  for (size_t i = 0; i < as.size(); i++) e += (i ? ", " : "") + jstr(as[i]);
  e += fmt("],\n\"wall_s\": %.1f, \"violations\": %d\n}\n", wall, nviol);
  FILE* o = fopen(evid.c_str(), "w"); if (o) { fwrite(e.data(), 1, e.size(), o); fclose(o); }
  printf("%s %s: %llu runs, %zu distinct schedules, %zu features, %.2f simulated hours, %.1f s wall, determinism %llu/%llu ok%s\n", id.c_str(), tier.c_str(), (unsigned long long)runs, sc.size(), fs.size(), ms / 3.6e6, wall, (unsigned long long)(rec - mis), (unsigned long long)rec, nviol ? ", VIOLATION" : "");
  if (!runs) return 2;
  return nviol ? 1 : 0;
}

int main(int argc, char** argv) {
  if (!getenv("IRCSIM_NOASLR")) {
    setenv("IRCSIM_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  map<string, string> o; vector<string> pos;
  for (int i = 1; i < argc; i++) { string a = argv[i]; if (startsWith(a, "--")) { if (i + 1 < argc && !startsWith(argv[i + 1], "--")) { o[a.substr(2)] = argv[i + 1]; i++; } else o[a.substr(2)] = "1"; } else pos.push_back(a); }
  if (pos.empty()) { fprintf(stderr, "usage: ircsim check|run|plan|replay|list\n"); return 2; }
  char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); self[sl] = 0;
  string dir = self; dir = dir.substr(0, dir.rfind('/'));
  simTlsDir = dir + "/../sim/tls";
  if (pos[0] == "list") { for (auto& p : props()) printf("%s %s\n", p.id, p.title); return 0; }
  string prefix; { FILE* f = fopen((dir + "/node.path").c_str(), "r"); char b[4096]; if (!f || !fgets(b, sizeof b, f)) { fprintf(stderr, "no node image\n"); return 2; } prefix = b; fclose(f); }
  uint64_t seed = o.count("seed") ? strtoull(o["seed"].c_str(), 0, 10) : 1;
  Prop* p = o.count("prop") ? findProp(o["prop"]) : nullptr;
  if (pos[0] == "plan") { if (!p) return 2; fputs(planText(makePlan(p, seed), nullptr).c_str(), stdout); return 0; }
  loadImages(prefix, 6);
  gTrace = o.count("trace");
  if (o.count("cpu")) gCpu = atoi(o["cpu"].c_str());
  if (pos[0] == "run" || pos[0] == "replay") {
    Plan pl; string cls, hash;
    if (pos[0] == "replay") { if (pos.size() < 2 || !loadPlan(pos[1], pl, cls, hash)) { fprintf(stderr, "cannot read replay file\n"); return 2; } if (!findProp(pl.prop)) { fprintf(stderr, "unknown property\n"); return 2; } }
    else { if (!p) { fprintf(stderr, "unknown property\n"); return 2; } pl = makePlan(p, seed); }
    Result* r = newResult(); double t0 = now(); runChild(pl, r);
    printf("status %s hash %016llx steps %lld sim %.1fs wall %.3fs feats %d\n", r->status == 1 ? "ok" : "VIOLATION", (unsigned long long)r->hash, (long long)r->steps, r->simTime / 1e6, now() - t0, r->nf);
    if (r->status == 2) { printf("class: %s\nmessage: %s\n", r->cls, r->msg);
      if (pos[0] == "replay") { printf("VIOLATION property=%s replay=%s\n", pl.prop.c_str(), pos[1].c_str()); if (hash.size()) printf("event hash %s the recorded one\n", fmt("%016llx", (unsigned long long)r->hash) == hash ? "equals" : "DIFFERS from"); }
      return 1; }
    return 0;
  }
  if (pos[0] == "check") {
    return cmdCheck(o["prop"], o.count("tier") ? o["tier"] : "quick", seed, o.count("secs") ? atof(o["secs"].c_str()) : 40, o.count("evidence") ? o["evidence"] : "/dev/null", o.count("out") ? o["out"] : "/tmp", o["known"], o.count("workers") ? atoi(o["workers"].c_str()) : 8, o.count("runs") ? atoll(o["runs"].c_str()) : 0);
  }
  return 2;
}
