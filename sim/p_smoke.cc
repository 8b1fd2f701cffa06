#include "world.h"
static void gen(Plan& p, Rng& r) { genNetKnobs(p, r, 2); p.op("x"); p.op("y"); }
static void run(const Plan& p) {
  W->addServer(); W->addServer("", {0}); W->addServer("", {0});
  W->start();
  auto a = W->client(0, "alice"), b = W->client(1, "bob"), c = W->client(2, "carol", 7002);
  W->waitReg(); W->settle();
  a->send("JOIN #x"); W->settle();
  b->send("JOIN #x"); c->send("JOIN #x"); W->settle();
  a->send("MODE #x +o bob"); a->send("PRIVMSG #x :hello"); W->settle();
  auto d = W->dumpAll("smoke");
  for (auto& x : d) tracef("dump %d: %zu servers %zu users %zu chans", x.first, x.second.servers.size(), x.second.users.size(), x.second.chans.size());
}
static RegProp reg_({"SMOKE", "smoke", "", "", gen, run, 1, "", {}});
