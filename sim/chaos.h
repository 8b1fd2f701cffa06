// Generic concurrent workload: clients on several servers, with link faults, crashes, stalls; and the oracles shared by the properties.
#pragma once
#include "world.h"

struct SentMsg { int slot; string target; bool chan; string text; Time at; int epoch; bool notice; set<int> got; };

struct Chaos {
  const Plan& p; World& w;
  map<int, Client*> cl;                  // slot -> current client
  map<Client*, set<string>> nicks;       // every nick ever held (lower case)
  map<Client*, int> slotOf;
  map<int, SentMsg> sent;                // id -> message
  map<Client*, map<Client*, int>> lastFrom;
  map<Client*, map<int, int>> gotCount;
  int epoch = 0; bool linkFault = false;
  bool trackMsgs = true;                 // exactly-once / FIFO / entitlement online checks
  bool views = true, homes = false;      // homes: settings of a channel are changed only from one server at a time
  bool homeOk(Client* c, const string& ch);
  set<string> chansUsed;
  // stable membership for the completeness rule: slot -> chans the client was on at the epoch's start and never left
  map<Client*, map<string, bool>> stable;  // channel (lower) -> still on
  map<Client*, bool> okStart;
  map<Client*, string> nickStart;
  set<string> restricted; set<Client*> deaf;                // channels whose modes may refuse messages in this epoch
  Chaos(const Plan& p, World& w) : p(p), w(w) {}
  void topology();                       // knobs: n, shape
  Client* get(int slot) { auto i = cl.find(slot); return i != cl.end() && i->second->ok() ? i->second : nullptr; }
  void exec(const string& op);
  void run();                            // all ops
  void hook(Client* c);
  void beginEpoch(); void endEpoch();
  bool heal(Time max = 900 * SEC);       // stop faults, wait for links, settle
  void down(int i); 
  set<int> crashed;
};
void fillNetSplitFeatures(World& w);
// canonical text of a server's state, one line per fact
vector<string> canon(const NetView& v, bool withTopic = true);
string firstDiff(const vector<string>& a, const vector<string>& b);
void checkConverged(World& w, const map<int, NetView>& d, const char* cls);
void checkTruth(World& w, const map<int, NetView>& d, const char* cls);     // live clients == users on the network
void checkFold(World& w, const char* cls);                                  // client's folded view == NAMES/MODE/TOPIC answers
struct GenCtx { int n, nclients, nchans; vector<string> chans, nicks; int nextSlot = 0, nextId = 1; map<int, int> slotNode; };
GenCtx genBase(Plan& p, Rng& r, int maxServers, int clients, int chans);
void genAnchors(Plan& p, Rng& r, GenCtx& g);
void genLinkFault(Plan& p, Rng& r, GenCtx& g);
