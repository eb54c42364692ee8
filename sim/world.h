// The world around the proxy: model IRC networks, model clients, the script, and the oracles.
#pragma once
#include "irc.h"
#include <list>
struct Op { int uid = 0; std::string k; int a = 0, b = 0, c = 0, d = 0; usec gap = 0; };
std::string opText(const Op &o);
struct SrvDef { std::string host; int port = 6667; std::string pass; };
struct ChanDef { std::string name, key; bool autojoin = true; };
struct NetDef {
  std::string name, nick = "mynick", fullname = "My Name", username = "myuser";
  std::vector<SrvDef> servers;
  int reconnect = -1;
  std::vector<std::string> autocmd;
  std::vector<ChanDef> chans;
  bool ignoreFirst = false, autoconnect = true, inMain = false, bare = false, absent = false;   // bare: who the user is comes from the global defaults
  std::string prefixes = "(ov)@+", chantypes = "#&", casemap = "rfc1459"; bool isupport2 = false;
  int style = 0;                        // how channels are written: 0 groups and keys file, 1 list and keys file, 2 groups with keys
};
struct Scn {
  std::string profile;
  uint64_t seed = 0;
  std::vector<NetDef> nets;
  std::vector<std::pair<std::string, std::string>> global;     // [global] settings
  std::vector<std::pair<std::string, std::string>> files;      // extra files in cfg/
  std::vector<std::pair<std::string, std::string>> groups;     // extra groups in the main file
  std::string password = "sesame";
  bool listenPass = true;
  std::string replication;              // "", none, simple, lastdisconnect, highlight
  std::vector<std::string> match;
  std::string reportTime = "never";
  std::string adminUser;
  NetCfg cli, srv;                      // base network behaviour
  double lazy = 0.3;
  double welcomeSpread = 0;             // seconds the welcome burst is spread over
  bool learnNickserv = false, autosave = false, admin = false, logging = false, autoAway = false, strictPing = false;
  bool hostileDisk = false; int dumpInterval = 1000;   // lines between state dumps in the backlog store
  bool checkSave = false, shutdown = false; std::string logFile; std::map<std::string, std::string> logFmt;
  bool auth = false; std::vector<std::string> lpass; std::vector<std::pair<std::string, std::string>> socks;   // passwords of the networks' own listeners, users of the SOCKS listener
  int hostile = 0;                      // how many networks with hostile peers
  int crowd = 0;                        // how many more people are on one channel
  std::vector<Op> ops;
  std::string get(const std::string &k) const { for (auto &p : global) if (p.first == k) return p.second; return ""; }
};
Scn generate(const std::string &profile, uint64_t seed);
std::vector<std::string> profiles();

// ---------------------------------------------------------------- model network
enum { D_ALL = -1, D_NONE = -2 };
struct Ev { uint64_t off = 0; Line l; int dest = D_ALL; bool mine = false, num = false, opt = false; int sess = 0; usec t = 0; unsigned wild = 0; std::set<int> alt; bool any = false; bool forMe(int id) const { return dest == D_ALL || dest == id || any || alt.count(id); } };
struct User { std::string nick, user, host, real; bool away = false; };
struct Chan {
  std::string name; std::map<std::string, char> mem; std::string topic, topicBy; long topicAt = 0, created = 1240000000;
  std::string flags = "nt", key; int limit = 0; std::vector<std::string> bans;
  bool operator==(const Chan &o) const { return mem == o.mem && topic == o.topic && flags == o.flags && key == o.key && limit == o.limit && bans == o.bans; }
};
struct Net; struct Session; struct CInst;
struct Srv { SrvDef def; int mode = 0; int failLeft = 0; };   // 0 up, 1 refuse, 2 hang, 3 dns, 4 syncfail, 5 reset after accept, 6 reset during login, 7 accept but silent
struct MustJoin { std::string name, key; bool must = true, keyKnown = true; int seen = 0; bool asked = false; };
struct NextLogin { std::map<std::string, MustJoin> rejoin; std::set<std::string> nicks; bool want = true, wantKnown = true; };
struct Net {
  int id = 0; NetDef def;
  std::map<std::string, User> users; std::map<std::string, Chan> chans;
  std::vector<Srv> srv;
  std::set<std::string> nickHist;      // nicks the user ever had
  std::string meNick; bool meAway = false; std::string meModes;
  Session *sess = nullptr;             // newest live session
  std::vector<Session *> sessions;
  std::vector<Ev> evs; size_t quietIdx = 0;
  std::vector<std::pair<size_t, size_t>> lossy;      // suffixes that may be missing (session lost)
  std::map<std::string, std::vector<std::pair<size_t, Chan>>> hist;
  std::map<std::string, MustJoin> rejoin;            // what the next login must join
  std::set<std::string> nickOk;                      // nicks the next login may use
  std::map<std::string, usec> ghosts;                // nicks taken for a while
  std::set<std::string> knownKey;                    // channels whose key the proxy has seen
  bool want = true; bool wantKnown = true, cfgWant = true, cfgWantKnown = true; usec downSince = 0, lostAt = -1000 * SEC;
  int attachNickBudget = 0; std::map<std::string, int> attachNicks;
  std::vector<std::string> purged;                   // commands that must not show up any more
  std::vector<std::string> wireLog;
  std::map<std::string, std::set<int>> askers;       // what a command was about -> clients that sent one this session
  int burstBusy = 0;
  bool absent = false, noListener = false, leaving = false; std::set<int> configured;   // administration: not there (yet), its listener has lost it, being deleted, servers it has
  std::map<std::string, usec> amb;                   // channels asked about while being joined: who gets the answers cannot be told
  void ambiguous(const std::string &chan);
  Chan *chan(const std::string &n) { auto it = chans.find(lc(n)); return it == chans.end() ? nullptr : &it->second; }
  User *user(const std::string &n) { auto it = users.find(lc(n)); return it == users.end() ? nullptr : &it->second; }
  bool meOn(const Chan &c) const { return !meNick.empty() && c.mem.count(lc(meNick)); }
  std::string mask(const std::string &nick);
  void touch(const std::string &chan);
  void record(Session *s, const std::string &raw, int dest, bool opt, unsigned wild);
  void emit(const std::string &raw, bool opt = false);               // a relayable line from the network
  void meGone();
  bool ready();
  NextLogin mem, memOld, saved;                              // what the configuration says, in memory and on disk
  NextLogin nextLogin(bool exact, Session *s = nullptr);                   // what it would say if it was brought up to date now
};
struct Session : Remote {
  Net *n; int id, srvIdx; Conn *c; std::string buf;
  enum St { LOGIN, BURST, READY, CLOSED } st = LOGIN;
  std::string pass, nick, user; bool gotPass = false, gotNick = false, gotUser = false, refusedNick = false, expect433 = false;
  std::vector<std::string> login;
  bool proxyReady = false, silent = false, weClosed = false, lossyEnd = false, gotQuit = false, expectClose = false;
  usec born = 0, readyAt = 0, proxyReadyAt = 0, lastSent = 0, lastHeard = 0, silentAt = 0;
  size_t evFrom = 0;
  std::deque<std::pair<std::string, usec>> pongs;       // tokens the proxy owes us
  std::map<std::string, int> retry;                     // nicks the proxy may try because we refused others
  std::vector<std::string> autoLeft; bool userhostSeen = false; usec vague302 = 0;
  std::map<std::string, MustJoin> joins;
  int pingsSeen = 0;
  void onConnected(Conn *) override;
  void onData(Conn *, const std::string &) override;
  void onClosed(Conn *, bool reset) override;
  void line(const std::string &raw);
  void fallSilent();
  void put(const std::string &raw, int dest, bool opt = false, unsigned wild = 0);
  void num(int code, const std::string &rest, int dest, unsigned wild = 0);
  void handle(const Line &l, CInst *asker);
  void welcome();
  void close(bool reset);
  void ended(bool lossy);
  std::string host() const { return n->srv[srvIdx].def.host; }
  bool proxyOrigin(const Line &l);
  void doJoin(const std::string &chan, const std::string &key, CInst *asker);
};

// ---------------------------------------------------------------- model client
struct AuthPlan { bool on = false, pipeline = false; int socks = 0, port = 0, wrongs = 0; std::string user, pass, host, methods, pre, passLine, login; };
struct Pend { int uid; std::string raw; usec t; int sess; bool mand; uint64_t order = 0; bool gone = false, told = false, limbo = false; };
struct CacheQ { std::string cmd, target, raw; int uid; usec t; bool sent = false; std::vector<Line> got; std::set<size_t> pos; };
struct MirrorExp { std::string cmd, target, text; int from; usec t; bool mand; bool seen; uint64_t order; int sess; };
struct CInst : Remote {
  int id = 0, slot = 0; Net *n = nullptr; Conn *c = nullptr; std::string label;
  std::set<std::string> selfUh;         // user@host of the user as this client was shown
  std::string buf, nick0, token; bool welcomed = false, burst = false, dead = false, lossy = false, quitSent = false, stalled = false, proxyGone = false;
  bool mayClose = false; bool mustFail = false;                // must never get in (wrong password)
  usec born = 0, burstAt = 0, diedAt = 0;
  size_t lo = 0; bool open = true; std::set<size_t> pos;
  View view;
  std::deque<Pend> pend;
  std::deque<CacheQ> cacheQ; CacheQ lastTopic; uint64_t rxSeq = 0, lastTopicSeq = 0;
  std::list<MirrorExp> mirrors; std::map<int, uint64_t> mirrorAt;
  std::map<std::string, int> pongs;                  // tokens owed to us
  std::deque<std::string> recent;
  std::vector<std::string> adminOut; std::string adminTok;
  AuthPlan auth; int socks = 0; bool socksData();
  size_t rx = 0;
  int sessAtDial = 0; size_t evAtDial = 0;
  int splitSess = 0; bool splitQuit = false; std::set<std::string> splitHosts; std::set<std::string> heard;   // a session was lost or came up and the client may be resynchronised
  void onConnected(Conn *) override {}
  void onData(Conn *, const std::string &) override;
  void onClosed(Conn *, bool reset) override;
  void line(const std::string &raw);
  void note(const Line &l, const std::string &raw);
  void send(const std::string &raw);
  void command(int uid, const std::string &raw, bool forServer = true);
  bool alive() const { return !dead && c; }
  bool attached() const { return alive() && burst && !quitSent && !mustFail; }
  std::set<size_t> closure(std::set<size_t> s) const;
  bool matchEvent(const Line &l, bool flex);
  void diagnose(const Line &l);
  bool otherLine(const Line &l);
  bool cacheLine(const Line &l);
  void cacheDone(CacheQ &q);
  bool settled(std::string *why);
};

struct World {
  Scn s;
  std::vector<Net *> nets;
  std::vector<CInst *> slot = std::vector<CInst *>(10, nullptr);
  std::vector<CInst *> clients;                      // every client there ever was
  size_t opi = 0; bool waiting = false, recovering = false, finished = false;
  usec waitSince = 0, deadline = 0, quietAt = 0;
  usec bootAt = -1; bool stopWanted = false, exitWanted = false; int lives = 0;
  int quiets = 0, opsDone = 0; int nextSess = 1, nextClient = 1; uint64_t order = 0;
  bool shuttingDown = false;
  int serverMsgs = 0, clientMsgs = 0, relayed = 0, replies = 0, mirrored = 0, cached = 0, logins = 0, attaches = 0, losses = 0;
  std::vector<std::function<void()>> quietChecks;    // per-profile oracles at quiescence
  std::function<void(Net *, const Line &, bool fromClient, CInst *)> onTraffic;
};
extern World W;
void worldInit(const Scn &s);
void worldRun();                         // boots the proxy, runs the script
void nextOp();
void writeConfig();
std::string slurp(const std::string &path);
bool spit(const std::string &path, const std::string &data);
bool lineMatches(const Ev &e, const Line &l);
bool settledAll(std::string *why);
CInst *attachClient(const Op &o, Net *n, const std::string &pass, int port, const std::string &nick, bool mustFail, const AuthPlan *plan = nullptr);
void netcfgFor(const Op &o, NetCfg &cfg);
typedef std::vector<std::string> Strs;
void hostileInit(); bool hostileDial(const std::string &host, Conn *c, ConnectPlan &p); Remote *hostileServer(const std::string &host, Conn *c);
bool hostileOp(const Op &o); void hostileHeal(); bool hostileServed(std::string *why); void hostileDown();
bool authOp(const Op &); void authWire(Session *, const std::string &); std::string authPass(int port); std::string socksAll(const AuthPlan &);   // auth.cpp
// backlog replay (replay.cpp)
void storeFault(const Op &); void storeHeal(); bool replayOn(); void replayTick(); void replaySaid(CInst *, const Line &); void replayWire(Session *, const Line &); void replayDetached(CInst *); bool replayLine(CInst *, const Line &); void replayDone(CInst *); void replayDialed(CInst *); void replayQuiet();
// extensions (features.cpp)
bool featureOp(const Op &o);
bool featureWire(Session *s, const Line &l);       // a line from the proxy no client sent: true if it is called for
bool featureClientLine(CInst *c, const Line &l);   // a line to a client that is not relayed traffic
void featureAnyWire(Session *s, const Line &l);    // every line of a logged in session
void featureClientSend(CInst *c, const std::string &raw);
void featureInit();
void featureQuiet();
void featureSessionReady(Session *s);
void featureNick(Net *n, const std::string &from, const std::string &to);   // the user has another nick
void featureSaved(bool exact, bool update);        // the configuration is saved just now
void featureRestart();
void saveInit(); int saveAt(); void saveQuiet(); void saveReboot(); void saveFault(const Op &o);   // save.cpp
// administration (admin.cpp)
void logsPut(Session *, const std::string &); void logsWire(Session *, const Line &); void logsClient(const std::string &); void logsEnded(Session *); void logsQuiet(); void logsDown(); bool logsOp(const Op &);
NextLogin eitherLogin(const NextLogin &, const NextLogin &); void shutdownInit(); void shutdownDone(bool exited); bool shutdownOp(const Op &); bool shutdownBusy();
bool adminOn(); void adminInit(); bool adminHas(Net *); void adminSession(Session *); bool adminOp(const Op &); void adminDial(Net *, const std::string &host); void adminLine(CInst *, const Line &); void adminClosed(CInst *); void adminWire(Session *, const std::string &raw); bool adminSettled(std::string *why); void adminQuietOver(); void adminSaved(); void adminRestart();
std::string tokenOf(int uid);
