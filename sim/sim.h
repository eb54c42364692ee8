// Deterministic simulator for ctrlproxy: kernel interface.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <queue>
extern "C" {
#include <glib.h>
}
typedef int64_t usec;
static const usec MS = 1000, SEC = 1000000;

// ---------------------------------------------------------------- randomness
static inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static inline uint64_t hashn(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0) {
  return mix64(mix64(mix64(mix64(a) ^ b) ^ c) ^ d);
}
uint64_t hstr(const std::string &s);
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(mix64(seed ^ 0x5eed)) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ULL; return mix64(s); }
  // uniform in [0,n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- network
struct Conn;
struct Remote {                      // an actor on the far side of a connection
  virtual ~Remote() {}
  virtual void onConnected(Conn *) {}
  virtual void onData(Conn *, const std::string &) {}
  virtual void onClosed(Conn *, bool reset) {}   // proxy closed its side (or refused)
};
struct NetCfg {                      // per-connection behaviour, fixed when it is made
  usec latMin = 1 * MS, latMax = 5 * MS;   // one-way delay of each segment
  int fragMin = 0, fragMax = 0;            // segment sizes towards the proxy (0: whole writes)
  size_t sndcap = 1 << 20;                 // bytes the socket takes before EAGAIN
  usec gap = 0;                            // at least this long between segments (a line that drips in)
  int maxRead = 0, maxWrite = 0;           // per-call caps inside the proxy (0: none)
};
struct Conn {
  uint64_t uid = 0;
  std::string label;
  int fd = -1;                 // proxy-side descriptor, -1 once closed
  bool fdOpen = false, nonblock = false;
  enum St { CONNECTING, ESTAB, FAILED } st = CONNECTING;
  int soerr = 0;               // pending SO_ERROR
  bool unixsock = false;
  std::string rcvbuf; bool rcvFin = false, rcvRst = false, rstReported = false;
  std::string lastOut; bool keepOut = false;      // what the proxy wrote lately
  std::string sndbuf; bool peerGone = false;     // remote vanished: writes go nowhere / EPIPE
  Remote *remote = nullptr;
  bool remoteClosed = false, abortAccept = false;
  NetCfg cfg;
  bool stallOut = false;       // remote does not read
  usec lastArrive = 0;         // FIFO towards the proxy
  int inflight = 0;            // segments on their way to the proxy
  bool drainPending = false;
  uint64_t segNo = 0, drainNo = 0;
  std::string peerHost, localHost; int peerPort = 0, localPort = 0;
  usec born = 0;
  uint64_t rxBytes = 0, txBytes = 0, sentBytes = 0;
  bool notified = false;       // remote told about proxy-side close
  // remote-side API
  void send(const std::string &data);
  void closeRemote(bool reset = false);          // FIN after in-flight data, or RST now
  void setStall(bool on);
};
struct ConnectPlan {
  enum Kind { ACCEPT, REFUSE, HANG, SYNCFAIL, RESET_AFTER } kind = ACCEPT;
  usec delay = 2 * MS;
};

// ---------------------------------------------------------------- stats, trace, violations
struct Stats { std::map<std::string, uint64_t> c; void add(const std::string &k, uint64_t n = 1) { c[k] += n; } };
extern Stats stats;
extern bool g_verbose;
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void traceHashOnly(const std::string &s);
extern uint64_t g_traceHash, g_shapeHash;
void shape(const std::string &s);     // abstract event for interleaving identity
void stateSeen(uint64_t h);
struct Violation { std::string cls, detail; usec at; };
extern std::vector<Violation> g_viol;
void violation(const std::string &cls, const std::string &detail);
std::string esc(const std::string &s, size_t max = 400);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- kernel
struct Lifetime { bool running = false; int exitCode = 0; bool exited = false, crashed = false; int no = 0; };
struct Kernel {
  uint64_t seed = 0;
  usec now = 0;                 // monotonic virtual time
  int64_t wallOff = 0;          // wall clock - monotonic, in usec
  uint64_t seq = 0, loopNo = 0, evCount = 0;
  struct Ev { usec at; uint64_t seq; std::function<void()> fn; };
  struct Cmp { bool operator()(const Ev &a, const Ev &b) const { return a.at != b.at ? a.at > b.at : a.seq > b.seq; } };
  std::priority_queue<Ev, std::vector<Ev>, Cmp> q;
  void after(usec d, std::function<void()> fn);
  void at(usec t, std::function<void()> fn);
  int pieces = 0, inflightTotal = 0;        // segments/drains pending on the network
  double lazyPoll = 0.3;        // probability that the proxy is slow to poll
  // fault plans
  std::function<ConnectPlan(const std::string &host, int port, Conn *)> onConnect;
  std::function<Remote *(const std::string &host, int port, Conn *)> serverFor;
  std::function<int(const std::string &host)> dnsFail;          // 0 ok, else EAI_*
  int acceptFailures = 0;       // next n accept() calls fail
  int socketFailures = 0;
  // disk
  uint64_t diskOps = 0; int dumpInterval = 1000;
  std::function<int(const char *op, const std::string &path, size_t len, size_t &allow)> diskFault; // errno or 0; allow = bytes to let through
  uint64_t crashAtDiskOp = 0;   // 0: never
  bool crashTorn = false;
  bool powerLoss = false;       // such a crash also loses what was not synced
  std::vector<std::string> diskTrace;
  bool traceDisk = false;
  // process
  Lifetime life;
  std::function<void()> onExit;  // the proxy has called exit()
  std::function<void()> idle;   // called when quiescent and about to jump time
};
extern Kernel K;

// called by driver
bool boot(const std::vector<std::string> &args);   // run the proxy until it exits/crashes; drives the world meanwhile
void killProxy();                   // from inside the loop: crash now (no handlers)
void raiseSignal(int sig);          // deliver to the proxy at the next loop boundary
bool proxyUp();
bool netQuiet();                    // nothing in flight anywhere, nothing readable unprocessed
bool sourcesReady();
Conn *dialProxy(int port, const std::string &unixPath, Remote *r, const NetCfg &cfg, const std::string &label, const std::string &fromHost);
bool listening(int port, const std::string &unixPath);
std::vector<int> listeningPorts();
int openSockets();
int openConnFds();
int liveSources();
std::vector<Conn *> &allConns();
// world stepping when the proxy is not running
bool worldStep();                   // process one event; false if none
extern std::function<bool()> worldDone;    // stop everything
void endRun();                      // jump out to the top
std::string hostIp(const std::string &host);
extern std::string g_lastAssert;
