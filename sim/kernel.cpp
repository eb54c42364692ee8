// Simulator kernel: virtual time, simulated sockets, simulated main loop, disk layer,
// process lifetimes.  Everything the proxy asks the operating system goes through the
// sim_* functions below (the proxy's object file has its symbols redirected to them).
#include "sim.h"
#include <arpa/inet.h>
#include <assert.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

Kernel K;
Stats stats;
bool g_verbose = false;
uint64_t g_traceHash = 1469598103934665603ULL, g_shapeHash = 1469598103934665603ULL;
std::vector<Violation> g_viol;
std::function<bool()> worldDone;
std::string g_lastAssert;
extern void crashReport(const std::string &what);   // driver: reports and ends the process

uint64_t hstr(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}
static void fnv(uint64_t &h, const char *p, size_t n) { for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ULL; } }
std::string esc(const std::string &s, size_t max) {
  std::string o;
  for (unsigned char c : s) {
    if (o.size() > max) { o += "..."; break; }
    if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\\') o += "\\\\";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
std::string strf(const char *fmt, ...) {
  char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
void tracef(const char *fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  char t[40]; int tn = snprintf(t, sizeof t, "%lld ", (long long)K.now);
  fnv(g_traceHash, t, tn); fnv(g_traceHash, b, n);
  if (g_verbose) { printf("%12.6f %s\n", K.now / 1e6, b); fflush(stdout); }
}
void traceHashOnly(const std::string &s) { fnv(g_traceHash, s.data(), s.size()); }
void shape(const std::string &s) { fnv(g_shapeHash, s.data(), s.size() + 1); }
static std::set<uint64_t> g_states;
void stateSeen(uint64_t h) { g_states.insert(h); }
const std::set<uint64_t> &statesSeen() { return g_states; }
void violation(const std::string &cls, const std::string &detail) {
  for (auto &v : g_viol) if (v.cls == cls) return;        // first of each class
  tracef("VIOLATION %s: %s", cls.c_str(), detail.c_str());
  g_viol.push_back({cls, detail, K.now});
}

void Kernel::at(usec t, std::function<void()> fn) { if (t < now) t = now; q.push(Ev{t, ++seq, std::move(fn)}); }
void Kernel::after(usec d, std::function<void()> fn) { at(now + d, std::move(fn)); }

// ---------------------------------------------------------------- descriptors
struct Listener { int fd; int port = 0; std::string host, path; std::deque<Conn *> backlog; bool open = true; };
struct FdEnt { enum Kind { NEW, CONN, LISTEN, PIPE } kind = NEW; bool nonblock = false; int family = AF_INET; Conn *c = nullptr; Listener *l = nullptr;
  std::string bindHost, bindPath; int bindPort = 0; bool bound = false; };
static const int FDBASE = 10000;
static std::map<int, FdEnt> fds;
static std::vector<std::unique_ptr<Conn>> conns;
static std::vector<Conn *> connPtrs;
static std::vector<Listener *> listeners;
static int newFd() { int f = FDBASE; while (fds.count(f)) f++; fds[f] = FdEnt(); return f; }
std::vector<Conn *> &allConns() { return connPtrs; }
int openSockets() { return (int)fds.size(); }
int openConnFds() { int n = 0; for (auto &p : fds) if (p.second.kind == FdEnt::CONN) n++; return n; }
bool listening(int port, const std::string &path) {
  for (auto l : listeners) if (l->open && (path.empty() ? l->port == port && l->path.empty() : l->path == path)) return true;
  return false;
}
std::vector<int> listeningPorts() { std::vector<int> v; for (auto l : listeners) if (l->open && l->path.empty()) v.push_back(l->port); return v; }

static std::map<std::string, std::string> host2ip, ip2host;
std::string hostIp(const std::string &host) {
  struct in_addr a;
  if (inet_pton(AF_INET, host.c_str(), &a) == 1) return host;
  if (host == "localhost") return "127.0.0.1";
  auto it = host2ip.find(host);
  if (it != host2ip.end()) return it->second;
  uint64_t h = hstr(host);
  std::string ip = strf("10.%d.%d.%d", (int)(h & 255), (int)((h >> 8) & 255), (int)(1 + ((h >> 16) & 127)));
  host2ip[host] = ip; ip2host[ip] = host;
  return ip;
}
static Conn *newConn(const std::string &label) {
  conns.emplace_back(new Conn());
  Conn *c = conns.back().get(); connPtrs.push_back(c);
  static std::map<std::string, int> nth;
  int k = ++nth[label];
  c->label = strf("%s#%d", label.c_str(), k);
  c->uid = hstr(c->label);
  c->born = K.now;
  return c;
}

static usec lat(Conn *c, uint64_t stream, uint64_t n) {
  usec span = c->cfg.latMax - c->cfg.latMin;
  return c->cfg.latMin + (span > 0 ? (usec)(hashn(K.seed, c->uid, stream, n) % (uint64_t)(span + 1)) : 0);
}
static void scheduleDrain(Conn *c) {
  if (c->drainPending || c->stallOut) return;
  if (c->sndbuf.empty() && (c->fdOpen || c->notified)) return;
  c->drainPending = true; K.inflightTotal++;
  K.after(lat(c, 2, c->drainNo++), [c]() {
    c->drainPending = false; K.inflightTotal--;
    if (c->stallOut) return;
    if (c->peerGone) { c->sndbuf.clear(); }
    if (!c->sndbuf.empty()) {
      size_t n = c->sndbuf.size();
      if (c->remoteClosed) { // data for a closed peer: answer with a reset
        c->sndbuf.clear(); c->peerGone = true;
        if (c->fdOpen) { c->inflight++; K.inflightTotal++; K.at(std::max(K.now + lat(c, 3, 0), c->lastArrive + 1), [c]() { c->inflight--; K.inflightTotal--; c->rcvRst = true; c->rcvFin = true; }); }
      } else {
        if (n > 1 && (hashn(K.seed, c->uid, 5, c->drainNo) % 4) == 0) n = 1 + hashn(K.seed, c->uid, 6, c->drainNo) % n;
        std::string d = c->sndbuf.substr(0, n); c->sndbuf.erase(0, n);
        c->txBytes += n;
        tracef("net %s proxy-> %s", c->label.c_str(), esc(d, 600).c_str());
        if (c->remote) c->remote->onData(c, d);
      }
    }
    if (c->sndbuf.empty() && !c->fdOpen && !c->notified) {
      c->notified = true;
      tracef("net %s closed by proxy", c->label.c_str());
      if (c->remote && !c->remoteClosed) c->remote->onClosed(c, false);
    }
    scheduleDrain(c);
  });
}
void Conn::setStall(bool on) {
  if (stallOut == on) return;
  stallOut = on;
  if (!on) scheduleDrain(this);
}
void Conn::send(const std::string &data) { sentBytes += data.size();
  if (remoteClosed || notified) return;
  if (data.empty()) return;
  size_t off = 0;
  while (off < data.size()) {
    size_t n = data.size() - off;
    if (cfg.fragMax > 0) {
      size_t f = cfg.fragMin + hashn(K.seed, uid, 7, segNo) % (uint64_t)(cfg.fragMax - cfg.fragMin + 1);
      if (f < 1) f = 1;
      if (K.pieces > 20000) f = std::max<size_t>(f, 512);   // no run of millions of pieces
      if (f < n) { K.pieces++; n = f; stats.add("fault.fragmented"); }
    }
    std::string seg = data.substr(off, n); off += n;
    usec t = K.now + lat(this, 1, segNo++);
    if (cfg.gap && inflight < 40 && t < lastArrive + cfg.gap) t = lastArrive + cfg.gap;
    if (t <= lastArrive) t = lastArrive + 1;
    lastArrive = t;
    inflight++; K.inflightTotal++;
    Conn *c = this;
    K.at(t, [c, seg]() {
      c->inflight--; K.inflightTotal--;
      if (!c->fdOpen || c->rcvRst) return;
      c->rcvbuf += seg; c->rxBytes += seg.size();
      if (g_verbose) tracef("net %s ->proxy %s", c->label.c_str(), esc(seg, 600).c_str());
      else { traceHashOnly(c->label); traceHashOnly(seg); }
    });
  }
}
void Conn::closeRemote(bool reset) {
  if (remoteClosed) return;
  remoteClosed = true;
  Conn *c = this;
  usec t = K.now + lat(this, 1, segNo++);
  if (!reset && t <= lastArrive) t = lastArrive + 1;
  inflight++; K.inflightTotal++;
  K.at(t, [c, reset]() {
    c->inflight--; K.inflightTotal--;
    tracef("net %s remote %s", c->label.c_str(), reset ? "RST" : "FIN");
    if (reset) { c->rcvRst = true; c->rcvFin = true; c->peerGone = true; c->sndbuf.clear(); }
    else c->rcvFin = true;
  });
}
bool netQuiet() { return K.inflightTotal == 0; }

static int pollMask(int fd) {
  auto it = fds.find(fd);
  if (it == fds.end()) return G_IO_NVAL;
  FdEnt &e = it->second;
  if (e.kind == FdEnt::LISTEN) return e.l->backlog.empty() ? 0 : G_IO_IN;
  if (e.kind == FdEnt::NEW) return G_IO_OUT | G_IO_HUP;
  Conn *c = e.c;
  if (c->st == Conn::CONNECTING) return 0;
  if (c->st == Conn::FAILED) return (c->soerr ? G_IO_ERR : 0) | G_IO_OUT | G_IO_HUP | G_IO_IN;
  int m = 0;
  if (!c->rcvbuf.empty() || c->rcvFin || c->rcvRst) m |= G_IO_IN;
  if (c->rcvRst) { m |= G_IO_HUP | G_IO_OUT; if (!c->rstReported) m |= G_IO_ERR; }
  else if (c->sndbuf.size() < c->cfg.sndcap) m |= G_IO_OUT;
  if (c->rcvFin && c->unixsock) m |= G_IO_HUP;
  return m;
}

static void pumpUntilReadable(Conn *c);
static ssize_t connRead(Conn *c, void *buf, size_t n) {
  static uint64_t rdNo = 0;
  if (c->st == Conn::CONNECTING) { errno = ENOTCONN; return -1; }
  if (c->st == Conn::FAILED) { errno = c->soerr ? c->soerr : ENOTCONN; c->soerr = 0; return -1; }
  if (c->rcvbuf.empty() && !c->rcvFin && !c->rcvRst && !c->nonblock) pumpUntilReadable(c);
  if (!c->rcvbuf.empty()) {
    size_t k = std::min(n, c->rcvbuf.size());
    if (c->cfg.maxRead > 0) {
      size_t m = 1 + hashn(K.seed, c->uid, 8, rdNo++) % c->cfg.maxRead;
      if (m < k) { k = m; stats.add("fault.short_read"); }
    }
    memcpy(buf, c->rcvbuf.data(), k);
    c->rcvbuf.erase(0, k);
    return k;
  }
  if (c->rcvRst && !c->rstReported) { c->rstReported = true; stats.add("fault.reset_seen"); errno = ECONNRESET; return -1; }
  if (c->rcvFin || c->rcvRst) return 0;
  errno = EAGAIN; return -1;
}
static ssize_t connWrite(Conn *c, const void *buf, size_t n) {
  static uint64_t wrNo = 0;
  if (c->st == Conn::CONNECTING) { errno = EAGAIN; return -1; }
  if (c->st == Conn::FAILED) { errno = EPIPE; return -1; }
  if (c->rcvRst || (c->unixsock && c->rcvFin)) { errno = (c->rcvRst && !c->rstReported) ? (c->rstReported = true, ECONNRESET) : EPIPE; stats.add("fault.write_error"); return -1; }
  if (n == 0) return 0;
  if (c->sndbuf.size() >= c->cfg.sndcap) {
    if (!c->nonblock) { // blocking write to a full socket: wait for room
      uint64_t guard = 0;
      while (c->sndbuf.size() >= c->cfg.sndcap && !c->rcvRst) { if (!worldStep() || ++guard > 200000) { tracef("blocking write on %s", c->label.c_str()); crashReport("HANG:blocking-write"); } }
      if (c->rcvRst) { errno = EPIPE; return -1; }
    } else { stats.add("fault.write_eagain"); errno = EAGAIN; return -1; }
  }
  size_t k = std::min(n, c->cfg.sndcap - c->sndbuf.size());
  if (c->cfg.maxWrite > 0) { size_t m = 1 + hashn(K.seed, c->uid, 9, wrNo++) % c->cfg.maxWrite; if (m < k) k = m; }
  if (k < n) stats.add("fault.short_write");
  c->sndbuf.append((const char *)buf, k); if (c->keepOut) c->lastOut.append((const char *)buf, k);
  scheduleDrain(c);
  return k;
}
static int closeFd(int fd) {
  auto it = fds.find(fd);
  if (it == fds.end()) { errno = EBADF; return -1; }
  FdEnt e = it->second; fds.erase(it);
  if (e.kind == FdEnt::LISTEN) {
    e.l->open = false;
    for (Conn *c : e.l->backlog) { c->rcvRst = true; if (c->remote) { Conn *cc = c; K.after(1 * MS, [cc]() { if (!cc->notified) { cc->notified = true; cc->remote->onClosed(cc, true); } }); } }
    e.l->backlog.clear();
  } else if (e.kind == FdEnt::CONN) {
    Conn *c = e.c; c->fdOpen = false; c->fd = -1;
    if (c->st == Conn::ESTAB) scheduleDrain(c);
  }
  return 0;
}
static void pumpUntilReadable(Conn *c) {
  uint64_t guard = 0;
  stats.add("probe.blocking_read");
  usec limit = K.now + 3600 * SEC;
  while (c->rcvbuf.empty() && !c->rcvFin && !c->rcvRst) {
    if (K.now > limit || !worldStep() || ++guard > 200000) crashReport("HANG:blocking-read-forever");
  }
}

Conn *dialProxy(int port, const std::string &path, Remote *r, const NetCfg &cfg, const std::string &label, const std::string &fromHost) {
  Listener *L = nullptr;
  for (auto l : listeners) if (l->open && (path.empty() ? (l->port == port && l->path.empty()) : l->path == path)) L = l;
  if (!L) return nullptr;
  Conn *c = newConn(label);
  c->cfg = cfg; c->remote = r; c->unixsock = !path.empty();
  c->peerHost = hostIp(fromHost); c->peerPort = 40000 + (int)(c->uid % 20000);
  c->localHost = "127.0.0.1"; c->localPort = port;
  c->st = Conn::ESTAB;
  c->nonblock = false;
  Listener *LL = L;
  c->inflight++; K.inflightTotal++;
  usec t = K.now + lat(c, 1, c->segNo++); c->lastArrive = t;
  c->fdOpen = true;      // data may queue before accept
  K.at(t, [c, LL]() { c->inflight--; K.inflightTotal--;
    if (!LL->open) { c->fdOpen = false; c->notified = true; if (c->remote) c->remote->onClosed(c, true); return; }
    LL->backlog.push_back(c); });
  return c;
}

// ---------------------------------------------------------------- GLib channels over simulated sockets
struct SimChannel { GIOChannel ch; int fd; };
struct SimWatch { GSource s; GIOChannel *ch; int cond; int rev; };
struct SimTimer { GSource s; usec due; usec interval; bool idle; };
static GMainContext *ctx = nullptr;
static std::set<GSource *> *liveSrc = new std::set<GSource *>();
static std::vector<GSource *> srcOrder;   // attach order not needed by us

static int watchMask(SimWatch *w) {
  int buf = g_io_channel_get_buffer_condition(w->ch);
  int fd = ((SimChannel *)w->ch)->fd;
  return (pollMask(fd) | buf) & w->cond;
}
// As in GLib's giounix.c: buffered data alone wakes nobody up unless it satisfies the whole condition, but once
// something else did, it counts.
static bool watchPrepared(SimWatch *w) { return (g_io_channel_get_buffer_condition(w->ch) & w->cond) == w->cond; }
static bool watchWakes(SimWatch *w) { return watchPrepared(w) || (pollMask(((SimChannel *)w->ch)->fd) & (w->cond | G_IO_ERR | G_IO_HUP | G_IO_NVAL)) != 0; }
static gboolean w_prepare(GSource *s, gint *timeout) { SimWatch *w = (SimWatch *)s; if (timeout) *timeout = -1; w->rev = watchMask(w); return watchPrepared(w); }
static gboolean w_check(GSource *s) { SimWatch *w = (SimWatch *)s; w->rev = watchMask(w); return w->rev != 0; }
static gboolean w_dispatch(GSource *s, GSourceFunc cb, gpointer data) {
  SimWatch *w = (SimWatch *)s; GIOFunc f = (GIOFunc)cb;
  if (!f) return FALSE;
  return f(w->ch, (GIOCondition)w->rev, data);
}
static void w_finalize(GSource *s) { SimWatch *w = (SimWatch *)s; liveSrc->erase(s); g_io_channel_unref(w->ch); }
static GSourceFuncs watchFuncs = {w_prepare, w_check, w_dispatch, w_finalize, NULL, NULL};
static gboolean t_prepare(GSource *s, gint *timeout) { if (timeout) *timeout = -1; return ((SimTimer *)s)->due <= K.now; }
static gboolean t_check(GSource *s) { return ((SimTimer *)s)->due <= K.now; }
static gboolean t_dispatch(GSource *s, GSourceFunc cb, gpointer data) {
  SimTimer *t = (SimTimer *)s;
  if (!cb) return FALSE;
  tracef("timer fires (%lld us)", (long long)t->interval);
  gboolean r = cb(data);
  if (r) t->due = K.now + t->interval;
  return r;
}
static void t_finalize(GSource *s) { liveSrc->erase(s); }
static GSourceFuncs timerFuncs = {t_prepare, t_check, t_dispatch, t_finalize, NULL, NULL};

static GIOStatus errStatus(GError **err) {
  if (errno == EAGAIN) return G_IO_STATUS_AGAIN;
  int e = errno;
  g_set_error_literal(err, G_IO_CHANNEL_ERROR, g_io_channel_error_from_errno(e), g_strerror(e));
  return G_IO_STATUS_ERROR;
}
extern "C" ssize_t sim_read(int fd, void *buf, size_t n);
extern "C" ssize_t sim_write(int fd, const void *buf, size_t n);
extern "C" int sim_close(int fd);
static GIOStatus c_read(GIOChannel *ch, gchar *buf, gsize count, gsize *rd, GError **err) {
  ssize_t r = sim_read(((SimChannel *)ch)->fd, buf, count);
  if (r < 0) { *rd = 0; return errStatus(err); }
  *rd = r; return r > 0 ? G_IO_STATUS_NORMAL : G_IO_STATUS_EOF;
}
static GIOStatus c_write(GIOChannel *ch, const gchar *buf, gsize count, gsize *wr, GError **err) {
  ssize_t r = sim_write(((SimChannel *)ch)->fd, buf, count);
  if (r < 0) { *wr = 0; return errStatus(err); }
  *wr = r; return G_IO_STATUS_NORMAL;
}
extern "C" off_t sim_lseek(int fd, off_t off, int whence);
static GIOStatus c_seek(GIOChannel *ch, gint64 off, GSeekType type, GError **err) {
  int wh = type == G_SEEK_SET ? SEEK_SET : type == G_SEEK_CUR ? SEEK_CUR : SEEK_END;
  off_t r = sim_lseek(((SimChannel *)ch)->fd, off, wh);
  if (r < 0) return errStatus(err);
  return G_IO_STATUS_NORMAL;
}
static GIOStatus c_close(GIOChannel *ch, GError **err) { if (sim_close(((SimChannel *)ch)->fd) < 0) return errStatus(err); return G_IO_STATUS_NORMAL; }
static GSource *c_watch(GIOChannel *ch, GIOCondition cond) {
  GSource *s = g_source_new(&watchFuncs, sizeof(SimWatch));
  SimWatch *w = (SimWatch *)s; w->ch = ch; g_io_channel_ref(ch); w->cond = cond; w->rev = 0;
  liveSrc->insert(s);
  return s;
}
static void c_free(GIOChannel *ch) { g_free(ch); }
static void setNonblock(int fd, bool nb) {
  auto it = fds.find(fd);
  if (it == fds.end()) return;
  it->second.nonblock = nb; if (it->second.c) it->second.c->nonblock = nb;
}
static GIOStatus c_setflags(GIOChannel *ch, GIOFlags fl, GError **) { setNonblock(((SimChannel *)ch)->fd, fl & G_IO_FLAG_NONBLOCK); return G_IO_STATUS_NORMAL; }
static GIOFlags c_getflags(GIOChannel *ch) {
  auto it = fds.find(((SimChannel *)ch)->fd);
  int f = 0;
  if (it != fds.end() && it->second.nonblock) f |= G_IO_FLAG_NONBLOCK;
  return (GIOFlags)f;
}
static GIOFuncs simFuncs = {c_read, c_write, c_seek, c_close, c_watch, c_free, c_setflags, c_getflags};
static bool isSim(GIOChannel *c) { return c->funcs == &simFuncs; }

// ---------------------------------------------------------------- process lifetime
static jmp_buf topJmp;
static bool inProxy = false;
enum { J_EXIT = 1, J_KILL = 2, J_END = 3 };
static std::vector<void (*)(void)> atexits;
static std::map<int, void (*)(int)> sigHandlers;
static std::vector<int> pendingSignals;
static bool wantKill = false, wantEnd = false;
static std::map<int, std::string> realFds;     // regular files the proxy has open
static bool inExit = false;

extern "C" {
int sut_main(int, char **);
extern char __start_sutdata[], __stop_sutdata[], __start_sutbss[], __stop_sutbss[];
}
// byte copies that ASan's interceptors do not see (the regions contain redzones)
static void rawCopy(char *d, const char *s, size_t n) { volatile char *vd = d; const volatile char *vs = s; for (size_t i = 0; i < n; i++) vd[i] = vs[i]; }
static void fastCopy(char *d, const char *s, size_t n) {
  size_t w = n / 8; volatile uint64_t *vd = (volatile uint64_t *)d; const volatile uint64_t *vs = (const volatile uint64_t *)s;
  for (size_t i = 0; i < w; i++) vd[i] = vs[i];
  rawCopy(d + w * 8, s + w * 8, n - w * 8);
}
static std::vector<char> snapData, snapBss;
void snapshotProxyImage() {
  snapData.resize(__stop_sutdata - __start_sutdata); fastCopy(snapData.data(), __start_sutdata, snapData.size());
  snapBss.resize(__stop_sutbss - __start_sutbss); fastCopy(snapBss.data(), __start_sutbss, snapBss.size());
}
static void restoreProxyImage() {
  fastCopy(__start_sutdata, snapData.data(), snapData.size());
  fastCopy(__start_sutbss, snapBss.data(), snapBss.size());
}
static void teardownProcess() {
  inProxy = false;
  std::vector<int> all; for (auto &p : fds) all.push_back(p.first);
  for (int f : all) closeFd(f);
  for (auto &p : realFds) ::close(p.first);
  realFds.clear();
  K.life.running = false;
  pendingSignals.clear(); wantKill = false; inExit = false;
  ctx = nullptr;                       // abandoned with everything the process had
  liveSrc = new std::set<GSource *>();
}
bool proxyUp() { return inProxy && K.life.running; }
void killProxy() { wantKill = true; }
void raiseSignal(int s) { pendingSignals.push_back(s); }
void endRun() { wantEnd = true; }
static void doExit(int code) {
  if (!inExit) {
    inExit = true; if (K.onExit) { for (auto c : allConns()) { c->lastOut.clear(); c->keepOut = true; } K.onExit(); }
    while (!atexits.empty()) { auto f = atexits.back(); atexits.pop_back(); f(); }
  }
  K.life.exitCode = code; K.life.exited = true;
  longjmp(topJmp, J_EXIT);
}
bool boot(const std::vector<std::string> &args) {
  static std::vector<std::vector<char>> argStore;
  static char *argv[32];
  argStore.clear();
  int argc = 0;
  for (auto &a : args) { argStore.emplace_back(a.begin(), a.end()); argStore.back().push_back(0); }
  for (auto &v : argStore) argv[argc++] = v.data();
  argv[argc] = nullptr;
  static int s_argc; s_argc = argc;
  restoreProxyImage();
  atexits.clear(); sigHandlers.clear(); pendingSignals.clear();
  wantKill = false; inExit = false;
  ctx = g_main_context_new();
  K.life = Lifetime{true, 0, false, false, K.life.no + 1};
  inProxy = true;
  tracef("proxy start %d", K.life.no);
  int j = setjmp(topJmp);
  if (j == 0) {
    int rc = sut_main(s_argc, argv);
    doExit(rc);
  }
  bool exited = j == J_EXIT;
  K.life.exited = exited; K.life.crashed = j == J_KILL;
  teardownProcess();
  tracef("proxy %s code %d", exited ? "exited" : j == J_KILL ? "killed" : "end", K.life.exitCode);
  return j != J_END;
}

// ---------------------------------------------------------------- main loop
static bool srcReady(GSource *s) {
  if (g_source_is_destroyed(s)) return false;
  if (s->source_funcs == &watchFuncs) return watchWakes((SimWatch *)s);
  return ((SimTimer *)s)->due <= K.now;
}
static bool attached(GSource *s) { return g_source_get_context(s) == ctx && ctx; }
bool sourcesReady() { if (!ctx) return false; for (auto s : *liveSrc) if (!g_source_is_destroyed(s) && attached(s) && srcReady(s)) return true; return false; }
int liveSources() { int n = 0; for (auto s : *liveSrc) if (!g_source_is_destroyed(s)) n++; return n; }
static usec nextTimer() {
  usec m = INT64_MAX;
  for (auto s : *liveSrc) if (!g_source_is_destroyed(s) && s->source_funcs == &timerFuncs && attached(s)) m = std::min(m, ((SimTimer *)s)->due);
  return m;
}
static void fireEvent() {
  Kernel::Ev e = K.q.top(); K.q.pop();
  if (e.at > K.now) K.now = e.at;
  K.evCount++;
  e.fn();
}
bool worldStep() { if (K.q.empty()) return false; fireEvent(); return true; }
struct SimLoop { bool running; int refs; };
static uint64_t spin = 0;
static uint64_t totalSpin = 0;
static void loopStep() {
  K.loopNo++;
  bool ready = sourcesReady();
  if (ready) {
    bool lazy = !K.q.empty() && K.q.top().at <= K.now + 3 * MS &&
                (hashn(K.seed, 0x100b, K.loopNo) % 1000) < (uint64_t)(K.lazyPoll * 1000);
    if (spin > 60 && !K.q.empty() && K.q.top().at <= K.now + 20 * MS) lazy = true;
    if (lazy) { stats.add("sched.deferred_poll"); fireEvent(); spin = 0; return; }
    g_main_context_iteration(ctx, FALSE);
    spin++;
    if (++totalSpin > 8000000) { for (auto x : *liveSrc) if (!g_source_is_destroyed(x) && attached(x) && srcReady(x)) { if (x->source_funcs == &watchFuncs) { SimWatch *w = (SimWatch *)x; tracef("ready: fd %d cond %x buffered %x", ((SimChannel *)w->ch)->fd, watchMask(w), g_io_channel_get_buffer_condition(w->ch)); } else tracef("ready: timer"); } crashReport("HANG:busy-loop"); }
    // GLib takes a write buffer that is not full for writable; the proxy polls without pause until the peer reads
    if (spin > 60) { usec t = std::min(nextTimer(), K.now + (spin > 2000 ? 20 * MS : 100)); if (!K.q.empty()) t = std::min(t, K.q.top().at); if (t > K.now) K.now = t; else K.now++; stats.add("probe.spin"); }
    return;
  }
  if (!K.q.empty() && K.q.top().at <= K.now) { fireEvent(); spin = 0; return; }
  if (K.inflightTotal == 0 && K.idle) { K.idle(); if (wantEnd || wantKill || !pendingSignals.empty()) return;
    if (sourcesReady() || (!K.q.empty() && K.q.top().at <= K.now)) return; }
  usec t = nextTimer();
  if (K.q.empty() && t == INT64_MAX) { violation("SIM:deadlock", "nothing left to happen"); wantEnd = true; return; }
  if (!K.q.empty() && K.q.top().at <= t) { fireEvent(); spin = 0; return; }
  K.now = t; spin = 0;
}

extern "C" {
GMainLoop *sim_g_main_loop_new(GMainContext *, gboolean) { SimLoop *l = new SimLoop{false, 1}; return (GMainLoop *)l; }
void sim_g_main_loop_quit(GMainLoop *l) { ((SimLoop *)l)->running = false; }
gboolean sim_g_main_loop_is_running(GMainLoop *l) { return ((SimLoop *)l)->running; }
void sim_g_main_loop_unref(GMainLoop *) {}
GMainLoop *sim_g_main_loop_ref(GMainLoop *l) { return l; }
void sim_g_main_loop_run(GMainLoop *l) {
  SimLoop *L = (SimLoop *)l; L->running = true;
  while (L->running) {
    if (wantEnd || (worldDone && worldDone())) longjmp(topJmp, J_END);
    if (wantKill) longjmp(topJmp, J_KILL);
    if (!pendingSignals.empty()) {
      int s = pendingSignals.front(); pendingSignals.erase(pendingSignals.begin());
      tracef("signal %d", s);
      auto it = sigHandlers.find(s);
      if (it == sigHandlers.end() || it->second == SIG_DFL) longjmp(topJmp, J_KILL);
      if (it->second != SIG_IGN) it->second(s);
      continue;
    }
    loopStep();
  }
}
GMainContext *sim_g_main_loop_get_context(GMainLoop *) { return ctx; }
GMainContext *sim_g_main_context_default(void) { return ctx; }
gboolean sim_g_main_context_iteration(GMainContext *, gboolean) { return g_main_context_iteration(ctx, FALSE); }
gboolean sim_g_main_context_pending(GMainContext *) { return sourcesReady(); }

guint sim_g_source_attach(GSource *s, GMainContext *) { return g_source_attach(s, ctx); }
guint sim_g_io_add_watch_full(GIOChannel *ch, gint prio, GIOCondition cond, GIOFunc f, gpointer data, GDestroyNotify n) {
  GSource *s = g_io_create_watch(ch, cond);
  if (prio != G_PRIORITY_DEFAULT) g_source_set_priority(s, prio);
  g_source_set_callback(s, (GSourceFunc)(void (*)(void))f, data, n);
  guint id = g_source_attach(s, ctx); g_source_unref(s);
  return id;
}
guint sim_g_io_add_watch(GIOChannel *ch, GIOCondition cond, GIOFunc f, gpointer data) { return sim_g_io_add_watch_full(ch, G_PRIORITY_DEFAULT, cond, f, data, NULL); }
static guint addTimer(usec iv, gint prio, GSourceFunc f, gpointer data, GDestroyNotify n) {
  GSource *s = g_source_new(&timerFuncs, sizeof(SimTimer));
  SimTimer *t = (SimTimer *)s; t->interval = iv; t->due = K.now + iv;
  liveSrc->insert(s);
  if (prio != G_PRIORITY_DEFAULT) g_source_set_priority(s, prio);
  g_source_set_callback(s, f, data, n);
  guint id = g_source_attach(s, ctx); g_source_unref(s);
  return id;
}
guint sim_g_timeout_add(guint iv, GSourceFunc f, gpointer d) { return addTimer((usec)iv * MS, G_PRIORITY_DEFAULT, f, d, NULL); }
guint sim_g_timeout_add_full(gint p, guint iv, GSourceFunc f, gpointer d, GDestroyNotify n) { return addTimer((usec)iv * MS, p, f, d, n); }
guint sim_g_timeout_add_seconds(guint iv, GSourceFunc f, gpointer d) { return addTimer((usec)iv * SEC, G_PRIORITY_DEFAULT, f, d, NULL); }
guint sim_g_timeout_add_seconds_full(gint p, guint iv, GSourceFunc f, gpointer d, GDestroyNotify n) { return addTimer((usec)iv * SEC, p, f, d, n); }
guint sim_g_idle_add(GSourceFunc f, gpointer d) { return addTimer(0, G_PRIORITY_DEFAULT_IDLE, f, d, NULL); }
guint sim_g_idle_add_full(gint p, GSourceFunc f, gpointer d, GDestroyNotify n) { return addTimer(0, p, f, d, n); }
gboolean sim_g_source_remove(guint id) {
  if (id == 0) { stats.add("probe.source_remove_0"); return FALSE; }
  GSource *s = ctx ? g_main_context_find_source_by_id(ctx, id) : NULL;
  if (!s) { stats.add("probe.source_remove_stale"); tracef("g_source_remove: stale id"); return FALSE; }
  g_source_destroy(s);
  return TRUE;
}
GSource *sim_g_main_context_find_source_by_id(GMainContext *, guint id) { return g_main_context_find_source_by_id(ctx, id); }

GIOChannel *sim_g_io_channel_unix_new(int fd) {
  SimChannel *c = g_new0(SimChannel, 1);
  g_io_channel_init(&c->ch);
  c->ch.funcs = &simFuncs; c->fd = fd;
  c->ch.is_readable = c->ch.is_writeable = TRUE;
  c->ch.is_seekable = FALSE;
  return &c->ch;
}
int sim_g_io_channel_unix_get_fd(GIOChannel *c) { if (isSim(c)) return ((SimChannel *)c)->fd; return -1; }

// ---------------------------------------------------------------- sockets
int sim_socket(int family, int, int) {
  if (K.socketFailures > 0) { K.socketFailures--; stats.add("fault.socket_fail"); errno = EMFILE; return -1; }
  int f = newFd(); fds[f].family = family; return f;
}
int sim_bind(int fd, const struct sockaddr *sa, socklen_t) {
  auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; }
  FdEnt &e = it->second;
  if (sa->sa_family == AF_UNIX) {
    std::string p = ((const struct sockaddr_un *)sa)->sun_path;
    struct stat st; if (stat(p.c_str(), &st) == 0) { errno = EADDRINUSE; return -1; }
    int f = ::open(p.c_str(), O_CREAT | O_WRONLY | O_EXCL, 0600);
    if (f < 0) return -1;
    ::close(f);
    e.bindPath = p; e.bound = true; return 0;
  }
  const struct sockaddr_in *in = (const struct sockaddr_in *)sa;
  int port = ntohs(in->sin_port);
  for (auto l : listeners) if (l->open && port != 0 && l->port == port && l->path.empty()) { errno = EADDRINUSE; return -1; }
  e.bindPort = port; char b[64]; inet_ntop(AF_INET, &in->sin_addr, b, sizeof b); e.bindHost = b; e.bound = true;
  return 0;
}
int sim_listen(int fd, int) {
  auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; }
  Listener *l = new Listener(); l->fd = fd; l->port = it->second.bindPort; l->path = it->second.bindPath; l->host = it->second.bindHost;
  it->second.kind = FdEnt::LISTEN; it->second.l = l; listeners.push_back(l);
  tracef("listening on %s%d", l->path.empty() ? "port " : l->path.c_str(), l->port);
  return 0;
}
int sim_accept(int fd, struct sockaddr *, socklen_t *) {
  auto it = fds.find(fd); if (it == fds.end() || it->second.kind != FdEnt::LISTEN) { errno = EBADF; return -1; }
  Listener *l = it->second.l;
  if (l->backlog.empty()) { errno = EAGAIN; return -1; }
  if (K.acceptFailures > 0 || l->backlog.front()->abortAccept) { if (K.acceptFailures > 0) K.acceptFailures--; stats.add("fault.accept_fail"); errno = ECONNABORTED;
    Conn *c = l->backlog.front(); l->backlog.pop_front(); c->fdOpen = false; c->notified = true;
    Remote *r = c->remote; K.after(1 * MS, [r, c]() { if (r) r->onClosed(c, true); });
    return -1; }
  Conn *c = l->backlog.front(); l->backlog.pop_front();
  int f = newFd(); FdEnt &e = fds[f]; e.kind = FdEnt::CONN; e.c = c; e.family = l->path.empty() ? AF_INET : AF_UNIX;
  c->fd = f; c->fdOpen = true;
  tracef("accept %s", c->label.c_str());
  return f;
}
static int connectFinish(Conn *c, ConnectPlan p) {
  switch (p.kind) {
  case ConnectPlan::ACCEPT: case ConnectPlan::RESET_AFTER:
    c->st = Conn::ESTAB; tracef("connected %s", c->label.c_str());
    if (c->remote) c->remote->onConnected(c);
    if (p.kind == ConnectPlan::RESET_AFTER) c->closeRemote(true);
    break;
  case ConnectPlan::REFUSE: c->st = Conn::FAILED; c->soerr = ECONNREFUSED; break;
  case ConnectPlan::HANG: c->st = Conn::FAILED; c->soerr = ETIMEDOUT; break;
  default: break;
  }
  return 0;
}
int sim_connect(int fd, const struct sockaddr *sa, socklen_t) {
  auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; }
  FdEnt &e = it->second;
  if (sa->sa_family != AF_INET) { errno = ECONNREFUSED; return -1; }
  const struct sockaddr_in *in = (const struct sockaddr_in *)sa;
  char ip[64]; inet_ntop(AF_INET, &in->sin_addr, ip, sizeof ip);
  int port = ntohs(in->sin_port);
  auto h = ip2host.find(ip);
  std::string host = h == ip2host.end() ? ip : h->second;
  Conn *c = newConn(strf("srv:%s:%d", host.c_str(), port));
  c->peerHost = ip; c->peerPort = port; c->localHost = "127.0.0.1"; c->localPort = 50000 + (int)(c->uid % 10000);
  c->nonblock = e.nonblock; c->fd = fd; c->fdOpen = true;
  ConnectPlan p = K.onConnect ? K.onConnect(host, port, c) : ConnectPlan();
  tracef("connect %s plan %d", c->label.c_str(), p.kind);
  shape("connect " + host);
  if (p.kind != ConnectPlan::ACCEPT) stats.add(p.kind == ConnectPlan::REFUSE ? "fault.connect_refused" : p.kind == ConnectPlan::HANG ? "fault.connect_hang" : p.kind == ConnectPlan::SYNCFAIL ? "fault.connect_syncfail" : "fault.connect_reset");
  if (p.kind == ConnectPlan::SYNCFAIL) { c->st = Conn::FAILED; c->fdOpen = false; c->fd = -1; errno = ENETUNREACH; return -1; }
  c->remote = K.serverFor ? K.serverFor(host, port, c) : nullptr;
  if (!c->remote && p.kind == ConnectPlan::ACCEPT) p.kind = ConnectPlan::REFUSE;
  e.kind = FdEnt::CONN; e.c = c;
  if (!e.nonblock) { connectFinish(c, p); if (c->st == Conn::FAILED) { errno = c->soerr; c->soerr = 0; return -1; } return 0; }
  if (p.kind == ConnectPlan::HANG && p.delay < 60 * SEC) p.delay = 127 * SEC;
  bool count = p.kind != ConnectPlan::HANG;
  if (count) K.inflightTotal++;
  K.after(p.delay, [c, p, count]() { if (count) K.inflightTotal--; if (c->fdOpen && c->st == Conn::CONNECTING) connectFinish(c, p); });
  errno = EINPROGRESS; return -1;
}
struct SimAddr { struct addrinfo ai; struct sockaddr_in in; };
int sim_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
  std::string host = node ? node : ((hints && (hints->ai_flags & AI_PASSIVE)) ? "0.0.0.0" : "127.0.0.1");
  *res = NULL;
  int port = 0;
  if (service) { char *end; long p = strtol(service, &end, 10); if (*end || !*service) { if (!strcmp(service, "ircd")) p = 6667; else return EAI_SERVICE; } if (p < 0 || p > 65535) return EAI_SERVICE; port = (int)p; }
  if (host.empty()) return EAI_NONAME;
  if (node && K.dnsFail) { int e = K.dnsFail(host); if (e) { stats.add("fault.dns_fail"); tracef("dns %s fails", host.c_str()); return e; } }
  for (char ch : host) if (isspace((unsigned char)ch)) return EAI_NONAME;
  std::string ip = hostIp(host);
  SimAddr *a = (SimAddr *)calloc(1, sizeof(SimAddr));
  a->in.sin_family = AF_INET; a->in.sin_port = htons(port); inet_pton(AF_INET, ip.c_str(), &a->in.sin_addr);
  a->ai.ai_family = AF_INET; a->ai.ai_socktype = SOCK_STREAM; a->ai.ai_protocol = 6; a->ai.ai_addrlen = sizeof(a->in); a->ai.ai_addr = (struct sockaddr *)&a->in;
  *res = &a->ai;
  return 0;
}
void sim_freeaddrinfo(struct addrinfo *a) { while (a) { struct addrinfo *n = a->ai_next; free(a); a = n; } }
int sim_getnameinfo(const struct sockaddr *sa, socklen_t, char *host, socklen_t hl, char *serv, socklen_t sl, int flags) {
  if (sa->sa_family != AF_INET) return EAI_FAMILY;
  const struct sockaddr_in *in = (const struct sockaddr_in *)sa;
  char ip[64]; inet_ntop(AF_INET, &in->sin_addr, ip, sizeof ip);
  std::string h = ip;
  if (!(flags & NI_NUMERICHOST)) { auto it = ip2host.find(ip); if (it != ip2host.end()) h = it->second; else if (h == "127.0.0.1") h = "localhost"; else if (flags & NI_NAMEREQD) return EAI_NONAME; }
  if (host) { if (h.size() + 1 > hl) return EAI_OVERFLOW; strcpy(host, h.c_str()); }
  if (serv) { std::string p = strf("%d", ntohs(in->sin_port)); if (p.size() + 1 > sl) return EAI_OVERFLOW; strcpy(serv, p.c_str()); }
  return 0;
}
static int fillName(bool peer, int fd, struct sockaddr *sa, socklen_t *len) {
  auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; }
  FdEnt &e = it->second;
  if (e.family == AF_UNIX) { struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; socklen_t n = std::min<socklen_t>(*len, 2); memcpy(sa, &u, n); *len = 2; return 0; }
  struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET;
  if (e.c) {
    if (peer && e.c->st != Conn::ESTAB) { errno = ENOTCONN; return -1; }
    inet_pton(AF_INET, (peer ? e.c->peerHost : e.c->localHost).c_str(), &in.sin_addr); in.sin_port = htons(peer ? e.c->peerPort : e.c->localPort);
  } else { if (peer) { errno = ENOTCONN; return -1; } in.sin_port = htons(e.bindPort); }
  memcpy(sa, &in, std::min<socklen_t>(*len, sizeof in)); *len = sizeof in; return 0;
}
int sim_getpeername(int fd, struct sockaddr *sa, socklen_t *len) { return fillName(true, fd, sa, len); }
int sim_getsockname(int fd, struct sockaddr *sa, socklen_t *len) { return fillName(false, fd, sa, len); }
int sim_setsockopt(int fd, int, int, const void *, socklen_t) { if (!fds.count(fd)) { errno = EBADF; return -1; } return 0; }
int sim_getsockopt(int fd, int level, int opt, void *val, socklen_t *len) {
  auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; }
  int v = 0;
  if (level == SOL_SOCKET && opt == SO_ERROR && it->second.c) { v = it->second.c->soerr; it->second.c->soerr = 0;
    if (!v && it->second.c->rcvRst && !it->second.c->rstReported) { v = ECONNRESET; it->second.c->rstReported = true; } }
  memcpy(val, &v, std::min<size_t>(*len, sizeof v)); *len = sizeof v; return 0;
}
int sim_shutdown(int fd, int) { if (!fds.count(fd)) { errno = EBADF; return -1; } return 0; }
int sim_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (fd < FDBASE) return ::fcntl(fd, cmd, a);
  if (!fds.count(fd)) { errno = EBADF; return -1; }
  if (cmd == F_SETFL) setNonblock(fd, a & O_NONBLOCK);
  if (cmd == F_GETFL) return O_RDWR | (fds[fd].nonblock ? O_NONBLOCK : 0);
  return 0;
}
int sim_ioctl(int fd, unsigned long, ...) { if (!fds.count(fd)) { errno = EBADF; return -1; } return 0; }
ssize_t sim_send(int fd, const void *b, size_t n, int) { return sim_write(fd, b, n); }
ssize_t sim_recv(int fd, void *b, size_t n, int) { return sim_read(fd, b, n); }
int sim_socketpair(int, int, int, int sv[2]) {
  stats.add("probe.socketpair");
  Conn *c = newConn("prog"); c->st = Conn::ESTAB; c->unixsock = true; c->fdOpen = true;
  int a = newFd(); fds[a].kind = FdEnt::CONN; fds[a].c = c; fds[a].family = AF_UNIX; c->fd = a;
  int b = newFd(); fds[b].kind = FdEnt::PIPE; fds[b].c = c;
  c->remote = K.serverFor ? K.serverFor("program", 0, c) : nullptr;
  sv[0] = a; sv[1] = b; return 0;
}
pid_t sim_fork(void) {
  stats.add("probe.fork");
  for (auto &p : fds) if (p.second.kind == FdEnt::PIPE) { Conn *c = p.second.c; if (c->remote) { K.after(1 * MS, [c]() { if (c->remote) c->remote->onConnected(c); }); } else c->closeRemote(); }
  return 54321;
}
int sim_execvp(const char *, char *const[]) { errno = ENOENT; return -1; }
int sim_dup2(int, int b) { return b; }
int sim_daemon(int, int) { return 0; }

// ---------------------------------------------------------------- disk
static int diskGate(const char *op, const std::string &path, size_t len, size_t &allow) {
  allow = len;
  K.diskOps++;
  if (getenv("SIM_TRACEDISK")) tracef("disk %s %s %zu", op, path.c_str(), len);
  if (K.traceDisk) K.diskTrace.push_back(strf("%llu %s %s %zu", (unsigned long long)K.diskOps, op, path.c_str(), len));
  if (K.diskFault) {
    int e = K.diskFault(op, path, len, allow);
    if (e) { stats.add(strf("fault.disk_%s", op)); tracef("disk fault %s %s errno %d", op, path.c_str(), e); return e; }
    if (allow < len) stats.add("fault.disk_short");
  }
  return 0;
}
// what a power failure may take away: bytes written but never synced, by inode
static std::map<ino_t, off_t> syncedTo;
static void markWrite(int fd) { struct stat st; if (::fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && !syncedTo.count(st.st_ino)) syncedTo[st.st_ino] = st.st_size; }
static void markSync(int fd) { struct stat st; if (::fstat(fd, &st) == 0) syncedTo.erase(st.st_ino); }
static void losePower(const std::string &dir) {
  DIR *d = opendir(dir.c_str()); if (!d) return;
  std::vector<std::string> names; while (struct dirent *e = readdir(d)) names.push_back(e->d_name); closedir(d);
  std::sort(names.begin(), names.end());
  for (auto &x : names) {
    if (x == "." || x == ".." || x == "linestack") continue;
    std::string p = dir + "/" + x; struct stat st; if (::lstat(p.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { losePower(p); continue; }
    auto it = syncedTo.find(st.st_ino); if (it == syncedTo.end() || !S_ISREG(st.st_mode) || st.st_size <= it->second) continue;
    off_t k = it->second + (off_t)(hashn(K.seed, hstr(p), K.diskOps) % (uint64_t)(st.st_size - it->second));
    stats.add("fault.unsynced_lost"); tracef("power failure: %s cut to %ld of %ld bytes", p.c_str(), (long)k, (long)st.st_size);
    int r = ::truncate(p.c_str(), k); (void)r;
  }
}
static bool crashHere() { return K.crashAtDiskOp && K.diskOps == K.crashAtDiskOp; }
static void crashNow(const char *op) { stats.add(strf("fault.crash_at_%s", op)); tracef("crash at disk op %llu", (unsigned long long)K.diskOps); K.crashAtDiskOp = 0; if (K.powerLoss) losePower("cfg"); longjmp(topJmp, J_KILL); }
static int gate(const char *op, const char *path, size_t len, size_t &allow) {
  int e;
  { std::string p(path); e = diskGate(op, p, len, allow); }
  return e;
}
static bool writeMode(int fl) { return (fl & O_ACCMODE) != O_RDONLY; }
int sim_open(const char *path, int flags, ...) {
  mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  size_t al; int e = gate(writeMode(flags) ? "open_w" : "open_r", path, 0, al);
  if (e) { errno = e; return -1; }
  if (crashHere() && !K.crashTorn) crashNow("open");
  int fd = ::open(path, flags | O_CLOEXEC, mode);
  if (crashHere()) crashNow("open");
  if (fd >= 0) { realFds[fd] = path; if (writeMode(flags)) markWrite(fd); }
  return fd;
}
ssize_t sim_read(int fd, void *buf, size_t n) {
  if (fd >= FDBASE) { auto it = fds.find(fd); if (it == fds.end() || !it->second.c) { errno = EBADF; return -1; } return connRead(it->second.c, buf, n); }
  auto it = realFds.find(fd);
  if (it == realFds.end()) return ::read(fd, buf, n);
  size_t al; int e = gate("read", it->second.c_str(), n, al);
  if (e) { errno = e; return -1; }
  if (al == 0 && n > 0) al = 1;
  return ::read(fd, buf, al);
}
ssize_t sim_write(int fd, const void *buf, size_t n) {
  if (fd >= FDBASE) { auto it = fds.find(fd); if (it == fds.end() || !it->second.c) { errno = EBADF; return -1; } return connWrite(it->second.c, buf, n); }
  auto it = realFds.find(fd);
  if (it == realFds.end()) return ::write(fd, buf, n);
  size_t al; int e = gate("write", it->second.c_str(), n, al);
  if (e) { errno = e; return -1; }
  markWrite(fd);
  if (crashHere()) { if (K.crashTorn && n > 0) { size_t k = hashn(K.seed, 0x70a, K.diskOps) % n; ssize_t r = ::write(fd, buf, k); (void)r; } crashNow("write"); }
  if (al == 0 && n > 0) { errno = ENOSPC; return -1; }
  return ::write(fd, buf, al);
}
ssize_t sim_pread(int fd, void *buf, size_t n, off_t off) {
  auto it = realFds.find(fd);
  if (it == realFds.end()) { errno = fd >= FDBASE ? ESPIPE : EBADF; return -1; }
  size_t al; int e = gate("read", it->second.c_str(), n, al);
  if (e) { errno = e; return -1; }
  if (al == 0 && n > 0) al = 1;
  return ::pread(fd, buf, al, off);
}
ssize_t sim_pwrite(int fd, const void *buf, size_t n, off_t off) {
  auto it = realFds.find(fd);
  if (it == realFds.end()) { errno = fd >= FDBASE ? ESPIPE : EBADF; return -1; }
  size_t al; int e = gate("write", it->second.c_str(), n, al);
  if (e) { errno = e; return -1; }
  markWrite(fd);
  if (crashHere()) { if (K.crashTorn && n > 0) { size_t k = hashn(K.seed, 0x70a, K.diskOps) % n; ssize_t r = ::pwrite(fd, buf, k, off); (void)r; } crashNow("write"); }
  if (al == 0 && n > 0) { errno = ENOSPC; return -1; }
  return ::pwrite(fd, buf, al, off);
}
int sim_close(int fd) {
  if (fd >= FDBASE) return closeFd(fd);
  auto it = realFds.find(fd);
  if (it != realFds.end()) realFds.erase(it);
  else { stats.add("probe.close_unknown_fd"); errno = EBADF; return -1; }
  return ::close(fd);
}
off_t sim_lseek(int fd, off_t off, int wh) {
  if (fd >= FDBASE) { errno = ESPIPE; return -1; }
  auto it = realFds.find(fd);
  if (it != realFds.end() && !(off == 0 && wh == SEEK_CUR)) { size_t al; int e = gate("seek", it->second.c_str(), 0, al); if (e) { errno = e; return -1; } }
  return ::lseek(fd, off, wh);
}
int sim_fstat(int fd, struct stat *st) { if (fd >= FDBASE) { errno = EBADF; return -1; } return ::fstat(fd, st); }
int sim_fsync(int fd) {
  auto it = realFds.find(fd); if (it == realFds.end()) return 0;
  size_t al; int e = gate("fsync", it->second.c_str(), 0, al); if (e) { errno = e; return -1; }
  if (crashHere()) crashNow("fsync");
  markSync(fd); return 0;
}
int sim_unlink(const char *path) {
  size_t al; int e = gate("unlink", path, 0, al); if (e) { errno = e; return -1; }
  if (crashHere() && !K.crashTorn) crashNow("unlink");
  int r = ::unlink(path);
  int se = errno;
  if (crashHere()) crashNow("unlink");
  errno = se;
  return r;
}
int sim_g_unlink(const char *p) { return sim_unlink(p); }
int sim_remove(const char *p) { return sim_unlink(p); }
int sim_mkdir(const char *path, mode_t m) {
  size_t al; int e = gate("mkdir", path, 0, al); if (e) { errno = e; return -1; }
  if (crashHere() && !K.crashTorn) crashNow("mkdir");
  int r = ::mkdir(path, m);
  int se = errno;
  if (crashHere()) crashNow("mkdir");
  errno = se;
  return r;
}
int sim_g_mkdir(const char *p, int m) { return sim_mkdir(p, m); }
int sim_g_mkdir_with_parents(const gchar *p, int m) {
  size_t al; int e = gate("mkdir", p, 0, al); if (e) { errno = e; return -1; }
  if (crashHere()) crashNow("mkdir");
  return g_mkdir_with_parents(p, m);
}
int sim_rename(const char *a, const char *b) {
  size_t al; int e = gate("rename", b, 0, al); if (e) { errno = e; return -1; }
  if (crashHere() && !K.crashTorn) crashNow("rename");
  int r = ::rename(a, b);
  int se = errno;
  if (crashHere()) crashNow("rename");
  errno = se;
  return r;
}
int sim_g_rename(const char *a, const char *b) { return sim_rename(a, b); }
int sim_ftruncate(int fd, off_t n) {
  auto it = realFds.find(fd); if (it == realFds.end()) { errno = EBADF; return -1; }
  size_t al; int e = gate("truncate", it->second.c_str(), 0, al); if (e) { errno = e; return -1; }
  if (crashHere()) crashNow("truncate");
  return ::ftruncate(fd, n);
}
int sim_truncate(const char *p, off_t n) { size_t al; int e = gate("truncate", p, 0, al); if (e) { errno = e; return -1; } if (crashHere()) crashNow("truncate"); return ::truncate(p, n); }
gboolean sim_g_file_set_contents(const gchar *file, const gchar *data, gssize len, GError **err) {
  size_t al; size_t l = len < 0 ? strlen(data) : len; int e = gate("replace", file, l, al);
  if (e || al < l) { g_set_error(err, G_FILE_ERROR, g_file_error_from_errno(e ? e : ENOSPC), "Failed to write file: %s", g_strerror(e ? e : ENOSPC)); return FALSE; }
  if (crashHere() && !K.crashTorn) crashNow("replace");
  gboolean r = g_file_set_contents(file, data, len, err);
  if (crashHere()) crashNow("replace");
  return r;
}
gboolean sim_g_file_set_contents_full(const gchar *file, const gchar *data, gssize len, GFileSetContentsFlags, int, GError **err) { return sim_g_file_set_contents(file, data, len, err); }
gboolean sim_g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **err) {
  gsize n; gchar *d = g_key_file_to_data(kf, &n, err); if (!d) return FALSE;
  gboolean r = sim_g_file_set_contents(file, d, n, err); g_free(d); return r;
}
GIOChannel *sim_g_io_channel_new_file(const gchar *file, const gchar *mode, GError **err) {
  int fl;
  bool plus = strchr(mode, '+') != NULL;
  switch (mode[0]) {
  case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
  case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
  default: fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
  }
  int fd = sim_open(file, fl, 0666);
  if (fd < 0) { int e = errno; g_set_error_literal(err, G_FILE_ERROR, g_file_error_from_errno(e), g_strerror(e)); return NULL; }
  GIOChannel *ch = sim_g_io_channel_unix_new(fd);
  ch->close_on_unref = TRUE;
  ch->is_seekable = TRUE; ch->is_readable = (mode[0] == 'r' || plus); ch->is_writeable = (mode[0] != 'r' || plus);
  return ch;
}
int sim_dump_interval(void) { return K.dumpInterval; }
GDir *sim_g_dir_open(const gchar *path, guint flags, GError **err) {
  size_t al; int e = gate("opendir", path, 0, al);
  if (e) { g_set_error(err, G_FILE_ERROR, g_file_error_from_errno(e), "%s", g_strerror(e)); return NULL; }
  return g_dir_open(path, flags, err);
}
gboolean sim_g_file_get_contents(const gchar *file, gchar **c, gsize *n, GError **err) {
  size_t al; int e = gate("slurp", file, 0, al);
  if (e) { g_set_error(err, G_FILE_ERROR, g_file_error_from_errno(e), "Failed to read: %s", g_strerror(e)); return FALSE; }
  return g_file_get_contents(file, c, n, err);
}
struct Cookie { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read(((Cookie *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = sim_write(((Cookie *)c)->fd, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) { off_t r = sim_lseek(((Cookie *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { int r = sim_close(((Cookie *)c)->fd); delete (Cookie *)c; return r; }
FILE *sim_fopen(const char *path, const char *mode) {
  int fl; bool plus = strchr(mode, '+') != NULL;
  switch (mode[0]) {
  case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
  case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
  default: fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
  }
  int fd = sim_open(path, fl, 0666);
  if (fd < 0) return NULL;
  cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
  return fopencookie(new Cookie{fd}, mode, f);
}

// ---------------------------------------------------------------- time, identity, process
time_t sim_time(time_t *t) { time_t v = (time_t)((K.now + K.wallOff) / SEC); if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval *tv, void *) { int64_t u = K.now + K.wallOff; tv->tv_sec = u / SEC; tv->tv_usec = u % SEC; return 0; }
int sim_clock_gettime(clockid_t id, struct timespec *ts) { int64_t u = K.now + (id == CLOCK_MONOTONIC ? 0 : K.wallOff); ts->tv_sec = u / SEC; ts->tv_nsec = (u % SEC) * 1000; return 0; }
gint64 sim_g_get_monotonic_time(void) { return K.now; }
gint64 sim_g_get_real_time(void) { return K.now + K.wallOff; }
void sim_g_get_current_time(GTimeVal *tv) { int64_t u = K.now + K.wallOff; tv->tv_sec = u / SEC; tv->tv_usec = u % SEC; }
void sim_g_usleep(gulong us) { K.now += us; }
unsigned sim_sleep(unsigned s) { K.now += (usec)s * SEC; return 0; }
int sim_usleep(useconds_t us) { K.now += us; return 0; }
int sim_gethostname(char *b, size_t n) { snprintf(b, n, "proxy.test"); return 0; }
int sim_uname(struct utsname *u) { memset(u, 0, sizeof *u); strcpy(u->sysname, "SimOS"); strcpy(u->nodename, "proxy.test"); strcpy(u->release, "1.0"); strcpy(u->version, "#1"); strcpy(u->machine, "sim"); return 0; }
pid_t sim_getpid(void) { return 31337 + K.life.no; }
int sim_kill(pid_t, int) { errno = ESRCH; return -1; }
struct servent *sim_getservbyname(const char *, const char *) { return NULL; }
const gchar *sim_g_get_user_name(void) { return "simuser"; }
const gchar *sim_g_get_real_name(void) { return "Sim User"; }
const gchar *sim_g_get_home_dir(void) { return "home"; }
const gchar *sim_g_getenv(const gchar *) { return NULL; }
char *sim_getenv(const char *n) { if (!strcmp(n, "CTRLPROXY_MODULESDIR")) return (char *)"nomods"; return NULL; }
typedef void (*sigh)(int);
sigh sim_signal(int s, sigh h) { sigh o = sigHandlers.count(s) ? sigHandlers[s] : SIG_DFL; sigHandlers[s] = h; return o; }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *) { if (a) sigHandlers[s] = a->sa_handler; return 0; }
int sim_atexit(void (*f)(void)) { atexits.push_back(f); return 0; }
void sim_exit(int code) { doExit(code); abort(); }
void sim__exit(int code) { K.life.exitCode = code; longjmp(topJmp, J_KILL); }
void sim_abort(void) { crashReport("CRASH:abort"); abort(); }
static std::string baseName(const char *f) { std::string s = f ? f : "?"; auto p = s.rfind('/'); return p == std::string::npos ? s : s.substr(p + 1); }
void sim_g_assertion_message_expr(const char *, const char *file, int, const char *func, const char *expr) {
  crashReport(strf("CRASH:assert:%s:%s:%s", baseName(file).c_str(), func ? func : "?", expr ? expr : "not reached")); abort();
}
void sim_g_assertion_message(const char *, const char *file, int, const char *func, const char *msg) {
  crashReport(strf("CRASH:assert:%s:%s:%s", baseName(file).c_str(), func ? func : "?", msg ? msg : "")); abort();
}
void sim_g_return_if_fail_warning(const char *, const char *func, const char *expr) { stats.add(strf("probe.critical.%s", func)); tracef("critical %s: %s", func, expr); }
guint32 sim_g_random_int(void) { static uint64_t n; return (guint32)hashn(K.seed, 0x7a7, n++); }
int sim_rand(void) { return sim_g_random_int() & 0x7fffffff; }
void sim_srand(unsigned) {}
}
