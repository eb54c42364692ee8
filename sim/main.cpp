// Driver: seeded sweeps, single runs, minimisation and replay.
#include "world.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <limits.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <algorithm>
extern "C" void __asan_set_error_report_callback(void (*)(const char *));
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=6:quarantine_size_mb=16:log_path=/dev/null"; }
void snapshotProxyImage();
const std::set<uint64_t> &statesSeen();

// ---------------------------------------------------------------- shared memory
struct SViol { uint64_t seed, hash; int ops; char cls[160], detail[900]; };
struct SRes { volatile int state; int nviol; uint64_t hash, shape; int64_t sim; int ops; SViol v[4]; };
static const int NSTAT = 512, NVIOL = 400; static const uint64_t NSET = 1 << 22;
struct Shared {
  struct { char name[56]; volatile uint64_t n; } st[NSTAT];
  volatile int lock;
  volatile uint64_t runs, simus, ops, bad, shapes, states, shapeSet[NSET], stateSet[NSET];
  volatile int nviol; SViol viol[NVIOL];
  SRes res;                               // result of a single run
};
static Shared *SH; static SRes *RES;      // RES: this worker's result slot
static bool verboseErr = false;
static uint64_t curSeed; static int curOps;
static void lockS() { while (__sync_lock_test_and_set(&SH->lock, 1)) usleep(50); }
static void unlockS() { __sync_lock_release(&SH->lock); }
static bool setAdd(volatile uint64_t *set, uint64_t h, volatile uint64_t *count) {
  if (!h) h = 1;
  for (uint64_t i = h & (NSET - 1), k = 0; k < 64; k++, i = (i + 1) & (NSET - 1)) {
    if (set[i] == h) return false;
    if (!set[i]) { if (__sync_bool_compare_and_swap(&set[i], 0, h)) { __sync_fetch_and_add(count, 1); return true; } if (set[i] == h) return false; }
  }
  return false;
}
static void statAdd(const char *name, uint64_t n) {
  uint64_t h = hstr(name);
  for (int k = 0, i = h % NSTAT; k < NSTAT; k++, i = (i + 1) % NSTAT) {
    if (SH->st[i].name[0]) { if (!strncmp(SH->st[i].name, name, 55)) { __sync_fetch_and_add(&SH->st[i].n, n); return; } continue; }
    lockS();
    if (!SH->st[i].name[0]) strncpy(SH->st[i].name, name, 55);
    unlockS();
    if (!strncmp(SH->st[i].name, name, 55)) { __sync_fetch_and_add(&SH->st[i].n, n); return; }
  }
}
static void fillViol(SViol &v, const std::string &cls, const std::string &detail) {
  v.seed = curSeed; v.hash = g_traceHash; v.ops = curOps;
  strncpy(v.cls, cls.c_str(), sizeof v.cls - 1); v.cls[sizeof v.cls - 1] = 0;
  strncpy(v.detail, detail.c_str(), sizeof v.detail - 1); v.detail[sizeof v.detail - 1] = 0;
}
static bool reporting = false;
static void finishRun() {
  RES->hash = g_traceHash; RES->shape = g_shapeHash; RES->sim = K.now; RES->ops = W.opsDone;
  RES->nviol = 0;
  for (auto &v : g_viol) if (RES->nviol < 4) fillViol(RES->v[RES->nviol++], v.cls, v.detail);
  RES->state = 2;
}
void crashReport(const std::string &what) {
  if (reporting) _exit(70);
  reporting = true;
  tracef("%s", what.c_str());
  g_viol.insert(g_viol.begin(), Violation{what, "the proxy process failed: " + what, K.now});
  finishRun();
  _exit(71);
}
static void asanReport(const char *text) {
  if (reporting) _exit(72);
  std::string t = text, type = "error", func = "?";
  if (verboseErr) { fputs(text, stderr); }
  size_t p = t.find("AddressSanitizer: ");
  if (p != std::string::npos) { size_t e = t.find_first_of(" \n", p + 18); type = t.substr(p + 18, e - p - 18); }
  size_t q = 0;
  while ((q = t.find(" in ", q)) != std::string::npos) {
    size_t e = t.find_first_of(" \n", q + 4); std::string f = t.substr(q + 4, e - q - 4); size_t nl = t.find('\n', q);
    std::string rest = t.substr(e, nl - e); q = nl == std::string::npos ? t.size() : nl;
    if (rest.find("/src/") != std::string::npos || rest.find("/libirc/") != std::string::npos) if (rest.find(".c:") != std::string::npos && f.find("__") != 0 && rest.find("libsanitizer") == std::string::npos) { func = f; break; }
    if (t.compare(q, 2, "\n\n") == 0) break;
  }
  std::string bt; int n = 0; q = 0;
  while (n < 6 && (q = t.find(" in ", q)) != std::string::npos) { size_t nl = t.find('\n', q); bt += " <" + t.substr(q + 4, std::min<size_t>(nl - q - 4, 60)); q = nl; n++; }
  reporting = true;
  g_viol.insert(g_viol.begin(), Violation{"CRASH:asan:" + type + ":" + func, "memory error in the proxy: " + type + bt, K.now});
  finishRun();
  _exit(73);
}
static void onTick(int) {
  static int ticks = 0;
  char b[128]; int fd = open("/proc/self/statm", O_RDONLY); long rss = 0;
  if (fd >= 0) { int n = read(fd, b, sizeof b - 1); if (n > 0) { b[n] = 0; char *e; strtol(b, &e, 10); rss = strtol(e, &e, 10); } close(fd); }
  if (rss * 4096L > 2500L * 1024 * 1024) { g_viol.clear(); crashReport("HANG:memory-growth"); }
  if (++ticks >= 60) crashReport("HANG:cpu");
}

// ---------------------------------------------------------------- scratch
static char scratchBase[64];
static void rmTree(const char *path, int depth = 0) {      // only ever below our own scratch directory
  if (strncmp(path, scratchBase, strlen(scratchBase)) || depth > 8) return;
  DIR *d = opendir(path); if (!d) return;
  while (struct dirent *e = readdir(d)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    char p[1024]; snprintf(p, sizeof p, "%s/%s", path, e->d_name);
    struct stat st; if (lstat(p, &st)) continue;
    if (S_ISDIR(st.st_mode)) rmTree(p, depth + 1); else unlink(p);
  }
  closedir(d); rmdir(path);
}

// ---------------------------------------------------------------- one run, in its own process
struct Plan { char profile[40]; uint64_t seed; const char *opsFile; int calm; };
static std::vector<Op> readOps(const char *file) {
  std::vector<Op> v; FILE *f = fopen(file, "r"); if (!f) return v;
  char l[512], k[64];
  while (fgets(l, sizeof l, f)) { Op o; long long g; if (sscanf(l, "op %d %63s %d %d %d %d %lld", &o.uid, k, &o.a, &o.b, &o.c, &o.d, &g) == 7) { o.k = k; o.gap = g; v.push_back(o); } }
  fclose(f); return v;
}
static void child(const Plan &p, const char *dir) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (chdir(dir)) _exit(80);
  int dn = open("/dev/null", O_WRONLY); if (!verboseErr) { dup2(dn, 2); if (!g_verbose) dup2(dn, 1); }
  __asan_set_error_report_callback(asanReport);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onTick; sigaction(SIGPROF, &sa, 0);
  struct itimerval it = {{0, 500000}, {0, 500000}}; setitimer(ITIMER_PROF, &it, 0);
  Scn s = generate(p.profile, p.seed);
  if (p.opsFile) s.ops = readOps(p.opsFile);
  if (p.calm & 1) s.lazy = 0;
  if (p.calm & 2) { s.cli.fragMin = s.cli.fragMax = 0; s.cli.maxRead = s.cli.maxWrite = 0; s.srv.fragMin = s.srv.fragMax = 0; s.srv.maxRead = s.srv.maxWrite = 0; }
  if (p.calm & 4) s.cli.latMax = s.cli.latMin = s.srv.latMin = s.srv.latMax = 1 * MS;
  curSeed = p.seed; curOps = s.ops.size();
  worldInit(s);
  worldRun();
  W.finished = true;
  stats.add("msgs.server_to_proxy", W.serverMsgs); stats.add("msgs.proxy_to_server", W.clientMsgs); stats.add("chk.relayed_lines", W.relayed);
  stats.add("chk.reply_lines", W.replies); stats.add("chk.mirrored", W.mirrored); stats.add("chk.cache_answers", W.cached); stats.add("sessions.logins", W.logins);
  stats.add("sessions.attaches", W.attaches); stats.add("sessions.lost", W.losses); stats.add("chk.quiescent_points", W.quiets); stats.add("sim.lives", W.lives);
  stats.add("sim.events", K.evCount); stats.add("disk.ops", K.diskOps);
  finishRun();
  for (auto &x : stats.c) statAdd(x.first.c_str(), x.second);
  for (auto h : statesSeen()) setAdd(SH->stateSet, h, &SH->states);
  _exit(0);
}
static void runOne(const Plan &p, const char *dir) {
  RES->state = 1; RES->nviol = 0; RES->hash = 0; RES->ops = 0; RES->sim = 0;
  mkdir(dir, 0700);
  pid_t pid = fork();
  if (!pid) child(p, dir);
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  rmTree(dir);
  if (RES->state != 2) {
    curSeed = p.seed; RES->nviol = 1; SViol &v = RES->v[0];
    v.seed = p.seed; v.hash = 0; v.ops = 0;
    snprintf(v.cls, sizeof v.cls, "CRASH:%s:%d", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    snprintf(v.detail, sizeof v.detail, "the run ended with %s %d", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    RES->state = 2;
  }
}
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c;
  return o + "\"";
}
static int sweep(const char *profile, uint64_t seed0, double secs, uint64_t maxRuns, int jobs) {
  double t0 = wall();
  SRes *slots = (SRes *)mmap(0, sizeof(SRes) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  volatile uint64_t *next = (volatile uint64_t *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int j = 0; j < jobs; j++) if (!fork()) {
    RES = slots + j; prctl(PR_SET_PDEATHSIG, SIGKILL);
    char dir[96]; snprintf(dir, sizeof dir, "%s/w%d", scratchBase, j);
    Plan p; memset(&p, 0, sizeof p); strncpy(p.profile, profile, 39);
    while (wall() - t0 < secs && !(SH->bad > 4000)) {
      uint64_t k = __sync_fetch_and_add(next, 1);
      if (maxRuns && k >= maxRuns) break;
      p.seed = seed0 + k;
      runOne(p, dir);
      __sync_fetch_and_add(&SH->runs, 1); __sync_fetch_and_add(&SH->simus, RES->sim); __sync_fetch_and_add(&SH->ops, RES->ops);
      setAdd(SH->shapeSet, RES->shape, &SH->shapes);
      if (RES->nviol) { __sync_fetch_and_add(&SH->bad, 1);
        lockS(); for (int i = 0; i < RES->nviol; i++) {
          int same = 0, worst = -1; for (int q = 0; q < SH->nviol; q++) if (!strcmp(SH->viol[q].cls, RES->v[i].cls)) { same++; if (worst < 0 || SH->viol[q].ops > SH->viol[worst].ops) worst = q; }
          if (same < 4 && SH->nviol < NVIOL) SH->viol[SH->nviol++] = RES->v[i];
          else if (worst >= 0 && SH->viol[worst].ops > RES->v[i].ops) SH->viol[worst] = RES->v[i];
          std::string nm = std::string("viol.") + RES->v[i].cls; unlockS(); statAdd(nm.substr(0, 54).c_str(), 1); lockS();
        } unlockS(); }
    }
    _exit(0);
  }
  while (wait(0) > 0) {}
  double dt = wall() - t0;
  printf("{\"profile\":%s,\"runs\":%llu,\"first_seed\":%llu,\"wall_s\":%.2f,\"sim_s\":%.1f,\"ops\":%llu,\"interleavings\":%llu,\"states\":%llu,\"bad_runs\":%llu,\n\"stats\":{", jstr(profile).c_str(), (unsigned long long)SH->runs, (unsigned long long)seed0, dt, SH->simus * 1e-6, (unsigned long long)SH->ops, (unsigned long long)SH->shapes, (unsigned long long)SH->states, (unsigned long long)SH->bad);
  std::map<std::string, uint64_t> m; for (int i = 0; i < NSTAT; i++) if (SH->st[i].name[0]) m[SH->st[i].name] = SH->st[i].n;
  bool first = true; for (auto &x : m) { printf("%s%s:%llu", first ? "" : ",", jstr(x.first).c_str(), (unsigned long long)x.second); first = false; }
  printf("},\n\"violations\":[");
  for (int i = 0; i < SH->nviol; i++) printf("%s\n{\"class\":%s,\"seed\":%llu,\"ops\":%d,\"hash\":\"%016llx\",\"detail\":%s}", i ? "," : "", jstr(SH->viol[i].cls).c_str(), (unsigned long long)SH->viol[i].seed, SH->viol[i].ops, (unsigned long long)SH->viol[i].hash, jstr(SH->viol[i].detail).c_str());
  printf("]}\n");
  return 0;
}
static bool hasClass(const char *cls) { for (int i = 0; i < RES->nviol; i++) if (!strcmp(RES->v[i].cls, cls)) return true; return false; }
static void writeReplay(const char *file, const Plan &p, const std::vector<Op> &ops, const char *cls, const char *detail, uint64_t hash) {
  FILE *f = fopen(file, "w"); if (!f) return;
  fprintf(f, "profile %s\nseed %llu\ncalm %d\nclass %s\ndetail %s\nhash %016llx\n", p.profile, (unsigned long long)p.seed, p.calm, cls, detail, (unsigned long long)hash);
  for (auto &o : ops) fprintf(f, "op %s\n", opText(o).c_str());
  fclose(f);
}
// Delta debugging over the script of one failing run. The run must show the same class of violation.
static int minimise(const char *profile, uint64_t seed, const char *cls, const char *out, double secs) {
  double t0 = wall();
  RES = &SH->res;
  char dir[96], tmp[96]; snprintf(dir, sizeof dir, "%s/min", scratchBase); snprintf(tmp, sizeof tmp, "%s/ops", scratchBase);
  Plan p; memset(&p, 0, sizeof p); strncpy(p.profile, profile, 39); p.seed = seed;
  runOne(p, dir);
  uint64_t h1 = RES->hash; bool f1 = hasClass(cls);
  runOne(p, dir);
  if (!f1 || !hasClass(cls) || RES->hash != h1) { printf("NOT-REPRODUCED seed %llu class %s (first %d/%016llx second %d/%016llx)\n", (unsigned long long)seed, cls, f1, (unsigned long long)h1, hasClass(cls), (unsigned long long)RES->hash); return 2; }
  std::vector<Op> ops = generate(profile, seed).ops;
  auto test = [&](const std::vector<Op> &v, int calm) {
    FILE *f = fopen(tmp, "w"); if (!f) return false;
    for (auto &o : v) fprintf(f, "op %s\n", opText(o).c_str()); fclose(f);
    Plan q = p; q.opsFile = tmp; q.calm = calm; runOne(q, dir);
    return hasClass(cls);
  };
  int tries = 0;
  if (!test(ops, 0)) { printf("NOT-REPRODUCED from the script\n"); return 2; }
  size_t n = 2;
  while (ops.size() >= 2 && wall() - t0 < secs) {
    size_t chunk = std::max<size_t>(1, ops.size() / n); bool red = false;
    for (size_t i = 0; i < ops.size() && wall() - t0 < secs; i += chunk) {
      std::vector<Op> v(ops.begin(), ops.begin() + i); if (i + chunk < ops.size()) v.insert(v.end(), ops.begin() + i + chunk, ops.end());
      tries++;
      if (test(v, p.calm)) { ops = v; n = std::max<size_t>(n - 1, 2); red = true; break; }
    }
    if (!red) { if (chunk == 1) break; n = std::min(n * 2, ops.size()); }
  }
  for (int b = 1; b <= 4 && wall() - t0 < secs; b <<= 1) if (test(ops, p.calm | b)) p.calm |= b;
  if (!test(ops, p.calm)) { printf("NOT-REPRODUCED after minimising\n"); return 2; }
  for (int i = 0; i < RES->nviol; i++) if (!strcmp(RES->v[i].cls, cls)) { writeReplay(out, p, ops, cls, RES->v[i].detail, RES->hash); break; }
  unlink(tmp);
  printf("MINIMISED %zu ops after %d tries\n", ops.size(), tries);
  return 0;
}
static int replay(const char *file) {
  RES = &SH->res;
  Plan p; memset(&p, 0, sizeof p); char cls[200] = "", l[4096]; unsigned long long seed = 0, hash = 0; bool ops = false;
  FILE *f = fopen(file, "r"); if (!f) { printf("cannot read %s\n", file); return 3; }
  while (fgets(l, sizeof l, f)) { sscanf(l, "profile %39s", p.profile); sscanf(l, "seed %llu", &seed); sscanf(l, "calm %d", &p.calm); sscanf(l, "hash %llx", &hash); if (!strncmp(l, "class ", 6)) { strncpy(cls, l + 6, 199); cls[strcspn(cls, "\n")] = 0; } if (!strncmp(l, "op ", 3)) ops = true; }
  fclose(f);
  p.seed = seed; p.opsFile = ops || cls[0] ? file : 0;
  char dir[96]; snprintf(dir, sizeof dir, "%s/rep", scratchBase);
  char full[PATH_MAX]; if (p.opsFile && realpath(file, full)) p.opsFile = full;
  runOne(p, dir);
  for (int i = 0; i < RES->nviol; i++) printf("%s at seed %llu: %s\n", RES->v[i].cls, seed, RES->v[i].detail);
  bool same = hasClass(cls);
  printf("%s trace %016llx expected %016llx\n", same ? "REPRODUCED" : "NOT-REPRODUCED", (unsigned long long)RES->hash, hash);
  return same ? (RES->hash == hash ? 1 : 4) : 0;
}
static void onTerm(int) { rmTree(scratchBase); _exit(130); }
int main(int argc, char **argv) {
  if (!getenv("SIM_CHILD")) {
    personality(ADDR_NO_RANDOMIZE); setenv("SIM_CHILD", "1", 1); setenv("TZ", "UTC", 1); setenv("LC_ALL", "C", 1);
    setenv("HOME", "/nonexistent", 1); setenv("USER", "sim", 1);
    execv("/proc/self/exe", argv); return 90;
  }
  tzset();
  std::string mode = argc > 1 ? argv[1] : "";
  const char *profile = "core", *file = "", *cls = ""; uint64_t seed = 1, max = 0; double secs = 10; int jobs = 8;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-v") g_verbose = true; else if (a == "-e") verboseErr = true;
    else if (i + 1 < argc) {
      if (a == "--profile") profile = argv[++i]; else if (a == "--seed") seed = strtoull(argv[++i], 0, 10); else if (a == "--secs") secs = atof(argv[++i]);
      else if (a == "--runs") max = strtoull(argv[++i], 0, 10); else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--file") file = argv[++i]; else if (a == "--class") cls = argv[++i];
    }
  }
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  RES = &SH->res;
  snapshotProxyImage();
  strcpy(scratchBase, "/dev/shm/ctrlsim.XXXXXX");
  if (!mkdtemp(scratchBase)) { strcpy(scratchBase, "/tmp/ctrlsim.XXXXXX"); if (!mkdtemp(scratchBase)) return 91; }
  signal(SIGTERM, onTerm); signal(SIGINT, onTerm);
  int rc = 92;
  if (mode == "sweep") rc = sweep(profile, seed, secs, max, jobs);
  else if (mode == "run") {
    Plan p; memset(&p, 0, sizeof p); strncpy(p.profile, profile, 39); p.seed = seed; if (*file) p.opsFile = realpath(file, 0);
    char dir[96]; snprintf(dir, sizeof dir, "%s/run", scratchBase);
    runOne(p, dir);
    for (int i = 0; i < RES->nviol; i++) printf("VIOL %s: %s\n", RES->v[i].cls, RES->v[i].detail);
    printf("hash %016llx shape %016llx sim %.3f ops %d\n", (unsigned long long)RES->hash, (unsigned long long)RES->shape, RES->sim * 1e-6, RES->ops);
    rc = RES->nviol ? 1 : 0;
  } else if (mode == "ops") { for (auto &o : generate(profile, seed).ops) printf("op %s\n", opText(o).c_str()); rc = 0; }
  else if (mode == "min") rc = minimise(profile, seed, cls, file, secs);
  else if (mode == "replay") rc = replay(file);
  else if (mode == "profiles") { for (auto &p : profiles()) printf("%s\n", p.c_str()); rc = 0; }
  fflush(stdout);
  rmTree(scratchBase);
  _exit(rc);
}
