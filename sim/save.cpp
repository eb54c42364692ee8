// The saved configuration: what the files in the configuration directory say, compared with what they should say
// after a save, and the faults that can hit a save.
#include "world.h"
#include <algorithm>
#include <dirent.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
namespace {
typedef std::map<std::string, std::string> Kv;
struct NetSem { Kv kv; std::vector<std::string> servers, autocmd; std::map<std::string, std::string> join, keys; std::string file; };
struct Sem { std::map<std::string, NetSem> nets; std::set<std::string> listeners, autoconnect; Kv global; std::string error; };
struct { bool on = false; Sem base; std::vector<Sem> also; bool pending = false, faulty = false; usec at = 0; std::map<std::string, std::string> before; int left = 0; int hits = 0; bool window = false, used = false, errors = false; } sv;

std::string str(GKeyFile *k, const char *g, const char *key) { char *x = g_key_file_get_string(k, g, key, nullptr); std::string r = x ? x : ""; g_free(x); return r; }
std::vector<std::string> list(GKeyFile *k, const char *g, const char *key) {
  gsize n = 0; char **x = g_key_file_get_string_list(k, g, key, &n, nullptr); std::vector<std::string> r; for (gsize i = 0; x && i < n; i++) r.push_back(x[i]); g_strfreev(x); return r;
}
std::vector<std::string> groups(GKeyFile *k) { gsize n = 0; char **x = g_key_file_get_groups(k, &n); std::vector<std::string> r(x, x + n); g_strfreev(x); return r; }
std::vector<std::string> keysOf(GKeyFile *k, const char *g) { gsize n = 0; char **x = g_key_file_get_keys(k, g, &n, nullptr); std::vector<std::string> r; for (gsize i = 0; x && i < n; i++) r.push_back(x[i]); g_strfreev(x); return r; }
bool isServer(const std::string &g) { return starts(g, "irc://") || starts(g, "ircs://"); }
// irc://host:port, ircs://host, host -> one spelling
std::string normUrl(std::string u, bool ssl) {
  if (starts(u, "ircs://")) { ssl = true; u = u.substr(7); } else if (starts(u, "irc://")) u = u.substr(6);
  size_t c = u.rfind(':'); std::string port = c == std::string::npos ? (ssl ? "994" : "6667") : u.substr(c + 1), host = c == std::string::npos ? u : u.substr(0, c);
  return (ssl ? "ircs://" : "irc://") + lc(host) + ":" + port;
}
NetSem parseNet(GKeyFile *k, const std::string &g, const std::string &file, const std::vector<std::vector<std::string>> &keys, const std::string &name) {
  NetSem s; s.file = file;
  for (auto &x : keysOf(k, g.c_str())) {
    if (x == "servers") { for (auto &u : list(k, g.c_str(), "servers")) { std::string d = normUrl(u, str(k, u.c_str(), "ssl") == "true"); d += " pass=" + str(k, u.c_str(), "password") + " bind=" + str(k, u.c_str(), "bind"); s.servers.push_back(d); } }
    else if (x == "autocmd") s.autocmd = list(k, g.c_str(), "autocmd");
    else if (x == "autojoin") { for (auto &c : list(k, g.c_str(), "autojoin")) s.join[lc(c)] = c; }
    else s.kv[x] = str(k, g.c_str(), x.c_str());
  }
  for (auto &e : keys) if (e[2] == "*" || lc(e[2]) == lc(name)) s.keys[lc(e[0])] = e[1];
  if (g == "global") for (auto &c : groups(k)) if (!isalpha((unsigned char)c[0])) {
    if (str(k, c.c_str(), "autojoin") == "true") s.join[lc(c)] = c;
    std::string key = str(k, c.c_str(), "key"); if (!key.empty()) s.keys[lc(c)] = key;
  }
  return s;
}
std::vector<std::string> dirFiles(const char *d) { std::vector<std::string> r; if (DIR *x = opendir(d)) { while (struct dirent *e = readdir(x)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(x); } std::sort(r.begin(), r.end()); return r; }
Sem readDir() {
  Sem s;
  std::vector<std::vector<std::string>> keys;
  for (auto &ln : split(slurp("cfg/keys"), '\n')) { if (ln.empty() || ln[0] == ';') continue; auto w = split(ln, '\t'); if (w.size() < 2) { s.error = "cfg/keys: '" + ln + "'"; continue; } if (w.size() < 3) w.push_back("*"); keys.push_back(w); }
  GKeyFile *k = g_key_file_new();
  if (!g_key_file_load_from_file(k, "cfg/config", G_KEY_FILE_NONE, nullptr)) s.error = "cfg/config cannot be parsed";
  for (auto &g : groups(k)) {
    if (g == "global") { for (auto &x : keysOf(k, "global")) { if (x == "autoconnect") { for (auto &a : list(k, "global", "autoconnect")) s.autoconnect.insert(a); } else s.global[x] = str(k, "global", x.c_str()); } }
    else if (g == "socks") { std::string pt = str(k, "socks", "port"), d = "socks " + (pt.empty() ? "1080" : pt); for (auto &a : list(k, "socks", "allow")) d += " " + a; s.listeners.insert(d); }
    else if (!isServer(g) && g[0] != '#' && g[0] != '&') s.nets[g] = parseNet(k, g, "cfg/config", keys, g);
  }
  if (s.global.count("port")) s.listeners.insert("default " + s.global["bind"] + ":" + s.global["port"] + " pass=" + s.global["password"] + " net=" + s.global["default-network"]);
  g_key_file_free(k);
  for (auto &f : dirFiles("cfg/networks")) {
    k = g_key_file_new(); std::string p = "cfg/networks/" + f;
    if (f[f.size() - 1] == '~') { g_key_file_free(k); continue; }
    if (!g_key_file_load_from_file(k, p.c_str(), G_KEY_FILE_NONE, nullptr)) s.error = p + " cannot be parsed";
    else { if (s.nets.count(f)) s.error = "network " + f + " is there twice"; s.nets[f] = parseNet(k, "global", p, keys, f); }
    g_key_file_free(k);
  }
  if (access("cfg/listener", F_OK) == 0) {
    k = g_key_file_new();
    if (!g_key_file_load_from_file(k, "cfg/listener", G_KEY_FILE_NONE, nullptr)) s.error = "cfg/listener cannot be parsed";
    else for (auto &g : groups(k)) s.listeners.insert(g + " pass=" + str(k, g.c_str(), "password") + " net=" + str(k, g.c_str(), "network") + " ssl=" + (str(k, g.c_str(), "ssl") == "true" ? "1" : "0"));
    g_key_file_free(k);
  }
  return s;
}
const char *DEFAULTS[][2] = {{"autosave", "true"}, {"learn-nickserv", "true"}, {"learn-network-name", "true"}, {"create-implicit", "true"}, {"admin-log", "true"}, {"max-who-age", "0"}, {"report-time-offset", "0"}, {"report-time", "never"}, {"logging", "none"}, {"auto-away-enable", "false"}, {"auto-away-client-limit", "-1"}, {"auto-away-time", "-1"}, {"ssl", "false"}, {"listener-auto", "false"}, {"replication", "none"}};
std::string dflt(const std::string &k) { for (auto &d : DEFAULTS) if (k == d[0]) return d[1]; return ""; }
bool same(std::string a, std::string b) {
  auto n = [](std::string x) { x = lc(x); if (x == "1" || x == "yes") return std::string("true"); return x; };
  return n(a) == n(b);
}
std::string join(const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += (r.empty() ? "" : ", ") + x; return r; }
bool keyVaried(Net *n, const std::string &c, const std::string &k) { if (!n) return false; auto it = n->hist.find(c); if (it == n->hist.end()) return false; for (auto &h : it->second) if (h.second.key != k) return true; return false; }
Net *netNamed(const std::string &x) { for (auto n : W.nets) if (n->def.name == x) return n; return nullptr; }
struct Diff { std::string unit, cls, text, net; };
void cmpKv(const Kv &old, const Kv &now, const std::string &what, const std::string &unit, std::set<std::string> except, std::vector<Diff> &out) {
  for (auto &p : old) if (!except.count(p.first)) {
    auto it = now.find(p.first); std::string v = it == now.end() ? dflt(p.first) : it->second;
    if (!same(v, p.second)) out.push_back({unit, "P16.setting", strf("%s: %s was '%s', after saving it is '%s'", what.c_str(), p.first.c_str(), esc(p.second).c_str(), it == now.end() ? "(nothing)" : esc(v).c_str())});
  }
  for (auto &p : now) if (!except.count(p.first) && !old.count(p.first) && !same(p.second, dflt(p.first)))
    out.push_back({unit, "P16.setting", strf("%s: saving added %s = '%s'", what.c_str(), p.first.c_str(), esc(p.second).c_str())});
}
// what the files say now against what they said before, plus what has happened on the networks since
std::vector<Diff> compare(const Sem &old, const Sem &now) {
  std::vector<Diff> d;
  if (!now.error.empty()) d.push_back({"", "P16.file", now.error});
  for (auto &p : old.nets) if (!now.nets.count(p.first)) d.push_back({p.second.file, "P16.network", "network " + p.first + " is gone after saving"});
  for (auto &p : now.nets) if (!old.nets.count(p.first)) d.push_back({p.second.file, "P16.network", "saving added a network " + p.first});
  for (auto &p : now.nets) {
    auto it = old.nets.find(p.first); if (it == old.nets.end()) continue;
    const NetSem &o = it->second, &x = p.second; Net *n = netNamed(p.first); std::string u = x.file, w = "network " + p.first;
    cmpKv(o.kv, x.kv, w, u, {"nick"}, d);
    std::string on = o.kv.count("nick") ? o.kv.at("nick") : "", xn = x.kv.count("nick") ? x.kv.at("nick") : "";
    if (xn != on && !(n && n->saved.nicks.count(xn))) d.push_back({u, "P16.nick", strf("%s: nick '%s', after saving '%s'", w.c_str(), on.c_str(), xn.c_str())});
    if (n && !n->saved.nicks.empty() && !n->saved.nicks.count(xn.empty() ? now.global.count("default-nick") ? now.global.at("default-nick") : "" : xn)) d.push_back({u, "P16.nick", strf("%s: saved nick '%s', the user is %s", w.c_str(), xn.c_str(), n->saved.nicks.begin()->c_str())});
    if (o.servers != x.servers) d.push_back({u, "P16.servers", strf("%s: servers %s, after saving %s", w.c_str(), join(o.servers).c_str(), join(x.servers).c_str())});
    if (o.autocmd != x.autocmd) d.push_back({u, "P16.setting", strf("%s: startup commands '%s', after saving '%s'", w.c_str(), join(o.autocmd).c_str(), join(x.autocmd).c_str())});
    std::map<std::string, MustJoin> want;
    if (n) want = n->saved.rejoin; else for (auto &c : o.join) { MustJoin m; m.name = c.second; if (o.keys.count(c.first)) m.key = o.keys.at(c.first); want[c.first] = m; }
    for (auto &c : want) if (c.second.must && !x.join.count(c.first)) d.push_back({u, "P16.channels", strf("%s: %s is not saved as a channel to join", w.c_str(), c.second.name.c_str())});
    for (auto &c : x.join) if (!want.count(c.first)) d.push_back({u, "P16.channels", strf("%s: %s is saved as a channel to join", w.c_str(), c.second.c_str())});
    for (auto &c : want) if (c.second.must && c.second.keyKnown && !c.second.key.empty()) {  /* a key too many does no harm */ std::string k = x.keys.count(c.first) ? x.keys.at(c.first) : ""; if (k != c.second.key) d.push_back({"cfg/keys", "P16.keys", strf("%s: the key of %s is '%s', saved is '%s'", w.c_str(), c.second.name.c_str(), c.second.key.c_str(), k.c_str()), u}); }
    for (auto &c : o.keys) if (!want.count(c.first) && !keyVaried(n, c.first, c.second)) { std::string k = x.keys.count(c.first) ? x.keys.at(c.first) : ""; if (k != c.second) d.push_back({"cfg/keys", "P16.keys", strf("%s: the key of %s was '%s', after saving '%s'", w.c_str(), c.first.c_str(), c.second.c_str(), k.c_str()), u}); }
    for (auto &c : x.keys) if (!n && !o.keys.count(c.first)) d.push_back({"cfg/keys", "P16.keys", strf("%s: saving added a key for %s", w.c_str(), c.first.c_str()), u});
  }
  for (auto &l : old.listeners) if (!now.listeners.count(l)) d.push_back({starts(l, "socks") || starts(l, "default") ? "cfg/config" : "cfg/listener", "P16.listener", "listener '" + l + "' is gone after saving"});
  for (auto &l : now.listeners) if (!old.listeners.count(l)) d.push_back({starts(l, "socks") || starts(l, "default") ? "cfg/config" : "cfg/listener", "P16.listener", "saving added the listener '" + l + "'"});
  cmpKv(old.global, now.global, "global setting", "cfg/config", {"motd-file"}, d);
  for (auto n : W.nets) {
    bool is = now.autoconnect.count(n->def.name);
    if (n->saved.wantKnown && is != n->saved.want) d.push_back({"cfg/config", "P16.autoconnect", strf("network %s is %s, saved as %s", n->def.name.c_str(), n->saved.want ? "connected" : "disconnected", is ? "to be connected" : "not to be connected")});
  }
  for (auto &a : now.autoconnect) if (!netNamed(a) && !old.autoconnect.count(a)) d.push_back({"cfg/config", "P16.autoconnect", strf("%s is saved as to be connected", a.c_str())});
  return d;
}
std::map<std::string, std::string> snapshot() {
  std::map<std::string, std::string> m;
  for (auto f : {"cfg/config", "cfg/keys", "cfg/listener"}) m[f] = access(f, F_OK) == 0 ? "+" + slurp(f) : "";
  for (auto &f : dirFiles("cfg/networks")) m["cfg/networks/" + f] = "+" + slurp("cfg/networks/" + f);
  return m;
}
void check(const char *when) {
  if (g_verbose) tracef("cfg/config: %s", esc(slurp("cfg/config"), 1500).c_str());
  if (!sv.on) return;
  Sem now = readDir();
  auto d = compare(sv.base, now);
  if (sv.faulty) {        // each file as it was, or as it should have become
    auto cur = snapshot(); std::vector<Diff> r;
    for (auto &p : sv.before) if (!p.second.empty() && !cur.count(p.first)) r.push_back({p.first, "P16.file", p.first + " is gone"});
    for (auto &x : d) {
      if (!x.unit.empty() && cur[x.unit] == sv.before[x.unit]) continue;
      if (!x.net.empty() && cur[x.net] == sv.before[x.net]) continue;
      r.push_back(x);
    }
    d = r; stats.add("chk.save_faulty");
  }
  if (!d.empty()) { violation(d[0].cls, d[0].text + strf(" (%s%s)", when, sv.faulty ? ", the save was disturbed" : "")); return; }
  stats.add("chk.save_compared");
  if (!sv.faulty) sv.base = now;
}
}
void saveInit() { sv.on = W.s.checkSave; if (sv.on) sv.base = readDir(); }
int saveAt() {       // 0: normal, 1: there may be a crash, 2: there may be errors
  if (!sv.on) return 0;
  sv.pending = true; sv.at = K.now;
  if (sv.window && !sv.used) { sv.used = true; return sv.errors ? 2 : 1; }
  sv.window = sv.faulty = false; K.diskFault = nullptr; return 0;
}
void saveQuiet() {
  if (!sv.on) return;
  sv.window = false; K.diskFault = nullptr; K.crashAtDiskOp = 0;
  if (sv.pending) { sv.pending = false; check("saved"); }
  if (proxyUp()) {
    for (size_t i = 0; i <= W.nets.size(); i++) { int p = i ? 6099 + (int)i : 6000; if (!listening(p, "")) violation("P16.listener", strf("nothing listens on port %d any more", p)); }
    for (auto &l : sv.base.listeners) if (starts(l, "default") || starts(l, "socks")) { auto w = split(l, ' '); if (starts(l, "socks") && !isdigit((unsigned char)l[6])) w[1] = "1080"; int p = atoi(starts(l, "socks") ? w[1].c_str() : w[1].substr(w[1].rfind(':') + 1).c_str()); if (!listening(p, "")) violation("P16.listener", strf("nothing listens on port %d any more", p)); }
  }
}
void saveReboot() {
  if (!sv.on) return;
  sv.window = false; K.diskFault = nullptr; K.crashAtDiskOp = 0;
  sv.pending = false;
  check("restarting");
  sv.faulty = false; sv.base = readDir(); K.powerLoss = K.crashTorn = false;
}
// the next save meets a fault
void saveFault(const Op &o) {
  if (!sv.on) return;
  sv.before = snapshot(); sv.faulty = true; sv.window = true; sv.used = false; sv.hits = 0;
  int kind = o.b % 4; sv.errors = kind > 1; sv.left = 1 + o.c % 45; uint64_t salt = o.d;
  if (kind <= 1) { K.crashTorn = o.d & 1; K.powerLoss = o.d & 2; }
  K.diskFault = [kind, salt](const char *op, const std::string &path, size_t len, size_t &allow) -> int {
    if (!sv.window || path.find("linestack") != std::string::npos || !strcmp(op, "open_r") || !strcmp(op, "read") || !strcmp(op, "slurp") || !strcmp(op, "seek") || !strcmp(op, "opendir")) return 0;
    sv.hits++;
    if (kind <= 1) { if (sv.hits == sv.left) { K.crashAtDiskOp = K.diskOps; W.bootAt = K.now + 500 * MS; stats.add("fault.crash_in_save"); } return 0; }
    uint64_t h = hashn(K.seed, salt, sv.hits);
    if (kind == 2) { if (h % 100 >= 12) return 0; if (!strcmp(op, "write") && (h & 1024)) { allow = len ? (h >> 20) % len : 0; return 0; } return (h & 2048) ? ENOSPC : EIO; }
    // a full disk from some point on
    if (sv.hits < sv.left) return 0;
    if (!strcmp(op, "write")) { if (sv.hits == sv.left) allow = (h >> 20) % (len + 1); else allow = 0; return 0; }
    return (!strcmp(op, "mkdir") || !strcmp(op, "open_w") || !strcmp(op, "fsync")) && (h & 4096) ? ENOSPC : 0;
  };
}
