#include <dirent.h>
#include <glib.h>
// Administration: commands given by attached clients, over the administration socket and on the administration
// network, against a small model of the networks, servers, listeners and settings they change (P22).
//
// One command is under way at a time. Each is followed by an ECHO with a text of its own, so that everything between
// is the answer. A fresh console asks for all lists at every quiet point and compares them with the model.
#include "world.h"
#include <algorithm>
#include <functional>
typedef std::vector<std::string> Out;
namespace {
bool ends(const std::string &s, const std::string &e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
bool starts(const std::string &s, const std::string &p) { return !s.compare(0, p.size(), p); }
struct ANet { std::string name; std::vector<std::string> servers; Net *n = nullptr; bool virt = false; };
struct Console;
struct Job {
  Op o; bool audit = false; int way = 0; CInst *cl = nullptr; Console *con = nullptr; std::string text, tok, cmdName; Out out;
  std::function<void(Job &)> done; bool closes = false, partial = false; usec t = 0; int lives = 0; std::vector<Net *> touched; std::set<Net *> shuts;
};
struct Model { std::vector<ANet> nets; std::map<std::string, std::string> set; std::map<std::string, bool> unsure; };
Model M, saved; bool haveSettings = false;
std::vector<std::string> lst, lst0;             // listeners
Job *cur = nullptr; std::deque<Op> todo; int tokNo = 0; bool auditing = false; size_t auditAt = 0; int dials0 = 0;
struct Dial { Net *n; std::string host; usec t; };
std::vector<Dial> dials;
std::map<std::string, std::pair<std::string, std::string>> extra;   // port -> password, network
const std::string UNSET = "\1";
void pump(); void finish(bool answered);
struct Console : Remote {
  Conn *c = nullptr; bool virt = false, dead = false, in = false; std::string buf, label;
  void onConnected(Conn *) override {}
  void onClosed(Conn *, bool) override {
    if (dead) return; dead = true; tracef("%s closed by the proxy", label.c_str());
    if (cur && cur->con == this && cur->lives == W.lives && proxyUp()) { if (!cur->closes) violation("P22.unanswered", strf("%s was closed when it gave the command '%s'", label.c_str(), esc(cur->text).c_str())); finish(true); }
  }
  void onData(Conn *, const std::string &d) override {
    buf += d; size_t p;
    while ((p = buf.find('\n')) != std::string::npos) {
      std::string raw = buf.substr(0, p); buf.erase(0, p + 1); if (!raw.empty() && raw.back() == '\r') raw.pop_back();
      if (g_verbose) tracef("%s< %s", label.c_str(), esc(raw).c_str());
      if (virt) {
        Line l = parseLine(raw);
        if (l.cmd == "PING") { c->send("PONG :" + l.arg(0) + "\r\n"); continue; }
        if (l.cmd == "PONG" && !in) { in = true; pump(); continue; }
        if (l.cmd != "PRIVMSG" || !starts(l.prefix, "ctrlproxy!")) continue;
        if (!ieq(l.arg(0), "#ctrlproxy")) violation("P22.answer", strf("%s was sent '%s'", label.c_str(), esc(raw).c_str()));
        raw = l.arg(1);
      }
      answer(raw);
    }
  }
  void answer(const std::string &t) {
    if (!cur || cur->con != this) { violation("P22.other", strf("%s was shown '%s' although it gave no command", label.c_str(), esc(t).c_str())); return; }
    if (t == cur->tok) { finish(true); return; }
    cur->out.push_back(t);
  }
};
Console *sockCon = nullptr, *virtCon = nullptr;
int consoleFor = -1;
Console *console(bool virt, bool fresh, Rng &r, int uid) {
  if (consoleFor == uid) fresh = false; consoleFor = uid;
  Console *&slot = virt ? virtCon : sockCon;
  if (slot && !slot->dead && !fresh) return slot;
  if (slot && !slot->dead && fresh) { slot->dead = true; slot->c->closeRemote(r.chance(.3)); slot = nullptr; stats.add("fault.console_leaves"); }
  if (slot && slot->dead) slot = nullptr;
  Console *x = new Console(); x->virt = virt; static int no = 0; x->label = strf("console%d", ++no);
  NetCfg cfg = W.s.cli; Op o; o.c = r.below(1000); netcfgFor(o, cfg); if (r.chance(.5)) cfg = NetCfg();
  if (!virt) cfg.sndcap = NetCfg().sndcap;      // local sockets hold far more than any answer
  x->c = virt ? dialProxy(6000, "", x, cfg, x->label, "cli.test") : dialProxy(0, "cfg/admin", x, cfg, x->label, "");
  if (!x->c) { delete x; return nullptr; }
  if (virt) x->c->send("PASS " + W.s.password + ":ctrl\r\nNICK admin\r\nUSER adm 0 * :Adm\r\nPING :ready\r\n"); else x->in = true;
  return slot = x;
}
ANet *anet(const std::string &name) { for (auto &a : M.nets) if (ieq(a.name, name)) return &a; return nullptr; }
ANet *anet(Net *n) { for (auto &a : M.nets) if (a.n == n) return &a; return nullptr; }
std::string mix(std::string s, Rng &r) { if (r.chance(.6)) return s; bool low = r.chance(.5); for (auto &c : s) c = low || r.chance(.5) ? tolower(c) : toupper(c); return s; }
std::string serverText(const SrvDef &v) { return strf("%s:%d", v.host.c_str(), v.port); }
bool liveSession(Net *n) { for (auto s : n->sessions) if (s->c && s->c->fdOpen) return true; return false; }
void need(Job &j, const char *what) { if (j.out.empty()) violation("P22.answer", strf("no answer to '%s' (%s)", esc(j.text).c_str(), what)); }
bool has(const Out &o, const std::string &t) { for (auto &x : o) if (x.find(t) != std::string::npos) return true; return false; }
// the network goes down or up because of the command: nothing else can be told before it is answered
void cutShort(Net *);
void unsettle(Job &j, Net *n, bool closes) {
  j.touched.push_back(n); n->wantKnown = false; if (closes) { j.shuts.insert(n); cutShort(n); }
  if (closes) for (auto c : W.clients) if (c->n == n && c->alive()) for (auto s : n->sessions) if (s->c && s->c->fdOpen) { c->splitSess = s->id; c->splitQuit = true; c->splitHosts.insert(s->host()); }
  if (closes) for (auto s : n->sessions) if (s->st != Session::CLOSED || (s->c && s->c->fdOpen)) s->expectClose = true;
}
// the connection is cut at a moment of the proxy's choosing: what it has not read yet is lost
void cutShort(Net *n) {
  for (auto s : n->sessions) if (s->st == Session::CLOSED && s->c && s->c->fdOpen) {
    size_t from = std::max(n->quietIdx, s->evFrom); if (from < n->evs.size()) n->lossy.push_back({from, n->evs.size()});
    for (auto &m : n->rejoin) m.second.must = m.second.keyKnown = false;
  }
}
void loginsUnderWay(Net *n) { for (auto c : W.clients) if (c->n == n && c->alive() && !c->welcomed) { n->wantKnown = false; n->want = true; } }
int dialsSince(Net *n, usec t, std::string &last) { int k = 0; for (auto &d : dials) if (d.n == n && d.t >= t) { k++; last = d.host; } return k; }
std::string lastDial(Net *n, usec before) { std::string h; for (auto &d : dials) if (d.n == n && d.t < before) h = d.host; return h; }
// ---------------------------------------------------------------- settings
struct SetDef { const char *name; char kind; std::vector<std::string> good, bad; };
const std::vector<SetDef> &defs() {
  static const std::vector<SetDef> d = {
    {"admin-log", 'b', {"false", "FALSE"}, {"maybe", "1", "yes please"}}, {"admin-user", 's', {"proxyadm", "padmin2"}, {}},
    {"auto-away-enable", 'b', {"false"}, {"maybe", "2", "truee"}}, {"auto-away-client-limit", 'i', {"-1", "0", "3", "12"}, {"few", "3x", "", "99999999999999"}},
    {"auto-away-message", 's', {"gone", "I am away now", "back: soon; really"}, {}}, {"auto-away-nick", 's', {"awaynick", "gonenick"}, {}},
    {"auto-away-time", 'i', {"-1", "300", "77"}, {"later", "5m", "1 2"}}, {"autosave", 'b', {"true", "false", "True"}, {"maybe", "0", "off"}},
    {"bind", 'n', {}, {"127.0.0.1"}}, {"default-client-charset", 'c', {}, {"nonsense", "utf-99"}}, {"default-network", 'n', {}, {"net0"}},
    {"learn-network-name", 'b', {"true", "false"}, {"x"}}, {"learn-nickserv", 'b', {"true", "false"}, {"maybe", "tru"}},
    {"log_level", 'l', {"0", "3", "5"}, {"9", "-1", "high", "2x"}}, {"logging", 'x', {}, {"irssi", "none", "custom"}},
    {"max_who_age", 'z', {"0"}, {"old", "1h"}}, {"motd-file", 'f', {"cfg/motd1", "cfg/motd2"}, {"cfg/nothere", "/nonexistent/motd"}},
    {"password", 'n', {}, {"newpw"}}, {"port", 'n', {}, {"6667"}}, {"report-time", 'r', {"never", "replication", "false", "true"}, {"sometimes", "neverr"}},
    {"report-time-offset", 'z', {"0", "3600", "-60"}, {"x", "1.5"}}, {"replication", 'p', {"none"}, {"foo", "simpl", "simple x"}},
    {"default-nick", 'd', {"mynick"}, {":x", "a b"}}, {"default-username", 'd', {"myuser"}, {":x", "a b"}}, {"default-fullname", 'D', {"My Name"}, {}},
  };
  return d;
}
std::string canon(const SetDef &d, const std::string &v) {
  switch (d.kind) {
  case 'b': return lc(v);
  case 'r': return v == "true" ? "replication" : v == "false" ? "never" : v;
  case 'z': return v == "0" ? UNSET : v;
  default: return v;
  }
}
std::string shown(const std::string &v) { return v == UNSET ? "(not set)" : v; }
std::string unsetValue(const SetDef &d, bool &ok) {
  ok = true;
  switch (d.kind) {
  case 's': case 'p': case 'f': return UNSET;
  case 'i': return "-1";
  case 'z': return UNSET;
  case 'r': return "never";
  case 'c': return UNSET;
  default: ok = false; return "";
  }
}
bool settingLine(const std::string &l, std::string &k, std::string &v) {
  size_t p = l.find(" = "); if (p != std::string::npos) { k = l.substr(0, p); v = l.substr(p + 3); return true; }
  p = l.find(" is not set"); if (p != std::string::npos) { k = l.substr(0, p); v = UNSET; return true; }
  return false;
}
void settingsListed(Job &j) {
  std::map<std::string, std::string> got; std::string k, v;
  for (auto &l : j.out) if (!settingLine(l, k, v)) violation("P22.answer", strf("SET shows '%s'", esc(l).c_str())); else if (!got.insert({k, v}).second) violation("P22.settings", strf("SET shows %s twice", k.c_str()));
  for (auto &d : defs()) if (!got.count(d.name)) violation("P22.settings", strf("SET does not show %s", d.name));
  if (!haveSettings) {
    for (auto &p : W.s.global) { std::string key = p.first == "max-who-age" ? "max_who_age" : p.first; for (auto &d : defs()) if (key == d.name && !M.set.count(key) && got[d.name] != canon(d, p.second)) violation("P22.settings", strf("%s is configured to be '%s', but SET shows '%s'", d.name, p.second.c_str(), shown(got[d.name]).c_str())); }
    for (auto &p : got) if (!M.set.count(p.first)) M.set[p.first] = p.second;
    haveSettings = true;
  }
  for (auto &d : defs()) {
    if (M.unsure[d.name]) { M.set[d.name] = got[d.name]; M.unsure[d.name] = false; continue; }
    stats.add("chk.setting");
    if (M.set[d.name] != got[d.name]) violation("P22.settings", strf("setting %s is '%s' and not '%s'", d.name, shown(got[d.name]).c_str(), shown(M.set[d.name]).c_str()));
  }
}
void networksListed(Job &j) {
  std::map<std::string, int> got;
  for (auto &l : j.out) { size_t p = l.find(": "); if (p == std::string::npos) { violation("P22.answer", strf("the list of networks has '%s'", esc(l).c_str())); continue; } got[lc(l.substr(0, p))]++; }
  for (auto &a : M.nets) if (got[lc(a.name)] != 1) violation("P22.networks", strf("network %s is listed %d times", a.name.c_str(), got[lc(a.name)]));
  for (auto &g : got) if (!anet(g.first)) violation("P22.networks", strf("there is a network %s nobody added", g.first.c_str()));
  stats.add("chk.networks", M.nets.size());
  // what is known about the connections for certain
  if (netQuiet()) for (auto &a : M.nets) if (a.n) for (auto &l : j.out) if (starts(lc(l), lc(a.name) + ": ")) {
    bool conn = has({l}, ": connected"), off = has({l}, ": Not connected"); Net *n = a.n; stats.add("chk.network_state");
    if (n->ready() && n->sess->proxyReady && K.now - n->sess->proxyReadyAt > 1 * SEC && n->sess->born < j.t && !conn && !n->sess->c->remoteClosed) violation("P22.networks", strf("'%s' although the network is connected", esc(l).c_str()));
    if (!n->want && n->wantKnown && K.now - n->downSince > 1 * SEC && !off) violation("P22.networks", strf("'%s' although the network was disconnected", esc(l).c_str()));
  }
}
void serversListed(Job &j, const std::string &name) {
  ANet *a = anet(name); if (!a || a->virt) return;
  Out got; for (auto &l : j.out) { size_t p = l.find(".test:"); if (!starts(l, "  ") || p == std::string::npos) continue; std::string t = l.substr(2); t = t.substr(0, t.find(' ')); if (starts(t, "s") || starts(t, "p")) got.push_back(t); }
  stats.add("chk.servers");
  if (got != a->servers) { std::string x, y; for (auto &s : got) x += " " + s; for (auto &s : a->servers) y += " " + s; violation("P22.servers", strf("network %s has the servers%s instead of%s", a->name.c_str(), x.c_str(), y.c_str())); }
}
void listenersListed(Job &j) {
  Out got; for (auto &l : j.out) { if (starts(l, "Listening")) continue; std::string t = l.substr(0, l.find(' ')); if (!t.empty() && t[0] == ':') t = t.substr(1); got.push_back(t); }
  Out want = lst; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); stats.add("chk.listeners");
  if (got != want) { std::string x, y; for (auto &s : got) x += " " + s; for (auto &s : want) y += " " + s; violation("P22.listeners", strf("the listeners are%s instead of%s", x.c_str(), y.c_str())); }
}
int portOf(const std::string &l) { return atoi(l.substr(l.find(':') == std::string::npos ? 0 : l.find(':') + 1).c_str()); }
void listenersWork() {
  for (auto &l : lst) if (!listening(portOf(l), "")) violation("P22.listeners", strf("nothing listens on port %d", portOf(l)));
  for (int p = 6200; p < 6206; p++) { bool is = false; for (auto &l : lst) if (portOf(l) == p) is = true; if (!is && listening(p, "")) violation("P22.listeners", strf("something still listens on port %d", p)); }
}
// ---------------------------------------------------------------- the commands
void networkGone(ANet a) {
  Net *n = a.n;
  M.nets.erase(std::remove_if(M.nets.begin(), M.nets.end(), [&](ANet &x) { return ieq(x.name, a.name); }), M.nets.end());
  if (!n) return;
  n->absent = true; n->want = false; n->wantKnown = true; n->noListener = true; n->rejoin.clear(); n->knownKey.clear();
  if (liveSession(n)) violation("P22.effect", strf("network %s was deleted but its connection is still open", a.name.c_str()));
  n->def.chans.clear(); n->def.autocmd.clear(); n->def.bare = true; n->def.nick = "mynick"; n->def.username = "myuser"; n->def.fullname = "My Name"; n->def.ignoreFirst = false; n->def.reconnect = -1;
  for (auto &v : n->srv) v.def.pass.clear();
  for (auto &v : n->def.servers) v.pass.clear();
  n->nickOk.clear(); n->nickOk.insert(n->def.nick); n->attachNicks.clear(); n->mem = n->memOld = n->nextLogin(true);
}
// the configuration on disk has the networks there are, with their servers, and no others
void configSaved() {
  std::map<std::string, std::string> on; std::string body;       // name -> servers
  auto take = [&](const std::string &path, bool main) {
    GKeyFile *k = g_key_file_new(); if (!g_key_file_load_from_file(k, path.c_str(), G_KEY_FILE_NONE, nullptr)) { g_key_file_free(k); violation("P22.saved", path + " cannot be parsed"); return; }
    char **g = g_key_file_get_groups(k, nullptr); std::set<std::string> hosts;
    for (int i = 0; g[i]; i++) {
      std::string nm = g[i]; if (main && (nm == "global" || nm == "socks" || nm.find(':') != std::string::npos)) continue; if (!main && nm != "global") continue;
      char *s = g_key_file_get_string(k, g[i], "servers", nullptr); on[lc(main ? nm : path.substr(path.rfind('/') + 1))] += s ? s : ""; g_free(s);
    }
    g_strfreev(g); g_key_file_free(k);
  };
  take("cfg/config", true);
  if (DIR *x = opendir("cfg/networks")) { std::vector<std::string> fs; while (struct dirent *e = readdir(x)) if (e->d_name[0] != '.') fs.push_back(e->d_name); closedir(x); for (auto &f : fs) take("cfg/networks/" + f, false); }
  for (auto &a : M.nets) {
    stats.add("chk.saved_network"); auto it = on.find(lc(a.name));
    if (it == on.end()) { violation("P22.saved", strf("network %s is not in the saved configuration", a.name.c_str())); continue; }
    if (!a.virt) for (auto &s : a.servers) if (it->second.find(s.substr(0, s.find(':'))) == std::string::npos) violation("P22.saved", strf("server %s of %s is not in the saved configuration: '%s'", s.c_str(), a.name.c_str(), it->second.c_str()));
  }
  for (auto &x : on) if (!anet(x.first)) violation("P22.saved", strf("the saved configuration has a network '%s', which does not exist", x.first.c_str()));
}
// makes up a command; false if there is nothing to do
bool make(Job &j, Rng &r) {
  const Op &o = j.o; std::string t = strf("zqa%d", ++tokNo); j.tok = t + "e";
  auto real = [&]() -> ANet * { std::vector<ANet *> v; for (auto &a : M.nets) if (a.n) v.push_back(&a); return v.empty() ? nullptr : v[r.below(v.size())]; };
  auto any = [&]() -> ANet * { return M.nets.empty() ? nullptr : &M.nets[r.below(M.nets.size())]; };
  auto ph = [&]() -> ANet * { std::vector<ANet *> v; for (auto &a : M.nets) if (!a.n && !a.virt) v.push_back(&a); return v.empty() ? nullptr : v[r.below(v.size())]; };
  auto fails = [&](const char *what) { j.done = [what](Job &j) { need(j, what); }; };
  bool inGroup = j.cl != nullptr;
  switch ((unsigned)o.b % 25) {
  case 0: j.text = mix("ECHO", r) + " " + t + "x"; j.done = [t](Job &j) { if (!has(j.out, t + "x")) violation("P22.answer", strf("'%s' is not answered with its text", j.text.c_str())); }; break;
  case 1: {
    static const char *B[] = {"%sfoo bar", "NETWORK", "NETWORK %s", "NETWORK ADD", "NETWORK DEL", "NETWORK INFO", "NETWORK RENAME x", "ADDNETWORK", "DELNETWORK", "DELNETWORK %s", "NETWORK DEL %s", "NETWORK INFO %s", "NETWORK RENAME %s b%s", "ADDSERVER", "ADDSERVER %s", "ADDSERVER %s p0.test", "CONNECT", "CONNECT %s", "DISCONNECT %s", "NEXTSERVER %s", "STARTLISTENER", "STARTLISTENER 6200", "STARTLISTENER 6200 pw %s", "STOPLISTENER", "STOPLISTENER 7%s", "UNSET", "SET %s", "SET %s x", "UNSET %s", "CHARSET", "CHARSET %s", "DUMPJOINEDCHANNELS %s", "HELP %s", "HELP", "ECHOO", "%s", "NETWORK LISTT", "ADDNETWORK a/%s", "ADDNETWORK ../%s", "NETWORK ADD #%s", "BACKLOG"};
    size_t i = r.below(sizeof(B) / sizeof(*B));
    if (!strcmp(B[i], "BACKLOG") && j.way < 3) return false;
    j.text = strf(B[i], t.c_str(), t.c_str()); size_t sp = j.text.find(' '); j.text = mix(j.text.substr(0, sp), r) + (sp == std::string::npos ? "" : j.text.substr(sp)); fails("it cannot work"); stats.add("fault.bad_command"); break;
  }
  case 2: case 3: j.text = mix(r.chance(.6) ? "NETWORK LIST" : "LISTNETWORKS", r); j.done = networksListed; break;
  case 4: { ANet *a = any(); if (!a) return false; std::string nm = a->name; j.text = "NETWORK " + mix("INFO", r) + " " + mix(nm, r); j.done = [nm](Job &j) { need(j, "network info"); serversListed(j, nm); }; break; }
  case 5: j.text = mix("SET", r); j.done = settingsListed; break;
  case 6: {
    const SetDef &d = defs()[r.below(defs().size())]; std::string nm = d.name; if (!haveSettings) return false;
    j.text = "SET " + mix(nm, r);
    j.done = [nm](Job &j) { need(j, "showing a setting"); if (j.out.empty() || M.unsure[nm]) return; std::string v = M.set[nm], l = j.out[0], k, g; stats.add("chk.setting"); if (v == UNSET ? l.find("not set") == std::string::npos : l != v && !(settingLine(l, k, g) && g == v)) violation("P22.settings", strf("'%s' shows '%s', not '%s'", j.text.c_str(), esc(l).c_str(), shown(v).c_str())); };
    break;
  }
  case 7: case 8: case 9: case 10: {
    const SetDef &d = defs()[r.below(defs().size())]; std::string nm = d.name;
    bool good = !d.good.empty() && (d.bad.empty() || r.chance(.65));
    if (!good && d.bad.empty()) return false;
    std::string v = good ? d.good[r.below(d.good.size())] : d.bad[r.below(d.bad.size())];
    if (nm == "admin-user" && j.way == 2) return false;
    j.text = "SET " + mix(nm, r) + " " + v;
    if (good) { std::string c = canon(d, v); j.done = [nm, c](Job &j) { M.set[nm] = c; M.unsure[nm] = false; stats.add("op.set"); }; M.unsure[nm] = true; }
    else { if (v.empty()) return false; fails("a bad value"); stats.add("fault.bad_value"); }
    break;
  }
  case 11: {
    const SetDef &d = defs()[r.below(defs().size())]; std::string nm = d.name; bool ok; std::string v = unsetValue(d, ok);
    if (nm == "admin-log" || (nm == "admin-user" && j.way == 2)) return false;
    j.text = mix("UNSET", r) + " " + mix(nm, r);
    if (ok) { j.done = [nm, v](Job &j) { M.set[nm] = v; M.unsure[nm] = false; stats.add("op.unset"); }; M.unsure[nm] = true; }
    else if (strchr("nx", d.kind)) { j.done = [nm](Job &) {}; }
    else fails("it needs a value");
    break;
  }
  case 12: {   // a network is added
    std::vector<Net *> ab; for (auto n : W.nets) if (n->absent && !anet(n->def.name)) ab.push_back(n);
    bool taken = r.chance(.25); Net *n = nullptr; std::string nm;
    if (taken) { ANet *a = any(); if (!a) return false; nm = mix(a->name, r); } else if (!ab.empty() && r.chance(.7)) { n = ab[r.below(ab.size())]; if (liveSession(n)) return false; nm = n->def.name; } else nm = strf("ph%d", tokNo);
    j.text = (r.chance(.5) ? mix("ADDNETWORK", r) : "NETWORK " + mix("ADD", r)) + " " + nm;
    if (taken) { fails("the name is taken"); break; }
    j.done = [n, nm](Job &j) { need(j, "adding a network"); ANet a; a.name = nm; a.n = n; M.nets.push_back(a); if (n) { n->absent = false; n->configured.clear(); } stats.add("op.add_network"); };
    break;
  }
  case 13: case 14: {
    std::vector<ANet *> v; for (auto &a : M.nets) if (!a.virt && (!a.n || a.servers.size() < a.n->def.servers.size())) v.push_back(&a);
    if (v.empty()) return false;
    ANet *a = v[r.below(v.size())]; std::string nm = a->name, text, pass; Net *n = a->n; int idx = -1;
    if (n) { std::vector<int> f; for (size_t i = 0; i < n->def.servers.size(); i++) if (!n->configured.count(i)) f.push_back(i); if (f.empty()) return false; idx = f[r.below(f.size())]; text = serverText(n->def.servers[idx]); if (r.chance(.3)) pass = "p" + t; }
    else { text = strf("p%d.test:%d", tokNo, r.chance(.5) ? 6667 : 7001); }
    j.text = mix("ADDSERVER", r) + " " + mix(nm, r) + " " + (ends(text, ":6667") && r.chance(.5) ? text.substr(0, text.size() - 5) : text) + (pass.empty() ? "" : " " + pass);
    if (n) n->configured.insert(idx);
    if (n) n->srv[idx].def.pass = n->def.servers[idx].pass = pass;
    j.done = [nm, text](Job &j) { need(j, "adding a server"); if (ANet *a = anet(nm)) a->servers.push_back(text); stats.add("op.add_server"); };
    break;
  }
  case 15: case 16: {
    ANet *a = real(); if (!a) return false; Net *n = a->n; std::string nm = a->name;
    j.text = mix("CONNECT", r) + " " + mix(nm, r);
    if (a->servers.empty()) { fails("connecting without servers"); break; }
    bool off = !n->want && n->wantKnown && !liveSession(n); for (auto &v : n->srv) if (v.mode) off = false; unsettle(j, n, !n->ready());
    bool pend = n->want && !liveSession(n);
    j.done = [n, off, pend](Job &j) {
      need(j, "connecting"); std::string h; int k = dialsSince(n, j.t, h); bool up = true; for (auto &v : n->srv) if (v.mode == 3 || v.mode == 4) up = false;
      if (!n->want) n->downSince = K.now; n->want = n->wantKnown = true; stats.add("op.connect");
      if (off && up && !k && !liveSession(n) && !K.socketFailures) violation("P22.effect", strf("'%s' did not connect to the network", j.text.c_str()));
    };
    (void)pend; break;
  }
  case 17: case 18: {
    ANet *a = inGroup && r.chance(.4) ? anet(j.cl->n) : real(); if (!a) return false; Net *n = a->n; std::string nm = a->name; bool bare = inGroup && j.cl->n == n && r.chance(.6);
    j.text = mix("DISCONNECT", r) + (bare ? "" : " " + mix(nm, r));
    unsettle(j, n, true);
    j.done = [n, nm](Job &j) { need(j, "disconnecting"); n->want = false; n->wantKnown = true; n->downSince = K.now; stats.add("op.disconnect"); bool coming = false; for (auto c : W.clients) if (c->n == n && (c->born > j.t - 5 * SEC || !c->welcomed)) coming = true; if (coming) { n->wantKnown = false; n->want = true; } else if (liveSession(n)) violation("P22.effect", strf("'%s' left the connection to %s open", j.text.c_str(), nm.c_str())); loginsUnderWay(n); };
    break;
  }
  case 19: {
    ANet *a = inGroup && r.chance(.4) ? anet(j.cl->n) : real(); if (!a || a->servers.empty()) return false; Net *n = a->n; std::string nm = a->name; bool bare = inGroup && j.cl->n == n && r.chance(.6);
    j.text = mix("NEXTSERVER", r) + (bare ? "" : " " + mix(nm, r));
    unsettle(j, n, true); std::string before = lastDial(n, K.now + 1); int nsess = n->sess ? n->sess->id : -1; bool quiet = n->ready(); Session *s0 = n->sess; bool up0 = true; for (auto &v : n->srv) if (v.mode) up0 = false;
    j.done = [n, before, nsess, quiet, s0, up0](Job &j) {
      need(j, "next server"); std::string h; int k = dialsSince(n, j.t, h); n->want = n->wantKnown = true; stats.add("op.next_server");
      bool up = up0; for (auto &v : n->srv) if (v.mode) up = false; if (K.socketFailures || !up) return;
      if (!k) { violation("P22.effect", strf("'%s' did not connect to a server", j.text.c_str())); return; }
      if (n->sess && n->sess->id == nsess && n->sess->c->fdOpen) violation("P22.effect", strf("'%s' left the old connection open", j.text.c_str()));
      if (k == 1 && quiet && !(s0->weClosed && !s0->gotQuit) && !before.empty()) { ANet *a = anet(n); size_t i = 0; Out hosts; for (auto &s : a->servers) hosts.push_back(s.substr(0, s.find(':'))); while (i < hosts.size() && hosts[i] != before) i++; std::string nx = hosts[(i + 1) % hosts.size()]; stats.add("chk.next_server"); if (i < hosts.size() && h != nx) violation("P22.effect", strf("after %s '%s' went to %s, not %s", before.c_str(), j.text.c_str(), h.c_str(), nx.c_str())); }
    };
    break;
  }
  case 20: {
    ANet *a = r.chance(.5) ? ph() : real(); if (!a) return false; ANet copy = *a; Net *n = a->n;
    int reals = 0; for (auto &x : M.nets) if (x.n) reals++; if (n && (reals < 2 || n->burstBusy)) return false;
    static const char *D[] = {"NETWORK DEL", "NETWORK DELETE", "NETWORK REMOVE", "DELNETWORK"};
    j.text = mix(D[r.below(4)], r) + " " + mix(a->name, r);
    if (n) { unsettle(j, n, true); n->leaving = true; for (auto c : W.clients) if (c->n == n && c->alive()) c->mayClose = true; if (inGroup && j.cl->n == n) j.closes = true; }
    j.done = [copy](Job &j) { if (!j.closes) need(j, "deleting"); if (copy.n) copy.n->leaving = false; networkGone(copy); stats.add("op.del_network"); };
    break;
  }
  case 21: {
    ANet *a = ph(); if (!a) return false; std::string nm = a->name, to = strf("pr%d", tokNo); bool taken = r.chance(.2); if (taken) { ANet *b = any(); to = b->name; }
    j.text = "NETWORK " + mix("RENAME", r) + " " + mix(nm, r) + " " + to;
    if (taken) { fails("the name is taken"); break; }
    j.done = [nm, to](Job &j) { if (ANet *a = anet(nm)) a->name = to; stats.add("op.rename"); };
    break;
  }
  case 24: {   // everything the commands changed gets to the disk
    j.text = mix("SAVECONFIG", r);
    j.done = [](Job &j) { need(j, "saving"); configSaved(); stats.add("op.saveconfig"); };
    break;
  }
  case 22: {
    int p = 6200 + r.below(6); ANet *a = real(); if (!a) return false; std::string pw = r.chance(.8) ? "lpw" + t : W.s.password, nm = r.chance(.6) ? a->name : ""; bool used = listening(p, "");
    if (r.chance(.45)) {
      std::vector<std::string> have; for (auto &l : lst) if (portOf(l) >= 6200) have.push_back(l);
      if (have.empty()) return false; std::string l = have[r.below(have.size())];
      if (l.find(':') != std::string::npos && r.chance(.3)) { j.text = mix("STOPLISTENER", r) + " 10.9.9.9:" + strf("%d", portOf(l)); j.done = [](Job &j) { need(j, "stopping a listener"); listenersWork(); }; break; }
      for (auto c : W.clients) if (c->alive() && !c->welcomed) c->mayClose = true;
      j.text = mix("STOPLISTENER", r) + " " + (r.chance(.5) ? l : strf("%d", portOf(l)));
      j.done = [l](Job &j) { need(j, "stopping a listener"); lst.erase(std::remove(lst.begin(), lst.end(), l), lst.end()); extra.erase(strf("%d", portOf(l))); stats.add("op.stop_listener"); listenersWork(); };
      break;
    }
    if (used) return false;
    std::string l = strf("%s%d", r.chance(.3) ? "127.0.0.1:" : "", p);
    j.text = mix("STARTLISTENER", r) + " " + l + " " + pw + (nm.empty() ? "" : " " + mix(nm, r));
    j.done = [l, p, pw, nm](Job &j) { need(j, "starting a listener"); lst.push_back(l); extra[strf("%d", p)] = {pw, nm}; stats.add("op.start_listener"); listenersWork(); };
    break;
  }
  default: {
    if (r.chance(.4)) { j.text = mix("LISTLISTENER", r); j.done = listenersListed; break; }
    if (r.chance(.4) && inGroup) { j.text = mix("DETACH", r); j.closes = true; j.cl->mayClose = j.cl->quitSent = true; CInst *c = j.cl; j.done = [c](Job &j) { stats.add("op.detach"); if (c->alive() && !c->c->remoteClosed) violation("P22.effect", strf("%s is still attached after DETACH", c->label.c_str())); }; break; }
    ANet *a = inGroup ? anet(j.cl->n) : real(); if (!a) return false; Net *n = a->n; std::string nm = a->name; bool bare = inGroup && r.chance(.5);
    j.text = mix("DUMPJOINEDCHANNELS", r) + (bare ? "" : " " + nm);
    bool certain = netQuiet() && !sourcesReady() && n->ready() && n->sess->proxyReady; size_t at = n->evs.size(); int sid = n->sess ? n->sess->id : 0;
    std::set<std::string> on; for (auto &c : n->chans) if (n->meOn(c.second)) on.insert(c.first);
    j.done = [n, certain, at, sid, on](Job &j) {
      if (!certain || !n->sess || n->sess->id != sid || n->evs.size() != at) return; std::set<std::string> got; for (auto &l : j.out) got.insert(lc(l)); stats.add("chk.joined_channels");
      if (got != on || got.size() != j.out.size()) { std::string x; for (auto &l : j.out) x += " " + l; violation("P22.answer", strf("'%s' shows%s, which is not where the user is", j.text.c_str(), x.c_str())); }
    };
  }
  }
  return true;
}
const char *AUDIT[] = {"SET", "NETWORK LIST", "LISTLISTENER"};
bool start(const Op &o, bool audit) {
  Rng r(hashn(W.s.seed, 0xad, o.uid, audit ? auditAt + 1 : 0)); Job *j = new Job(); j->o = o; j->audit = audit; j->lives = W.lives;
  j->way = audit ? 3 : (unsigned)o.c % 5;
  if (j->way < 3) { j->cl = o.a >= 0 && o.a < 8 ? W.slot[o.a] : nullptr; if (!j->cl || j->cl->mayClose || !j->cl->attached() || j->cl->c->remoteClosed || j->cl->stalled) { j->cl = nullptr; j->way = 3; } }
  if (j->way == 2 && (!haveSettings || M.unsure["admin-user"] || M.set["admin-user"] == UNSET)) j->way = 0;
  if (j->way >= 3) { j->con = console(j->way == 4, audit ? auditAt == 0 : r.chance(.2), r, o.uid); if (!j->con) { delete j; return false; } if (!j->con->in) { todo.push_front(o); delete j; return true; } }
  if (audit) {
    j->tok = strf("zqa%de", ++tokNo); size_t i = auditAt++;
    if (i < 3) { j->text = AUDIT[i]; j->done = i == 0 ? settingsListed : i == 1 ? networksListed : listenersListed; }
    else if (i - 3 < M.nets.size()) { std::string nm = M.nets[i - 3].name; j->text = "NETWORK INFO " + nm; j->done = [nm](Job &j) { need(j, "network info"); serversListed(j, nm); }; }
    else { auditing = false; listenersWork(); delete j; return false; }
  } else if (!make(*j, r)) { delete j; return false; }
  if (j->way == 0 && j->text.find(" :") != std::string::npos) j->way = 1;
  j->t = K.now; cur = j; stats.add(strf("op.admin_way%d", j->way)); shape("adm" + j->text.substr(0, 6));
  std::string who = j->cl ? j->cl->label : j->con->label; tracef("%s gives '%s'", who.c_str(), esc(j->text).c_str());
  std::string echo = "ECHO " + j->tok, d;
  auto wrap = [&](const std::string &c) -> std::string {
    switch (j->way) {
    case 0: return (r.chance(.7) ? "CTRLPROXY " : "ctrlproxy ") + c + "\r\n";
    case 1: return "CTRLPROXY :" + c + "\r\n";
    case 2: return "PRIVMSG " + mix(M.set["admin-user"], r) + " :" + c + "\r\n";
    case 3: return c + (r.chance(.2) ? "\r\n" : "\n");
    default: return std::string(r.chance(.8) ? "PRIVMSG" : "NOTICE") + (r.chance(.7) ? " #ctrlproxy :" : " ctrlproxy :") + c + "\r\n";
    }
  };
  if (j->way == 3) { for (char c : j->text) if (c == '\r' || c == '\n') abort(); d = j->text + "\n" + echo + "\n"; }
  else d = wrap(j->text) + wrap(echo);
  Conn *c = j->cl ? j->cl->c : j->con->c;
  if (r.chance(.7)) c->send(d); else { size_t k = r.below(d.size()); c->send(d.substr(0, k)); std::string rest = d.substr(k); int lives = W.lives; Job *jj = j; j->partial = true; K.after(r.below(500 * MS), [c, rest, lives, jj]() { if (lives == W.lives && cur == jj) { jj->partial = false; if (!c->remoteClosed) c->send(rest); } }); }
  return true;
}
void finish(bool answered) {
  Job *j = cur; cur = nullptr; if (!j) return;
  if (g_verbose) tracef("'%s' has %zu lines of answer", esc(j->text).c_str(), j->out.size());
  if (answered && g_viol.empty() && j->done) { stats.add("chk.command"); j->done(*j); }
  if (j->closes && j->cl) j->cl->mayClose = true;
  for (auto n : j->shuts) for (auto s : n->sessions) if (s->expectClose && s->st != Session::CLOSED && s->c && s->c->fdOpen && !s->gotQuit) s->expectClose = false;
  delete j; K.after(1, pump);
}
void pump() {
  while (!cur && proxyUp() && g_viol.empty()) {
    if (!todo.empty()) { Op o = todo.front(); todo.pop_front(); size_t before = todo.size(); start(o, false); if (todo.size() > before && !cur) return; }
    else if (auditing) { Op o; o.uid = 900000 + W.quiets; if (!start(o, true)) { if (auditing) { auditing = false; } return; } }
    else return;
  }
}
}
// ---------------------------------------------------------------- hooks
bool adminHas(Net *n) { ANet *a = W.s.admin ? anet(n) : nullptr; return !W.s.admin || (a && !a->servers.empty()); }
bool adminOn() { return W.s.admin; }
void adminInit() {
  if (!W.s.admin) return;
  for (auto n : W.nets) {
    for (size_t i = 0; i < n->def.servers.size(); i++) if (!n->def.absent) n->configured.insert(i);
    if (n->def.absent) { n->absent = true; n->noListener = true; n->want = n->cfgWant = false; continue; }
    ANet a; a.name = n->def.name; a.n = n; for (auto &v : n->def.servers) a.servers.push_back(serverText(v)); M.nets.push_back(a);
  }
  ANet c; c.name = "ctrl"; c.virt = true; M.nets.push_back(c);
  lst.push_back("6000"); for (auto n : W.nets) if (!n->def.absent) lst.push_back(strf("%d", 6100 + n->id));
  lst0 = lst; saved = M;
}
bool adminOp(const Op &o) {
  if (!W.s.admin) return false;
  if (o.k == "c.admin") { if (proxyUp() && todo.size() < 6) todo.push_back(o); pump(); return true; }
  if (o.k == "c.adminin") {       // somebody comes in by a listener that was started
    if (extra.empty() || o.a < 0 || o.a >= 8 || W.slot[o.a] || !proxyUp()) return true;
    auto it = extra.begin(); std::advance(it, (unsigned)o.b % extra.size());
    Net *n = nullptr; if (!it->second.second.empty()) { for (auto x : W.nets) if (!x->absent && !x->leaving && ieq(x->def.name, it->second.second)) n = x; } else { std::vector<Net *> v; for (auto x : W.nets) if (!x->absent && !x->leaving) v.push_back(x); if (!v.empty()) n = v[(unsigned)o.c % v.size()]; }
    if (!n || !n->ready() || cur) return true;
    for (auto &v : n->srv) if (v.mode) return true;
    std::string nick = n->meNick.empty() ? n->def.nick : n->meNick; if (!n->def.ignoreFirst) n->attachNicks[nick]++;
    bool name = it->second.second.empty() || (unsigned)o.d % 3 == 0; if (n->noListener && !it->second.second.empty()) name = true;
    CInst *c = attachClient(o, n, it->second.first + (name ? ":" + n->def.name : ""), atoi(it->first.c_str()), nick, false);
    if (c) { W.slot[o.a] = c; stats.add("op.attach_started_listener"); }
    return true;
  }
  if (starts(o.k, "c.") && cur && cur->partial && cur->cl && o.a >= 0 && o.a < 8 && W.slot[o.a] == cur->cl) return true;      // in the middle of a line
  if (o.k == "c.detach" || o.k == "c.stall") { CInst *c = o.a >= 0 && o.a < 8 ? W.slot[o.a] : nullptr; return cur && c && cur->cl == c; }    // not in the middle of a command
  return false;
}
void adminSession(Session *s) { if (W.s.admin && cur && cur->shuts.count(s->n)) s->expectClose = true; }
void adminDial(Net *n, const std::string &host) {
  if (!W.s.admin) return;
  dials.push_back({n, host, K.now});
  bool ok = false; for (auto i : n->configured) if (n->def.servers[i].host == host) ok = true;
  if (!ok && !(cur && std::count(cur->touched.begin(), cur->touched.end(), n))) violation("P22.effect", strf("network %s connects to %s, which is not one of its servers", n->def.name.c_str(), host.c_str()));
  if (n->absent) violation("P22.effect", strf("network %s, which does not exist, connects to %s", n->def.name.c_str(), host.c_str()));
}
// a notice of the proxy itself to a client
void adminLine(CInst *c, const Line &l) {
  if (!W.s.admin) return;
  if (!cur || cur->cl != c) { violation("P22.other", strf("%s was shown '%s' although it gave no command", c->label.c_str(), esc(l.raw).c_str())); return; }
  std::string t = l.arg(1);
  if (t == cur->tok) { finish(true); return; }
  cur->out.push_back(t);
}
void adminClosed(CInst *c) {
  if (!W.s.admin || !cur || cur->cl != c || !proxyUp()) return;
  if (!cur->closes) { if (g_viol.empty()) violation("P22.unanswered", strf("%s was disconnected when it gave the command '%s'", c->label.c_str(), esc(cur->text).c_str())); }
  finish(true);
}
void adminWire(Session *s, const std::string &raw) {
  if (W.s.admin && raw.find("zqa") != std::string::npos && !starts(upper(raw), "PASS ")) violation("P22.leak", strf("'%s' reached %s", esc(raw).c_str(), s->host().c_str()));
}
bool adminSettled(std::string *why) {
  if (!W.s.admin || !g_viol.empty()) return true;
  if (cur || !todo.empty()) { if (why) *why = strf("P22.unanswered|no answer to '%s'", cur ? esc(cur->text).c_str() : "attaching to the administration network"); pump(); return false; }
  if (auditAt == 0 || auditing) { if (auditAt == 0) { auditing = true; } pump(); if (why) *why = "P22.unanswered|the lists are not shown"; return !auditing && !cur; }
  return true;
}
void adminQuietOver() { auditAt = 0; auditing = false; }
void adminSaved() { if (W.s.admin) saved = M; }
void adminRestart() {
  if (!W.s.admin) return;
  delete cur; cur = nullptr; todo.clear(); auditing = false; auditAt = 0; sockCon = virtCon = nullptr; extra.clear(); lst = lst0;
}
