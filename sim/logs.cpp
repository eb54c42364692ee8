// Conversation logs: what each file has to contain, from the lines on the wire (P21).
//
// Every line a server sends and every message it gets is turned into the entries the documented format asks for. What
// the proxy appended to a file since the last quiet point must be an interleaving of the entries of the networks and
// directions that end up in it.
#include "world.h"
#include <algorithm>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <string.h>
#include <errno.h>
#include <signal.h>

namespace {
struct Piece { char kind; std::string s; };          // 'L' literal, 'N' any of our nicks, 'U' any user@host, else a time code
struct Entry { std::vector<Piece> p; bool opt = false; usec t0 = 0; int sess = 0; bool out = false; std::set<std::string> nicks; std::string about; };
struct File { std::map<int, std::vector<Entry>> st; off_t off = 0; bool dirty = false, skip = false; std::string oldName; off_t oldEnd = 0, oldOff = 0; };
struct Sight { std::string me; std::map<std::string, std::set<std::string>> chans; std::set<std::string> query; std::set<std::string> nicks; std::map<std::string, std::string> names; };
std::map<std::string, File> files; std::map<int, Sight> sight; std::set<std::string> unsent; bool cut = false; bool fault = false, skipAll = false; int rot = 0;
const std::string *fmtOf(const std::string &k) { auto it = W.s.logFmt.find(k); return it == W.s.logFmt.end() ? nullptr : &it->second; }
std::string low(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
std::string verb(const Line &l) { size_t a = l.prefix.empty() ? 0 : l.raw.find(' '); a = l.raw.find_first_not_of(' ', a); return l.raw.substr(a, l.raw.find(' ', a) - a); }
std::vector<Piece> expand(const std::string &fmt, Session *s, const Line &l, const std::string &ident, bool out, bool name) {
  std::vector<Piece> v; std::string lit;
  auto put = [&](std::string x) { if (name) { x = low(x); for (auto &c : x) if (c == '/') c = '_'; } lit += x; };
  auto special = [&](char k) { if (!lit.empty()) v.push_back({'L', lit}); lit.clear(); v.push_back({k, ""}); };
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { lit += fmt[i]; continue; }
    char c = ++i < fmt.size() ? fmt[i] : 0; const std::string &k = l.cmd;
    if (c == '@') put(ident); else if (c == '%') put("%"); else if (c == 'N') put(s->n->def.name); else if (c == 'S') put(s->host());
    else if (strchr("hMsdBYeb", c)) special(c);
    else if (c == 'n') { if (out) special('N'); else put(l.nick); }
    else if (c == 'u') { if (out) special('U'); else put(l.uh); }
    else if (c >= '0' && c <= '9') put(c == '0' ? verb(l) : l.arg(c - '1'));
    else if (k == "JOIN" && c == 'c') put(l.arg(0));
    else if (k == "PART" && strchr("cm", c)) put(l.arg(c == 'm'));
    else if (k == "KICK" && strchr("ctr", c)) put(l.arg(c == 'c' ? 0 : c == 't' ? 1 : 2));
    else if (k == "QUIT" && c == 'm') put(l.arg(0));
    else if ((k == "NOTICE" || k == "PRIVMSG") && strchr("tm", c)) put(l.arg(c == 'm'));
    else if (k == "TOPIC" && strchr("ct", c)) put(l.arg(c == 't'));
    else if (k == "MODE" && c == 't') put(l.arg(0)); else if (k == "MODE" && c == 'p') put(l.arg(1));
    else if (k == "MODE" && c == 'c') { for (size_t j = 2; j < l.a.size(); j++) put((j > 2 ? " " : "") + l.a[j]); }
    else if (k == "NICK" && c == 'r') put(l.arg(0));
  }
  if (!lit.empty()) v.push_back({'L', lit});
  return v;
}
std::string text(const std::vector<Piece> &p) { std::string s; for (auto &x : p) s += x.kind == 'L' ? x.s : x.kind == 'N' ? "<nick>" : x.kind == 'U' ? "<user>" : strf("%%%c", x.kind); return s; }
std::string timeText(char k, time_t t) {
  struct tm m; localtime_r(&t, &m); char b[64];
  switch (k) {
  case 'h': return strf("%02d", m.tm_hour); case 'M': return strf("%02d", m.tm_min); case 's': return strf("%02d", m.tm_sec); case 'd': return strf("%02d", m.tm_mday);
  case 'B': return strf("%02d", m.tm_mon + 1); case 'Y': return strf("%04d", m.tm_year + 1900); case 'e': return strf("%ld", (long)t);
  default: strftime(b, sizeof b, "%b", &m); return b;
  }
}
bool fits(const Entry &e, size_t i, const std::string &l, size_t at, time_t t) {
  if (i == e.p.size()) return at == l.size();
  const Piece &p = e.p[i];
  switch (p.kind) {
  case 'L': return l.compare(at, p.s.size(), p.s) == 0 && fits(e, i + 1, l, at + p.s.size(), t);
  case 'N': for (auto &n : e.nicks) if (l.compare(at, n.size(), n) == 0 && fits(e, i + 1, l, at + n.size(), t)) return true; return false;
  case 'U': for (size_t k = at; k <= l.size() && (k == at || l[k - 1] != ' '); k++) if (fits(e, i + 1, l, k, t)) return true; return false;
  default: { std::string x = timeText(p.kind, t); return l.compare(at, x.size(), x) == 0 && fits(e, i + 1, l, at + x.size(), t); }
  }
}
bool matches(const Entry &e, const std::string &l) {
  bool timed = false; for (auto &p : e.p) { if (p.kind == 'L' && l.find(p.s) == std::string::npos) return false; if (p.kind != 'L' && p.kind != 'N' && p.kind != 'U') timed = true; }
  time_t b = (e.t0 + K.wallOff) / SEC, a = timed ? (K.now + K.wallOff) / SEC : b;
  for (time_t t = b; t <= a; t++) if (fits(e, 0, l, 0, t)) return true;
  return false;
}
void entry(Session *s, const std::string &fmt, const Line &l, const std::string &ident, bool out, bool opt = false) {
  if (W.s.logFile.empty()) return;
  std::vector<Piece> fp = expand(W.s.logFile, s, l, ident, false, true); std::string path;
  for (auto &p : fp) path += p.kind == 'L' ? p.s : timeText(p.kind, (K.now + K.wallOff) / SEC);
  Entry e; e.p = expand(fmt, s, l, ident, out, false); e.opt = opt; e.out = out; e.sess = s->id; e.t0 = out ? s->born : K.now; e.about = l.raw;
  if (out) e.nicks = sight[s->id].nicks;
  files[path].st[s->n->id * 2 + out].push_back(e); stats.add("log.entries");
}
void targets(Session *s, const std::string &fmt, const Line &l, const std::string &t, bool out) {
  if (t.find(',') == std::string::npos) { entry(s, fmt, l, t, out); return; }
  size_t a = 0; for (;;) { size_t b = t.find(',', a); entry(s, fmt, l, t.substr(a, b == std::string::npos ? b : b - a), out); if (b == std::string::npos) break; a = b + 1; }
}
// to a channel or to somebody; to us: in the file of who said it
void targeted(Session *s, const char *kind, const Line &l, bool out) {
  const std::string *f = fmtOf(kind); if (!f) return; Sight &v = sight[s->id];
  if (ieq(l.arg(0), v.me)) entry(s, *f, l, out ? v.me : l.prefix.empty() ? "_messages_" : l.nick, out); else targets(s, *f, l, l.arg(0), out);
}
void everywhere(Session *s, const char *kind, const Line &l) {
  const std::string *f = fmtOf(kind); if (!f || l.prefix.empty()) return; Sight &v = sight[s->id]; std::string who = lc(l.nick);
  if (v.query.count(who) || ieq(l.nick, v.me)) entry(s, *f, l, l.nick, false);
  for (auto &c : v.chans) if (c.second.count(who)) entry(s, *f, l, v.names[c.first], false);
}
void said(Session *s, const Line &l, bool out) {
  if (l.cmd == "PRIVMSG" && l.a.size() > 1) {
    const std::string &t = l.a[1];
    if (!t.empty() && t[0] == 1) {
      if (t.size() < 8 || strncasecmp(t.c_str(), "\001ACTION ", 8)) return;
      Line m = l; m.a[1] = t.substr(8); if (!m.a[1].empty() && m.a[1].back() == 1) m.a[1].pop_back();
      targeted(s, "action", m, out);
    } else targeted(s, "msg", l, out);
  } else if (l.cmd == "NOTICE") targeted(s, "notice", l, out);
}
std::string slurp(const std::string &p, off_t from) { std::string r; FILE *f = fopen(p.c_str(), "r"); if (!f) return r; fseek(f, from, SEEK_SET); char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
off_t sizeOf(const std::string &p) { struct stat st; return stat(p.c_str(), &st) ? 0 : st.st_size; }
void check(const std::string &path, File &f) {
  std::string data;
  if (!f.oldName.empty()) { if (sizeOf(f.oldName) != f.oldEnd) { violation("P21.reopen", strf("%s was moved away, but the proxy still writes to it after SIGHUP", path.c_str())); return; } data = slurp(f.oldName, f.oldOff); f.oldName.clear(); }
  data += slurp(path, f.off); f.off = sizeOf(path);
  std::map<int, std::vector<Entry>> st; st.swap(f.st);
  if (f.dirty || f.skip || skipAll) { f.skip = false; return; }
  std::vector<std::vector<Entry>> S; for (auto &x : st) S.push_back(x.second);
  Strs lines; size_t a = 0, b; while ((b = data.find('\n', a)) != std::string::npos) { lines.push_back(data.substr(a, b - a)); a = b + 1; }
  if (a < data.size()) { violation("P21.torn", strf("%s ends in the middle of a line: '%s'", path.c_str(), esc(data.substr(a)).c_str())); return; }
  std::set<std::vector<int>> cur; cur.insert(std::vector<int>(S.size(), 0));
  stats.add("chk.log_files");
  for (auto &l : lines) {
    stats.add("chk.log_lines"); std::set<std::vector<int>> nx;
    for (auto &c : cur) for (size_t i = 0; i < S.size(); i++) for (int k = c[i]; k < (int)S[i].size(); k++) { if (matches(S[i][k], l)) { auto d = c; d[i] = k + 1; nx.insert(d); } if (!S[i][k].opt) break; }
    if (nx.empty()) {
      if (cut) { bool mine = false; for (auto n : W.nets) for (auto &u : n->def.autocmd) if (l.find(u.substr(u.find(":") + 1)) != std::string::npos) mine = true; for (auto &u : unsent) if (!u.empty() && l.find(u) != std::string::npos) mine = true; if (mine || l.find(" has quit [") != std::string::npos || l.find("QUIT ") != std::string::npos) continue; }
      if (l.find(" has quit [") != std::string::npos || l.find("QUIT ") != std::string::npos) { bool me = false; for (auto &v : sight) for (auto &n : v.second.nicks) if (l.find(n) != std::string::npos) me = true; if (me) continue; }
      std::string miss; bool later = false, past = false; const auto &c = *cur.rbegin();
      for (size_t i = 0; i < S.size(); i++) for (int k = 0; k < (int)S[i].size(); k++) if (matches(S[i][k], l)) { if (k >= c[i]) { if (!later) miss = text(S[i][c[i]].p); later = true; } else past = true; }
      if (later) violation("P21.lost", strf("%s has '%s' but not '%s' before it", path.c_str(), esc(l).c_str(), esc(miss).c_str()));
      else if (past) violation("P21.duplicate", strf("%s has '%s' again", path.c_str(), esc(l).c_str()));
      else { std::string want; for (size_t i = 0; i < S.size(); i++) if (c[i] < (int)S[i].size()) want += " '" + esc(text(S[i][c[i]].p), 120) + "'"; violation("P21.fabricated", strf("%s has '%s' which nobody said there; next would be%s", path.c_str(), esc(l).c_str(), want.c_str())); }
      return;
    }
    cur.swap(nx); if (cur.size() > 3000) { stats.add("log.gave_up"); return; }
  }
  for (auto &c : cur) { bool ok = true; for (size_t i = 0; i < S.size() && ok; i++) for (int k = c[i]; k < (int)S[i].size(); k++) if (!S[i][k].opt) ok = false; if (ok) return; }
  const auto &c = *cur.rbegin();
  for (size_t i = 0; i < S.size(); i++) for (int k = c[i]; k < (int)S[i].size(); k++) if (!S[i][k].opt) { violation("P21.lost", strf("%s lacks '%s' (%s '%s')", path.c_str(), esc(text(S[i][k].p)).c_str(), S[i][k].out ? "said" : "from", esc(S[i][k].about).c_str())); return; }
}
std::string root() { std::string f = W.s.logFile; size_t p = f.find('%'); f = f.substr(0, p); p = f.rfind('/'); return f.substr(0, p); }
void tree(const std::string &d, Strs &out) {
  DIR *x = opendir(d.c_str()); if (!x) return;
  while (struct dirent *e = readdir(x)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (stat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) tree(p, out); else out.push_back(p); }
  closedir(x); std::sort(out.begin(), out.end());
}
}
void logsPut(Session *s, const std::string &raw) {
  if (W.s.logFile.empty()) return;
  Line l = parseLine(raw); Sight &v = sight[s->id]; std::string who = lc(l.nick); bool me = ieq(l.nick, v.me);
  if (v.nicks.empty()) { v.nicks = s->n->nickHist; v.nicks.insert(s->n->def.nick); if (!s->nick.empty()) { v.nicks.insert(s->nick); v.me = s->nick; } }
  if (l.num() == 1) { v.me = l.arg(0); v.nicks.insert(v.me); }
  if (l.cmd == "JOIN") targeted(s, "join", l, false);
  else if (l.cmd == "PART") { if (auto f = fmtOf("part")) targets(s, *f, l, l.arg(0), false); }
  else if (l.cmd == "KICK") { if (auto f = fmtOf("kick")) targets(s, *f, l, l.arg(0), false); }
  else if (l.cmd == "MODE" && strchr("#&", l.arg(0)[0])) targeted(s, "mode", l, false);
  else if (l.cmd == "TOPIC") { if (auto f = fmtOf(l.a.size() > 1 ? "topic" : "notopic")) targets(s, *f, l, l.arg(0), false); }
  else if (l.cmd == "QUIT") everywhere(s, "quit", l);
  else if (l.cmd == "NICK") everywhere(s, "nickchange", l);
  else said(s, l, false);
  // who is where, as the proxy must have it after this line
  if (l.cmd == "JOIN") for (auto &c : split(l.arg(0), ',')) { if (me) { v.chans[lc(c)]; v.names[lc(c)] = c; } if (v.chans.count(lc(c))) v.chans[lc(c)].insert(who); }
  if (l.cmd == "PART") for (auto &c : split(l.arg(0), ',')) { if (me) v.chans.erase(lc(c)); else if (v.chans.count(lc(c))) v.chans[lc(c)].erase(who); }
  if (l.cmd == "KICK") { if (ieq(l.arg(1), v.me)) v.chans.erase(lc(l.arg(0))); else if (v.chans.count(lc(l.arg(0)))) v.chans[lc(l.arg(0))].erase(lc(l.arg(1))); }
  if (l.cmd == "QUIT") { if (me) v.chans.clear(); for (auto &c : v.chans) c.second.erase(who); v.query.erase(who); }
  if (l.cmd == "NICK") { std::string to = lc(l.arg(0)); if (to != who) { for (auto &c : v.chans) if (c.second.erase(who)) c.second.insert(to); if (v.query.erase(who)) v.query.insert(to); else v.query.erase(to); } if (me) { v.me = l.arg(0); v.nicks.insert(v.me); } }
  if (l.cmd == "PRIVMSG" && ieq(l.arg(0), v.me)) v.query.insert(who);
  if (l.num() == 353 && v.chans.count(lc(l.arg(2)))) for (auto &n : split(l.arg(3), ' ')) { size_t k = 0; while (k < n.size() && strchr("@+%", n[k])) k++; v.chans[lc(l.arg(2))].insert(lc(n.substr(k))); }
}
void logsWire(Session *s, const Line &l) {
  if (W.s.logFile.empty()) return;
  Sight &v = sight[s->id]; v.nicks.insert(s->n->nickHist.begin(), s->n->nickHist.end()); if (!s->n->meNick.empty()) v.nicks.insert(s->n->meNick);
  if (l.cmd == "PRIVMSG" || l.cmd == "NOTICE") { Line m = l; unsent.erase(l.arg(1)); said(s, m, true); }
}
void logsClient(const std::string &raw) { if (W.s.logFile.empty()) return; Line l = parseLine(raw); if ((l.cmd == "PRIVMSG" || l.cmd == "NOTICE") && l.a.size() > 1) { std::string t = l.a[1]; unsent.insert(t); if (t.size() > 9 && t[0] == 1) unsent.insert(t.substr(8, t.size() - 8 - (t.back() == 1))); } }
void logsEnded(Session *s) {
  if (W.s.logFile.empty()) return; cut = true;
  for (auto &f : files) for (auto &st : f.second.st) for (auto &e : st.second) if (e.sess == s->id) e.opt = true;
}
void logsQuiet() {
  if (W.s.logFile.empty() || !g_viol.empty()) return;
  Strs there; tree(root(), there);
  for (auto &p : there) if (p.find(".old") == std::string::npos && !files.count(p)) { off_t n = sizeOf(p); if (n) { File &f = files[p]; if (fault) f.skip = true; } }
  for (auto &f : files) { check(f.first, f.second); if (!g_viol.empty()) return; }
  cut = false; unsent.clear(); if (!fault) skipAll = false;
}
void logsDown() { if (W.s.logFile.empty()) return; cut = true; for (auto &f : files) for (auto &st : f.second.st) for (auto &e : st.second) e.opt = true; }
bool logsOp(const Op &o) {
  if (W.s.logFile.empty()) return false;
  if (o.k == "p.hup") {
    if (!proxyUp()) return true;
    if (o.b % 3 && !fault) {          // logrotate
      rot++; Strs there; tree(root(), there);
      for (auto &p : there) if (p.find(".old") == std::string::npos) {
        File &f = files[p]; if (!f.oldName.empty()) continue;
        f.oldName = strf("%s.old%d", p.c_str(), rot); rename(p.c_str(), f.oldName.c_str()); f.oldEnd = sizeOf(f.oldName); f.oldOff = f.off; f.off = 0; if (f.dirty) { f.oldOff = f.oldEnd; f.dirty = false; f.skip = true; }
        stats.add("fault.log_rotated");
      }
    }
    stats.add("op.hup"); raiseSignal(SIGHUP); return true;
  }
  if (o.k == "p.logfault") {
    int kind = o.b % 5; unsigned pct = 5 + o.c % 96; uint64_t salt = o.d; std::string dir = root(); fault = true;
    stats.add(strf("fault.log_kind%d", kind)); tracef("log fault %d %u%%", kind, pct);
    K.diskFault = [kind, pct, salt, dir](const char *op, const std::string &path, size_t len, size_t &allow) -> int {
      if (path.compare(0, dir.size(), dir)) return 0;
      bool hit = hashn(K.seed, salt, K.diskOps) % 100 < pct; if (!hit) return 0; int e = 0;
      switch (kind) {
      case 0: if (!strncmp(op, "open", 4)) e = hashn(K.seed, salt, 3) & 1 ? EACCES : EMFILE; break;
      case 1: if (!strcmp(op, "write")) e = ENOSPC; break;
      case 2: if (!strcmp(op, "write") && len) { allow = hashn(K.seed, salt, K.diskOps, 5) % len; files[path].dirty = true; } break;
      case 3: if (!strcmp(op, "mkdir")) e = EACCES; else if (!strncmp(op, "open", 4)) e = ENOENT; break;
      default: e = EIO;
      }
      if (e && !strcmp(op, "mkdir")) skipAll = true; else if (e && !strncmp(op, "open", 4)) files[path].skip = true; else if (e) files[path].dirty = true;
      return e;
    };
    return true;
  }
  if (o.k == "p.logheal") { K.diskFault = nullptr; fault = false; return true; }
  return false;
}
