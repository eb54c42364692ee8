// Oracles for the optional parts: CTCP, away, nickserv, logging, saving, administration.
#include "world.h"
#include <algorithm>
#include <time.h>
static bool isChanName(const std::string &s) { return !s.empty() && strchr("#&", s[0]); }
static Net *fnet(int a) { return W.nets[(unsigned)a % W.nets.size()]; }
static User *somebody(Net *n, int b) {
  std::vector<User *> v; for (auto &p : n->users) if (p.second.user[0] == 'u') v.push_back(&p.second);
  return v.empty() ? nullptr : v[(unsigned)b % v.size()];
}
static CInst *cslot(const Op &o) { CInst *c = o.a >= 0 && o.a < 8 ? W.slot[o.a] : nullptr; return c && c->attached() ? c : nullptr; }
static bool upNow(Net *n) { return n->sess && n->sess->st == Session::READY && !n->sess->weClosed && !n->sess->silent; }
static time_t wall() { return (K.now + K.wallOff) / SEC; }

// ---------------------------------------------------------------- CTCP (P19)
struct CtcpReq { Net *n; std::string nick, cmd, arg; usec t; int sess; bool must, answered = false; CInst *witness = nullptr; };
static std::list<CtcpReq> ctcps;
static std::string upcmd(std::string s) { for (auto &c : s) c = toupper(c); return s; }
static void ctcpOp(const Op &o) {
  Net *n = fnet(o.a); std::string t = tokenOf(o.uid);
  if (!upNow(n)) return;
  User *u = somebody(n, o.b); if (!u) return;
  static const char *CM[] = {"PING", "VERSION", "CLIENTINFO", "TIME", "SOURCE", "FINGER", "PING2", "version", "UNKNOWN", "NONE", "EMPTY", "OPEN", "DCC", "REPLY", "NOARG", "TEXT"};
  std::string kind = CM[(unsigned)o.c % 16], body, cmd = upcmd(kind), arg; bool note = false, asks = true;
  if (kind == "PING") { arg = t; body = "\001PING " + t + "\001"; }
  else if (kind == "PING2") { cmd = "PING"; arg = t + " 123456"; body = "\001PING " + arg + "\001"; }
  else if (kind == "UNKNOWN" || kind == "NONE") { asks = false; body = "\001X" + t + " foo\001"; cmd = "X" + t; }
  else if (kind == "EMPTY") { asks = false; body = "\001\001"; }
  else if (kind == "OPEN") { asks = false; body = "\001PING " + t; }
  else if (kind == "DCC") { asks = false; body = "\001DCC SEND " + t + " 1 2 3\001"; }
  else if (kind == "REPLY") { asks = false; note = true; body = "\001PING " + t + "\001"; }
  else if (kind == "NOARG") { cmd = "PING"; body = "\001PING\001"; }
  else if (kind == "TEXT") { asks = false; body = t + " not a \001PING 1\001"; }
  else body = "\001" + kind + "\001";
  std::string to = n->meNick; Chan *ch = nullptr;
  if (o.d % 5 == 4) for (auto &p : n->chans) if (n->meOn(p.second) && p.second.mem.count(lc(u->nick))) { ch = &p.second; to = ch->name; }
  bool must = true; CInst *wit = nullptr;
  for (auto c : W.clients) if (c->n == n) {
    if (c->born > W.quietAt || (!c->dead && !c->mustFail)) must = false;
    if (c->attached() && c->burstAt < K.now && !c->stalled) wit = c;
  }
  if (W.quiets == 0) must = false;
  for (auto c : W.clients) if (c->n == n && c->dead && c->diedAt >= W.quietAt) must = false;
  if (asks) ctcps.push_back(CtcpReq{n, u->nick, cmd, arg, K.now, n->sess->id, must, false, wit});
  else if (!note && (kind == "UNKNOWN" || kind == "NONE" || kind == "DCC")) ctcps.push_back(CtcpReq{n, u->nick, "ERRMSG", "", K.now, n->sess->id, false, false, wit});
  stats.add("op.ctcp_request");
  n->emit(":" + n->mask(u->nick) + (note ? " NOTICE " : " PRIVMSG ") + to + " :" + body);
}
static bool ctcpWire(Session *s, const Line &l) {
  if (l.cmd != "NOTICE" || !starts(l.arg(1), "\001")) return false;
  std::string b = l.arg(1).substr(1); bool closed = !b.empty() && b.back() == '\001'; if (closed) b.pop_back();
  std::string cmd = b.substr(0, b.find(' ')), rest = b.size() > cmd.size() ? b.substr(cmd.size() + 1) : "";
  CtcpReq *dup = nullptr;
  for (auto &r : ctcps) {
    if (r.n != s->n || r.nick != l.arg(0) || r.cmd != cmd || r.sess != s->id) continue;
    if (cmd == "PING" && r.arg != rest) continue;
    if (r.answered) { dup = &r; continue; }
    if (r.witness && r.witness->attached()) { violation("P19.answered-for-clients", strf("the proxy answered '%s' although %s was attached all the time", esc(l.raw).c_str(), r.witness->label.c_str())); }
    if (!closed) violation("P19.altered", "CTCP answer not terminated: " + esc(l.raw));
    if (cmd == "FINGER" && rest != s->n->def.fullname) violation("P19.altered", "wrong answer: " + esc(l.raw));
    if (cmd == "VERSION" && !starts(rest, "ctrlproxy")) violation("P19.altered", "wrong answer: " + esc(l.raw));
    if (cmd == "SOURCE" && rest.find("ctrlproxy") == std::string::npos) violation("P19.altered", "wrong answer: " + esc(l.raw));
    if (cmd == "CLIENTINFO") for (const char *x : {"VERSION", "CLIENTINFO", "SOURCE", "PING", "FINGER", "TIME", "ACTION"}) if ((" " + rest + " ").find(std::string(" ") + x + " ") == std::string::npos) violation("P19.altered", "incomplete answer: " + esc(l.raw));
    if (cmd == "TIME") {
      bool ok = false; time_t now = wall(), from = (r.t + K.wallOff) / SEC;
      for (time_t t = from; t <= now; t++) { std::string x = ctime(&t); while (!x.empty() && x.back() == '\n') x.pop_back(); if (x == rest) ok = true; }
      if (!ok) violation("P19.altered", "wrong time: " + esc(l.raw));
    }
    r.answered = true; stats.add("chk.ctcp_answer");
    return true;
  }
  if (dup) violation("P19.duplicate", strf("server %s got '%s' again", s->n->def.name.c_str(), esc(l.raw).c_str()));
  else violation("P19.fabricated", strf("server %s got '%s', which answers no request", s->n->def.name.c_str(), esc(l.raw).c_str()));
  return true;
}
static void ctcpQuiet() {
  for (auto &r : ctcps) {
    if (r.answered || !r.must || !r.n->sess || r.n->sess->id != r.sess || !r.n->ready()) continue;
    bool cl = false; for (auto c : W.clients) if (c->n == r.n && c->born >= r.t) cl = true;
    if (cl) continue;
    violation("P19.no-answer", strf("nobody was attached to %s, but CTCP %s %s from %s was not answered", r.n->def.name.c_str(), r.cmd.c_str(), r.arg.c_str(), r.nick.c_str()));
  }
  ctcps.clear();
}

// ---------------------------------------------------------------- away (P20)
static struct { bool on = false; std::string msg, nick; int limit = -1; int time = 600; usec lastAct = 0; } aw;
struct AwayNet { int by = 0; /* 0 not away, 1 the proxy, 2 the user */ usec at = 0, change = -1000 * SEC; int nickDue = 0; bool nickMust = false; int sess = 0; usec spoke = -1000 * SEC; std::set<std::string> nicks; };
static std::map<Net *, AwayNet> awn;
struct AwayAct { Net *n; usec sent, arrived; };
static std::deque<AwayAct> acts;
static int attachedTo(Net *n, usec since) { int k = 0; for (auto c : W.clients) if (c->n == n && c->attached() && c->burstAt < since && !c->c->remoteClosed) k++; return k; }
static int aliveOn(Net *n) { int k = 0; for (auto c : W.clients) if (c->n == n && !c->dead) k++; return k; }
static usec lastClientChange(Net *n) { usec t = -1000 * SEC; for (auto c : W.clients) if (c->n == n) { t = std::max(t, std::max(c->born, c->burstAt)); t = std::max(t, c->diedAt); } return t; }
static const usec AWSLACK = 4 * SEC;
static void awayTraffic(Net *n, const Line &l, bool fromClient, CInst *c) {
  if (!aw.on || !fromClient) return;
  bool talk = l.cmd == "PRIVMSG" || l.cmd == "NOTICE";
  if (!talk && l.cmd != "AWAY") return;
  usec sent = K.now - AWSLACK;
  if (c) for (auto &p : c->pend) if (p.raw == l.raw) sent = p.t;      // (already removed: the slack stands)
  acts.push_back({n, sent, K.now}); if (acts.size() > 60) acts.pop_front();
  aw.lastAct = K.now;
  if (l.cmd == "AWAY") { AwayNet &a = awn[n]; a.by = l.arg(0).empty() ? 0 : 2; a.at = K.now; a.sess = n->sess ? n->sess->id : 0; }
  else for (auto m : W.nets) awn[m].spoke = K.now;
}
static bool awayWire(Session *s, const Line &l) {
  if (!aw.on) return false;
  Net *n = s->n; AwayNet &a = awn[n];
  if (a.sess != s->id) { a.by = 0; a.sess = s->id; a.nickDue = 0; }
  if (l.cmd == "NICK" && a.nickDue && l.arg(0) == aw.nick) { a.nickDue--; return true; }
  if (l.cmd != "AWAY") return false;
  if (s->st != Session::READY) { violation("P20.before-login", strf("'%s' sent to %s before registration finished", esc(l.raw).c_str(), s->host().c_str())); return true; }
  if (l.a.empty()) {
    if (a.by == 2 && K.now - a.at > AWSLACK) violation("P20.overridden", strf("the user is away on %s by his own choice, but the proxy marks him back", n->def.name.c_str()));
    if (a.by != 2) { a.by = 0; a.at = K.now; }
    aw.lastAct = std::max(aw.lastAct, K.now);
    stats.add("chk.away_back");
    return true;
  }
  stats.add("chk.away_set");
  if (l.arg(0) != aw.msg) violation("P20.text", strf("away message '%s' instead of '%s'", esc(l.arg(0)).c_str(), esc(aw.msg).c_str()));
  if (a.by == 2 && K.now - a.at > AWSLACK) violation("P20.overridden", strf("the user is away on %s by his own choice, but the proxy sends '%s'", n->def.name.c_str(), esc(l.raw).c_str()));
  if (a.by == 1 && K.now - a.at > AWSLACK) violation("P20.repeated", strf("'%s' sent to %s again", esc(l.raw).c_str(), n->def.name.c_str()));
  if (aw.limit >= 0 && attachedTo(n, K.now - AWSLACK) > aw.limit) violation("P20.limit", strf("marked away on %s with %d clients attached, the limit is %d", n->def.name.c_str(), attachedTo(n, K.now - AWSLACK), aw.limit));
  bool detach = aw.limit >= 0 && K.now - lastClientChange(n) < AWSLACK + 1 * SEC;      // the last client just left
  if (!detach) for (auto &x : acts) {
    if (x.n != n && x.arrived > K.now - AWSLACK) continue;
    if (K.now - x.sent < (aw.time - 1) * SEC && K.now - x.arrived < (aw.time - 2) * SEC) { violation("P20.too-early", strf("marked away on %s %lld s after the user's last activity, the idle time is %d s", n->def.name.c_str(), (long long)((K.now - x.arrived) / SEC), aw.time)); break; }
  }
  if (!detach && K.now < (aw.time - 1) * SEC) violation("P20.too-early", strf("marked away on %s %lld s after the start", n->def.name.c_str(), (long long)(K.now / SEC)));
  a.by = 1; a.at = K.now; a.nickDue = aw.nick.empty() ? 0 : 1;
  a.nickMust = !detach;
  aw.lastAct = K.now;
  return true;
}
static void awayQuiet() {
  if (!aw.on) return;
  for (auto n : W.nets) {
    AwayNet &a = awn[n];
    if (!n->ready() || K.now - n->sess->readyAt < AWSLACK) continue;
    if (a.sess != n->sess->id) { a.by = 0; a.sess = n->sess->id; a.nickDue = 0; }
    int k = aliveOn(n);
    if (a.by == 1 && a.nickDue && a.nickMust && K.now - a.at > AWSLACK) violation("P20.nick", strf("marked away on %s without taking the nick '%s'", n->def.name.c_str(), aw.nick.c_str()));
    if (a.by == 0 && (aw.limit < 0 || k <= aw.limit) && aw.time >= 30 && K.now - std::max({aw.lastAct, lastClientChange(n), n->sess->readyAt, n->lostAt}) > (aw.time + 3) * SEC + AWSLACK) {
      // the idle clock is the latest activity on any network; one that has just gone away itself restarts it
      violation("P20.never", strf("idle for %lld s with %d clients, but not marked away on %s", (long long)((K.now - aw.lastAct) / SEC), k, n->def.name.c_str()));
    }
    if (a.by == 1 && a.spoke > a.at + AWSLACK) violation("P20.not-back", strf("the user spoke, but is still marked away on %s", n->def.name.c_str()));
    if (a.by == 1 && aw.limit >= 0 && attachedTo(n, K.now - AWSLACK) > aw.limit) violation("P20.not-back", strf("%d clients are attached to %s, but the user is still marked away", attachedTo(n, K.now - AWSLACK), n->def.name.c_str()));
  }
}

// ---------------------------------------------------------------- nickserv (P17)
typedef std::pair<Net *, std::string> NsKey;
struct NsEntry { std::string nick, pass; Net *n; };        // n == nullptr: all networks
struct NsLearn { Net *n; std::string raw, pass; usec t; CInst *c; std::set<std::string> nicks; };
struct NsDue { Net *n; std::string nick; usec t; int sess; CInst *witness; };
static struct {
  bool on = false, learn = true;
  std::vector<NsEntry> mem, saved; std::set<NsKey> fuzzy, fuzzySaved;
  std::map<NsKey, std::set<std::string>> ever;
  std::list<NsLearn> sent; std::list<NsDue> due;
  std::map<Net *, std::vector<std::pair<usec, std::string>>> held;   // since when the user has had which nick
  std::map<int, int> budget; std::map<int, std::vector<std::string>> done; std::map<int, usec> rmode;
} ns;
static const usec NSSLACK = 5 * SEC;
static std::set<std::string> nsNicks(Net *n) {              // the nicks the proxy may think it has
  std::set<std::string> r; auto &h = ns.held[n];
  for (size_t i = 0; i < h.size(); i++) if (i + 1 == h.size() || h[i + 1].first > K.now - NSSLACK) r.insert(lc(h[i].second));
  if (!n->meNick.empty()) r.insert(lc(n->meNick));
  return r;
}
static const NsEntry *nsFind(Net *n, const std::string &nick) {
  const NsEntry *any = nullptr;
  for (auto &e : ns.mem) if (ieq(e.nick, nick)) { if (e.n == n) return &e; if (!e.n && !any) any = &e; }
  return any;
}
static bool nsSure(Net *n, const std::string &nick) {
  if (ns.fuzzy.count({n, lc(nick)})) return false;
  for (auto &x : ns.sent) if (x.n == n && x.nicks.count(lc(nick))) return false;
  return true;
}
static void nsSet(Net *n, const std::string &nick, const std::string &pass) {
  for (auto &e : ns.mem) if (e.n == n && ieq(e.nick, nick)) { e.pass = pass; return; }
  const NsEntry *e = nsFind(n, nick); if (e && e->pass == pass) return;
  ns.mem.push_back({nick, pass, n});
}
static std::string nsPass(const Line &l) {                   // the password a command tells the nick service
  if ((l.cmd == "PRIVMSG" || l.cmd == "NOTICE") && l.a.size() > 1 && ieq(l.arg(0), "NickServ") && ieq(l.arg(1).substr(0, 9), "IDENTIFY ")) return l.arg(1).substr(9);
  if (l.cmd == "NS" && ieq(l.arg(0), "IDENTIFY") && l.a.size() > 1) return l.arg(1);
  return "";
}
static void nsOp(const Op &o) {
  if (o.k == "s.nsmode") {
    Net *n = fnet(o.a); if (!upNow(n)) return;
    bool has = n->meModes.find('R') != std::string::npos; if (!has && o.b % 3) return;
    if (has) n->meModes.erase(n->meModes.find('R'), 1); else n->meModes += 'R';
    ns.rmode[n->sess->id] = K.now;
    n->emit(":NickServ!services@services.test MODE " + n->meNick + (has ? " :-R" : " :+R")); return;
  }
  CInst *c = cslot(o); if (!c) return;
  std::string t = tokenOf(o.uid), pw = "pw" + t;
  if (o.k == "c.nsnick") { static const char *N[] = {"mynick", "nova", "zed[1]", "Zed{1]", "MYNICK"}; std::string x = N[(unsigned)o.c % 5]; c->command(o.uid, "NICK " + x); return; }
  const NsEntry *e = nsFind(c->n, c->n->meNick);
  std::string ID = "IDENTIFY"; bool again = o.d % 5 == 0 && e;
  if (again) { pw = e->pass; for (int i = 0; i < 8; i++) if (o.uid >> i & 1) ID[i] += 32; }      // no two messages alike
  else if (o.d % 11 == 1) pw = "mynick " + pw;
  switch ((unsigned)o.c % 14) {
  case 0: case 1: case 2: case 3: c->command(o.uid, "PRIVMSG NickServ :" + ID + " " + pw); break;
  case 4: case 5: c->command(o.uid, "PRIVMSG nickserv :" + (again ? ID : "identify") + " " + pw); break;
  case 6: c->command(o.uid, "NOTICE NickServ :" + ID + " " + pw); break;
  case 7: case 8: if (pw.find(' ') == std::string::npos) c->command(o.uid, "NS " + ID + " " + pw); break;
  case 9: if (!again) c->command(o.uid, "PRIVMSG NickServ :IDENTIFYING " + pw); break;
  case 10: if (!again) c->command(o.uid, "PRIVMSG NickServer :IDENTIFY " + pw); break;
  case 11: { static const char *B[] = {"NS", "NS IDENTIFY", "PRIVMSG NickServ", "NOTICE NickServ", "NS ID"}; static std::set<int> used; if (used.insert((unsigned)o.b % 5).second) c->command(o.uid, B[(unsigned)o.b % 5]); break; }      // no two messages alike
  case 12: if (!again) c->command(o.uid, "PRIVMSG NickServ :GHOST nova " + pw); break;
  case 13: if (!again) c->command(o.uid, "PRIVMSG NickServ :REGISTER " + pw); break;
  }
}
static void nsSend(CInst *c, const std::string &raw) {
  if (!ns.on || !ns.learn) return;
  std::string p = nsPass(parseLine(raw)); if (p.empty()) return;
  NsLearn x{c->n, raw, p, K.now, c, nsNicks(c->n)};
  for (auto &k : x.nicks) ns.ever[{c->n, k}].insert(p);
  ns.sent.push_back(x);
}
static void nsTraffic(Net *n, const Line &l, CInst *c) {     // a client's line has arrived at the server
  if (!ns.on || !ns.learn) return;
  std::string p = nsPass(l); if (p.empty()) return;
  if (starts(l.raw, "PRIVMSG NickServ :IDENTIFY ") && n->sess && c->n == n) ns.done[n->sess->id].push_back(p);     // cannot be told from the proxy's own
  for (auto it = ns.sent.begin(); it != ns.sent.end(); ++it) if (it->n == n && it->c == c && it->raw == l.raw) { ns.sent.erase(it); break; }
  auto nicks = nsNicks(n);
  for (auto &k : nicks) ns.ever[{n, k}].insert(p);
  if (nicks.size() > 1) { for (auto &k : nicks) ns.fuzzy.insert({n, k}); return; }
  NsKey key{n, lc(n->meNick)};
  nsSet(n, n->meNick, p); ns.fuzzy.erase(key);
  for (auto &x : ns.sent) if (x.n == n && n->sess && x.t < n->sess->readyAt) x.nicks.erase(key.second);
  stats.add("chk.nickserv_learned");
}
static bool nsWire(Session *s, const Line &l) {
  if (!ns.on || l.cmd != "PRIVMSG" || !starts(l.arg(1), "IDENTIFY ")) return false;
  Net *n = s->n; std::string pw = l.arg(1).substr(9);
  if (l.arg(0) != "NickServ") { violation("P17.leak", strf("the proxy sent a password to %s: '%s'", l.arg(0).c_str(), esc(l.raw).c_str())); return true; }
  if (s->st != Session::READY) { violation("P17.leak", strf("'%s' before registration finished", esc(l.raw).c_str())); return true; }
  auto nicks = nsNicks(n);
  bool ok = false;
  for (auto &k : nicks) {
    if (ns.ever[{n, k}].count(pw)) ok = true;
    for (auto &e : ns.mem) if ((!e.n || e.n == n) && ieq(e.nick, k) && e.pass == pw) ok = true;
  }
  if (!ok) { violation("P17.leak", strf("'%s' sent to %s as %s, whose password this is not", esc(l.raw).c_str(), n->def.name.c_str(), n->meNick.c_str())); return true; }
  if (nicks.size() == 1 && nsSure(n, n->meNick)) {
    const NsEntry *e = nsFind(n, n->meNick);
    if (e && e->pass != pw) { violation("P17.wrong", strf("'%s' sent to %s as %s, the password is '%s'", esc(l.raw).c_str(), n->def.name.c_str(), n->meNick.c_str(), e->pass.c_str())); return true; }
  }
  if (--ns.budget[s->id] < 0) { violation("P17.repeated", strf("'%s' sent to %s once more", esc(l.raw).c_str(), n->def.name.c_str())); return true; }
  ns.done[s->id].push_back(pw);
  for (auto it = ns.due.begin(); it != ns.due.end(); ++it) if (it->n == n && it->sess == s->id) { const NsEntry *e = nsFind(n, it->nick); if ((e && e->pass == pw) || ns.ever[{n, lc(it->nick)}].count(pw)) { ns.due.erase(it); break; } }
  stats.add("chk.nickserv_identify");
  return true;
}
static void nsLoggedIn(Session *s, const Line &l) {          // the proxy's USERHOST, right after it would have identified
  Net *n = s->n; auto nicks = nsNicks(n);
  if (nicks.size() != 1 || !nsSure(n, n->meNick) || !ieq(n->meNick, l.arg(0))) return;
  const NsEntry *e = nsFind(n, n->meNick);
  stats.add(e ? "chk.nickserv_login" : "chk.nickserv_login_unknown");
  if (e && ns.done[s->id].empty() && !ns.rmode.count(s->id)) violation("P17.not-identified", strf("logged in to %s as %s without telling the nick service the password '%s'", n->def.name.c_str(), n->meNick.c_str(), e->pass.c_str()));
}
void featureNick(Net *n, const std::string &from, const std::string &to) {
  if (!ns.on) return;
  ns.held[n].push_back({K.now, to});
  for (auto &x : ns.sent) if (x.n == n) { x.nicks.insert(lc(to)); ns.ever[{n, lc(to)}].insert(x.pass); }    // still on its way
  if (!n->sess) return;
  ns.budget[n->sess->id]++;
  const NsEntry *e = nsFind(n, to);
  CInst *w = nullptr; for (auto c : W.clients) if (c->n == n && c->attached() && c->burstAt < K.now && !c->stalled) w = c;
  if (e && nsSure(n, to) && w && n->sess->proxyReady) ns.due.push_back({n, to, K.now, n->sess->id, w});
}
static void nsQuiet() {
  if (!ns.on) return;
  for (auto &d : ns.due) {
    if (!d.n->sess || d.n->sess->id != d.sess || !d.n->ready() || !d.witness->attached() || ns.rmode.count(d.sess)) continue;
    if (!nsSure(d.n, d.nick)) continue;
    violation("P17.not-identified", strf("the user took the nick %s on %s, but its password was not sent to the nick service", d.nick.c_str(), d.n->def.name.c_str()));
  }
  ns.due.clear();
}
static void nsInit() {
  if (!W.s.learnNickserv) return;
  ns.on = true; ns.learn = W.s.get("learn-nickserv") != "false";
  for (auto &f : W.s.files) if (f.first == "nickserv") for (auto &ln : split(f.second, '\n')) {
    if (ln.empty() || ln[0] == '#') continue;
    auto w = split(ln, '\t'); if (w.size() < 2) continue;
    NsEntry e{w[0], w[1], nullptr}; bool known = true;
    if (w.size() > 2 && w[2] != "*") { known = false; for (auto n : W.nets) if (ieq(n->def.name, w[2])) { e.n = n; known = true; } }
    if (known) ns.mem.push_back(e);
  }
  ns.saved = ns.mem;
}
void featureSaved(bool exact, bool update) {
  ns.saved = ns.mem; ns.fuzzySaved = ns.fuzzy;
  for (auto &x : ns.sent) for (auto &k : x.nicks) ns.fuzzySaved.insert({x.n, k});
}
void featureRestart() {
  ns.mem = ns.saved; ns.fuzzy = ns.fuzzySaved; ns.sent.clear(); ns.due.clear();
}

// ----------------------------------------------------------------
bool featureOp(const Op &o) {
  if (o.k == "s.ctcp") { ctcpOp(o); return true; }
  if (o.k == "c.nsid" || o.k == "c.nsnick" || o.k == "s.nsmode") { nsOp(o); return true; }
  return false;
}
void featureAnyWire(Session *s, const Line &l) { if (l.cmd == "PRIVMSG" || l.cmd == "NOTICE") replayWire(s, l);
  if (ns.on && l.cmd == "USERHOST" && !s->userhostSeen && s->st == Session::READY) nsLoggedIn(s, l);
  if (aw.on && (l.cmd == "PRIVMSG" || l.cmd == "NOTICE" || l.cmd == "AWAY")) aw.lastAct = K.now;
}
void featureClientSend(CInst *c, const std::string &raw) {
  nsSend(c, raw);
  if (aw.on && (starts(raw, "PRIVMSG") || starts(raw, "NOTICE") || starts(raw, "AWAY"))) aw.lastAct = std::max(aw.lastAct, K.now + 1 * SEC);
}
bool featureWire(Session *s, const Line &l) {
  if (ctcpWire(s, l)) return true;
  if (awayWire(s, l)) return true;
  if (nsWire(s, l)) return true;
  return false;
}
bool featureClientLine(CInst *c, const Line &l) { return false; }
void featureInit() {
  if (W.s.get("auto-away-enable") == "true") {
    aw.on = true; aw.msg = W.s.get("auto-away-message"); if (aw.msg.empty()) aw.msg = "Auto Away";
    aw.nick = W.s.get("auto-away-nick"); std::string x = W.s.get("auto-away-client-limit"); if (!x.empty()) aw.limit = atoi(x.c_str());
    x = W.s.get("auto-away-time"); if (!x.empty()) aw.time = atoi(x.c_str());
  }
  W.onTraffic = [](Net *n, const Line &l, bool fc, CInst *c) { awayTraffic(n, l, fc, c); if (fc) nsTraffic(n, l, c); };
  nsInit();
}
void featureQuiet() { replayQuiet(); ctcpQuiet(); awayQuiet(); nsQuiet(); saveQuiet(); }
void featureSessionReady(Session *s) {
  if (ns.on) { ns.budget[s->id] = 1; ns.held[s->n].push_back({K.now, s->n->meNick}); }
}
