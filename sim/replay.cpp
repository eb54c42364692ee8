// Backlog replay: what a client is shown when it attaches, against the history of what was said (P13, P14).
//
// Every message of a network has a window [tmin, tmax] in which the proxy must have dealt with it: a line of the
// server between being sent and being read by the proxy, a message of a client between being sent by it and reaching
// the server. The points from which a mode replays have such windows as well. What lies clearly behind such a point
// and clearly before the client attached must be shown, what lies clearly before the point must not, and nothing may
// be shown twice or in an order that the windows rule out.
#include "world.h"
#include <algorithm>
static const usec NEVER = (usec)1 << 60;
struct Item { size_t ev = 0; bool own = false; std::string cmd, target, text, prefix; int sess = 0, from = 0; usec tmin = 0, tmax = NEVER; uint64_t off = 0; int wire = -1; bool dead = false; };
struct Mark { usec tmin, tmax; bool sure; Conn *c; int client; std::string text; };
struct Rep { std::vector<Item> items; std::map<std::string, size_t> byText; std::vector<Mark> marks; size_t evSeen = 0, firstOpen = 0; int wireNo = 0; usec seenSess = 0; int sess = 0; };
struct Pre { std::vector<Line> got; };
static std::map<Net *, Rep> reps;
static std::map<CInst *, Pre> pres;
static bool on() { return W.s.replication == "simple" || W.s.replication == "lastdisconnect" || W.s.replication == "highlight"; }
bool replayOn() { return on(); }
static std::string key(const std::string &cmd, const std::string &target, const std::string &text) { return cmd + " " + target + " :" + text; }
static bool storable(const Line &l) { return (l.cmd == "PRIVMSG" || l.cmd == "NOTICE") && l.a.size() == 2 && (!starts(l.arg(1), "\001") || starts(l.arg(1), "\001ACTION")); }
static bool promised(const Item &i) {
  if (W.s.replication != "highlight") return true;
  for (auto &m : W.s.match) if (i.text.find(m) != std::string::npos) return true;
  return false;
}
// when the store did not work
static std::vector<std::pair<usec, usec>> trouble;
static bool troubled(usec a, usec b) { for (auto &t : trouble) if (t.first <= b && a <= t.second) return true; return false; }
void storeHeal() { if (!K.diskFault) return; K.diskFault = nullptr; if (!trouble.empty()) trouble.back().second = K.now; stats.add("fault.store_heals"); tracef("the disk works again"); }
void storeFault(const Op &o) {
  storeHeal();
  static const char *NAME[] = {"flaky", "full", "unreadable", "state_unreadable", "read_only", "dead", "short"};
  int kind = (unsigned)o.b % 7; unsigned pct = 3 + (unsigned)o.c % 60; uint64_t salt = o.d; trouble.push_back({K.now, NEVER});
  stats.add(strf("fault.store_%s", NAME[kind])); tracef("store fault: %s %u%%", NAME[kind], pct);
  K.diskFault = [kind, pct, salt](const char *op, const std::string &path, size_t len, size_t &allow) -> int {
    if (path.find("linestack") == std::string::npos) return 0;
    bool rd = !strcmp(op, "read") || !strcmp(op, "open_r") || !strcmp(op, "seek") || !strcmp(op, "slurp") || !strcmp(op, "opendir"), wr = !strcmp(op, "write"), states = path.find("/states/") != std::string::npos;
    uint64_t h = hashn(K.seed, salt, K.diskOps); bool hit = h % 100 < pct;
    switch (kind) {
    case 0: if (!hit) return 0; if ((wr || !strcmp(op, "read")) && (h & 4096) && len) { allow = (h >> 20) % len; return 0; } return rd ? EIO : (h & 8192) ? ENOSPC : EIO;
    case 1: if (wr) { allow = (hashn(K.seed, salt, 7) & 1) ? 0 : hit && len ? (h >> 20) % len : 0; return 0; } return !rd && strcmp(op, "unlink") && (h & 4096) ? ENOSPC : 0;
    case 2: return rd && hit ? EIO : 0;
    case 3: if (!states || !rd) return 0; if (!strcmp(op, "read") && (h & 4096) && len) { allow = (h >> 20) % len; return 0; } return hit ? (h & 8192) ? EIO : ENOENT : 0;
    case 4: return rd ? 0 : EROFS;
    case 5: return EIO;
    default: if ((wr || !strcmp(op, "read")) && len) allow = 1 + (h >> 20) % len; return 0;
    }
  };
}
// bring the windows up to date
static Rep &sync(Net *n) {
  Rep &r = reps[n];
  for (; r.evSeen < n->evs.size(); r.evSeen++) {
    const Ev &e = n->evs[r.evSeen];
    if (e.dest != D_ALL || !storable(e.l)) continue;
    Item it; it.ev = r.evSeen; it.cmd = e.l.cmd; it.target = e.l.arg(0); it.text = e.l.arg(1); it.prefix = e.l.prefix; it.sess = e.sess; it.tmin = e.t; it.off = e.off;
    r.byText[key(it.cmd, it.target, it.text)] = r.items.size(); r.items.push_back(it);
  }
  for (size_t i = r.firstOpen; i < r.items.size(); i++) {
    Item &it = r.items[i];
    if (it.tmax != NEVER || it.dead) { if (i == r.firstOpen) r.firstOpen++; continue; }
    Session *s = n->sess;
    if (!s || it.sess != s->id) { it.dead = true; continue; }
    if (!it.own && s->c && s->c->rxBytes - s->c->rcvbuf.size() >= it.off) it.tmax = K.now;
  }
  for (auto &m : r.marks) if (m.tmax == NEVER && m.c && !m.c->fdOpen) m.tmax = K.now;
  return r;
}
void replayTick() { if (on()) for (auto n : W.nets) sync(n); }
// a client said something
void replaySaid(CInst *c, const Line &l) {
  if (!on() || !(l.cmd == "PRIVMSG" || l.cmd == "NOTICE") || l.a.size() != 2) return;
  Net *n = c->n; Rep &r = sync(n);
  if (!storable(l)) { if (l.cmd == "PRIVMSG" || starts(l.arg(1), "\001")) r.marks.push_back(Mark{K.now, NEVER, false, nullptr, c->id, ""}); return; }
  Item it; it.own = true; it.cmd = l.cmd; it.target = l.arg(0); it.text = l.arg(1); it.sess = n->sess ? n->sess->id : 0; it.from = c->id; it.tmin = K.now; it.prefix = n->meNick;
  r.byText[key(it.cmd, it.target, it.text)] = r.items.size(); r.items.push_back(it);
  r.marks.push_back(Mark{K.now, NEVER, false, nullptr, c->id, key(it.cmd, it.target, it.text)});
}
// a message of a client reached the server
void replayWire(Session *s, const Line &l) {
  if (!on()) return;
  Rep &r = sync(s->n);
  auto it = r.byText.find(key(l.cmd, l.arg(0), l.arg(1)));
  if (it == r.byText.end() || !r.items[it->second].own) return;
  Item &i = r.items[it->second];
  if (i.wire >= 0) return;
  i.wire = r.wireNo++; i.tmax = K.now; i.sess = s->id; i.dead = false;
  for (auto &m : r.marks) if (m.text == it->first) { m.tmax = K.now; m.sure = true; }
}
void replayDetached(CInst *c) {
  if (!on() || !c->n) return;
  Rep &r = sync(c->n);
  r.marks.push_back(Mark{K.now, NEVER, c->burst, c->c, c->id, "detach"});
}
// what an attaching client was shown before it was done
bool replayLine(CInst *c, const Line &l) {
  if (!on() || c->burst) return false;
  if (!storable(l) || l.nick.empty()) return false;
  pres[c].got.push_back(l);
  return true;
}
static std::string untimed(const std::string &t) {
  size_t o = 0; if (starts(t, "\001")) { size_t sp = t.find(' '); if (sp != std::string::npos) o = sp + 1; }
  if (t.size() >= o + 11 && t[o] == '[' && t[o + 3] == ':' && t[o + 6] == ':' && t[o + 9] == ']') return t.substr(0, o) + t.substr(o + 11);
  return t;
}
bool replayPrefixed(const Line &l) { return on() && storable(l); }
// the client is in: judge
void replayDone(CInst *c) {
  if (!on()) return;
  Net *n = c->n; Rep &r = sync(n); Pre p = pres[c]; pres.erase(c);
  bool timed = W.s.reportTime != "never", faulty = W.s.hostileDisk;
  std::vector<size_t> m; std::set<size_t> seen;
  for (auto &l : p.got) {
    auto it = r.byText.find(key(l.cmd, l.arg(0), l.arg(1)));
    if (it == r.byText.end() && timed) it = r.byText.find(key(l.cmd, l.arg(0), untimed(l.arg(1))));
    if (it == r.byText.end()) { violation(faulty ? "P14.fabricated" : "P13.fabricated", strf("%s was shown '%s', which nobody said like that", c->label.c_str(), esc(l.raw).c_str())); continue; }
    Item &i = r.items[it->second];
    if (i.own ? l.nick.empty() : l.prefix != i.prefix) violation(faulty ? "P14.sender" : "P13.sender", strf("%s was shown '%s', which came from '%s'", c->label.c_str(), esc(l.raw).c_str(), i.prefix.c_str()));
    if (i.own && !ieq(l.nick, i.prefix) && !ieq(l.nick, n->meNick) && !n->nickHist.count(lc(l.nick))) violation(faulty ? "P14.sender" : "P13.sender", strf("%s was shown '%s' as said by the user, who was %s", c->label.c_str(), esc(l.raw).c_str(), i.prefix.c_str()));
    if (!seen.insert(it->second).second) { violation(faulty ? "P14.duplicate" : "P13.duplicate", strf("%s was shown '%s' twice", c->label.c_str(), esc(l.raw).c_str())); continue; }
    m.push_back(it->second);
  }
  stats.add("chk.replays"); stats.add("chk.replayed_messages", m.size());
  for (size_t a = 0; a < m.size(); a++) for (size_t b = a + 1; b < m.size() && b < a + 40; b++) {
    Item &x = r.items[m[a]], &y = r.items[m[b]]; bool bad = false;
    if (!x.own && !y.own) bad = x.ev > y.ev;
    else if (x.own && y.own) bad = (x.wire >= 0 && y.wire >= 0 && x.wire > y.wire) || (x.from == y.from && m[a] > m[b]);
    if (!bad) bad = y.tmax < x.tmin;
    if (bad) { violation(faulty ? "P14.order" : "P13.order", strf("%s was shown '%s' before '%s'", c->label.c_str(), esc(x.text).c_str(), esc(y.text).c_str())); a = m.size(); break; }
  }
  // from where on
  usec mmin = -1, mmax = -1;
  bool settled = c->sessAtDial && n->sess && n->sess->id == c->sessAtDial && n->ready() && K.now - n->sess->proxyReadyAt > 0;
  bool hl = W.s.replication == "highlight", simple = W.s.replication == "simple";
  const char *why = "the connection began";
  for (auto &k : r.marks) {
    bool det = k.text == "detach", att = k.text == "attach";
    if (hl ? !att : simple ? det || att : !det) continue;
    if (k.client == c->id && att) continue;
    if (k.tmin > K.now) continue;
    if (k.sure && k.tmax <= c->born) mmin = std::max(mmin, k.tmin);
    mmax = std::max(mmax, std::min(k.tmax, K.now));
    why = hl ? "a client attached" : simple ? "the user spoke" : "a client detached";
  }
  if (hl) mmax = std::max(mmax, (usec)-1);
  for (size_t x : m) { Item &i = r.items[x];
    if (!promised(i) && i.tmax < c->born) violation("P13.extra", strf("%s was shown '%s', which contains none of the words", c->label.c_str(), esc(i.text).c_str()));
    if (i.tmax < mmin) violation("P13.extra", strf("%s was shown '%s' again, from before %s", c->label.c_str(), esc(i.text).c_str(), why));
    else if (n->sess && i.sess != n->sess->id && !(c->sessAtDial == i.sess)) violation("P13.extra", strf("%s was shown '%s' of an earlier connection", c->label.c_str(), esc(i.text).c_str())); }
  size_t base = 0; bool have = false, capped = false; size_t cap = n->evs.size();
  for (size_t x : m) if (!r.items[x].own) { base = std::max(base, r.items[x].ev + 1); have = true; }
  if (!have) { base = n->evs.size(); for (auto &i : r.items) if (!i.own && !(i.tmax < c->born)) { base = std::min(base, i.ev); break; } base = std::min(base, std::max(c->lo, c->evAtDial)); }
  if (settled) {
    int lost = 0;
    for (size_t x = 0; x < r.items.size(); x++) { Item &i = r.items[x];
      if (i.sess != n->sess->id || i.dead || seen.count(x) || !promised(i) || i.tmin <= mmax) continue;
      if (i.own && i.wire < 0) continue;
      if (i.own && i.from == c->id) continue;
      bool bad = faulty && (troubled(i.tmin, i.tmax) || troubled(c->born, K.now) || troubled(n->sess->born, n->sess->proxyReadyAt));
      if (i.tmax < c->born) { if (!bad && !lost++) violation(faulty ? "P14.lost" : "P13.lost", strf("%s was not shown '%s', said after %s", c->label.c_str(), esc(i.text).c_str(), why)); }
      else if (!i.own && i.ev >= base && !capped) { cap = std::min(cap, i.ev); capped = true; }
    }
  }
  if (capped && cap >= base && !faulty) { c->pos.clear(); for (size_t i = base; i <= cap; i++) c->pos.insert(i); }
  else { c->pos.clear(); for (size_t i = std::min(base, n->evs.size()); i <= n->evs.size(); i++) c->pos.insert(i); }
  // what was replayed must not be mirrored as well
  for (size_t x : m) if (r.items[x].own) for (auto &k : c->mirrors) if (k.cmd == r.items[x].cmd && k.target == r.items[x].target && k.text == r.items[x].text) { k.seen = true; }
  for (auto &k : r.marks) if (k.text == "attach" && k.client == c->id) { k.tmax = K.now; k.sure = true; }
}
void replayDialed(CInst *c) {
  if (!on()) return;
  sync(c->n); c->sessAtDial = c->n->ready() ? c->n->sess->id : 0; c->evAtDial = c->n->evs.size();
  for (size_t i = c->evAtDial; i-- > 0;) {
    const Ev &e = c->n->evs[i]; Session *s = nullptr; for (auto x : c->n->sessions) if (x->id == e.sess) s = x;
    if (!s || !s->c->fdOpen || s->c->rxBytes - s->c->rcvbuf.size() >= e.off) { c->evAtDial = i + 1; break; }
    c->evAtDial = i;
  }
  reps[c->n].marks.push_back(Mark{K.now, NEVER, false, nullptr, c->id, "attach"});
}
void replayQuiet() {
  if (!on()) return;
  for (auto n : W.nets) { Rep &r = sync(n);
    for (size_t i = r.marks.size(); i-- > 0;) { Mark &m = r.marks[i]; if (m.tmax != NEVER || m.c) continue; if (m.text.empty() || m.text == "attach") m.tmax = K.now; else r.marks.erase(r.marks.begin() + i); } }
}
