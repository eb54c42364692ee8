#include "world.h"
#include <signal.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/stat.h>
#include <algorithm>
World W;
std::string tokenOf(int uid) { return strf("t%d", uid); }
std::string opText(const Op &o) { return strf("%d %s %d %d %d %d %lld", o.uid, o.k.c_str(), o.a, o.b, o.c, o.d, (long long)o.gap); }
std::string slurp(const std::string &p) {
  std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s;
  char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f); return s;
}
bool spit(const std::string &p, const std::string &d) {
  FILE *f = fopen(p.c_str(), "w"); if (!f) return false;
  fwrite(d.data(), 1, d.size(), f); fclose(f); return true;
}
static const char *CLIHOST = "user.example";

// ================================================================ network
std::string Net::mask(const std::string &nick) {
  User *u = user(nick);
  if (!u) return nick + "!u@h.test";
  return u->nick + "!" + u->user + "@" + u->host;
}
void Net::touch(const std::string &c) { if (Chan *x = chan(c)) hist[lc(c)].push_back({evs.size(), *x}); }
static bool channelInfo(const Line &l) { int n = l.num(); return n == 331 || n == 332 || n == 333 || n == 353 || n == 366 || n == 442 || n == 403; }
static bool channelQuery(const Line &l) { return (l.cmd == "TOPIC" || l.cmd == "NAMES") && l.a.size() == 1; }
void Net::record(Session *s, const std::string &raw, int dest, bool opt, unsigned wild) {
  Ev e; e.l = parseLine(raw); e.dest = dest; e.opt = opt; e.wild = wild; e.sess = s->id; e.t = K.now; e.off = s->c->sentBytes + raw.size() + 2;
  e.num = e.l.num() != 0;
  e.mine = !e.l.nick.empty() && !meNick.empty() && ieq(e.l.nick, meNick);
  if (e.num) { // the proxy shows a client its own user@host instead of the one the server knows
    int nn = e.l.num();
    if (nn == 302) e.wild |= 2;
    if ((nn == 311 || nn == 314) && ieq(e.l.arg(1), meNick)) e.wild |= 4 | 8;
    if (nn == 352 && ieq(e.l.arg(5), meNick)) e.wild |= 4 | 8;
  }
  if (channelInfo(e.l)) for (int i = 1; i < 3; i++) { auto it = amb.find(lc(e.l.arg(i))); if (it != amb.end() && it->second > K.now) { e.any = e.opt = true; } }
  evs.push_back(e);
}
void Net::ambiguous(const std::string &c) {
  amb[lc(c)] = K.now + 20 * SEC;
  for (size_t i = evs.size(); i-- > 0 && evs[i].t > K.now - 20 * SEC;) if (channelInfo(evs[i].l) && (ieq(evs[i].l.arg(1), c) || ieq(evs[i].l.arg(2), c))) { evs[i].any = evs[i].opt = true; }
}
void Net::emit(const std::string &raw, bool opt) { if (sess && sess->st == Session::READY) sess->put(raw, D_ALL, opt); }
bool Net::ready() { return sess && sess->st == Session::READY && sess->proxyReady && !sess->silent && !(sess->expectClose && sess->c && !sess->c->fdOpen); }
void Net::meGone() {
  if (meNick.empty()) return;
  std::string m = lc(meNick);
  for (auto &p : chans) p.second.mem.erase(m);
  users.erase(m);
  meNick.clear(); meAway = false;
}

// ================================================================ server side of a connection
void Session::onConnected(Conn *) {
  born = K.now; lastHeard = K.now;
  Srv &sv = n->srv[srvIdx];
  tracef("session %d of %s on %s", id, n->def.name.c_str(), host().c_str());
  int live = 0; for (auto s : n->sessions) if (s != this && s->st != CLOSED && s->c && s->c->fdOpen) live++;
  for (auto s : n->sessions) if (s != this && s->expectClose && s->c && !s->c->fdOpen) s->ended(true);      // gone, even if its last words are still under way
  if (live) violation("P10.two-connections", strf("network %s: new connection to %s while another is open", n->def.name.c_str(), host().c_str()));
  if (!n->want && n->wantKnown) violation(W.s.auth ? "P15.connect" : "P10.unwanted-connection", strf("network %s was disconnected by the user but connects to %s", n->def.name.c_str(), host().c_str()));
  n->sess = this; adminSession(this);
  if (sv.mode == 7) fallSilent();
  K.after(1, [this]() { if (c->remoteClosed && !weClosed) ended(true); });
}
void Session::fallSilent() {
  silent = true; silentAt = K.now;
  usec t = K.now;
  K.after(400 * SEC, [this, t]() {
    if (!silent || silentAt != t || st == CLOSED || !c->fdOpen || !proxyUp() || W.finished || W.shuttingDown) return;
    stats.add("chk.silent_server");
    violation("P11.not-dropped", strf("%s has been silent for 400 s, but the proxy keeps the connection", host().c_str()));
  });
}
void Session::put(const std::string &raw, int dest, bool opt, unsigned wild) {
  if (st == CLOSED || silent || weClosed) return;
  lastSent = K.now;
  if (st == READY && dest != D_NONE) { n->record(this, raw, dest, opt, wild); W.serverMsgs++; }
  tracef("srv %s> %s", n->def.name.c_str(), esc(raw).c_str());
  logsPut(this, raw);
  c->send(raw + "\r\n");
}
void Session::num(int code, const std::string &rest, int dest, unsigned wild) {
  put(strf(":%s %03d %s %s", host().c_str(), code, n->meNick.empty() ? (nick.empty() ? "*" : nick.c_str()) : n->meNick.c_str(), rest.c_str()), dest, false, wild);
  if ((code < 400 && code != 301) || dest < 0 || n->evs.empty() || n->evs.back().dest != dest) return;
  // an error that commands of several clients may have caused: who gets it cannot be told from the outside
  std::set<int> who;
  for (int i = 1; i < (int)n->evs.back().l.a.size() - 1; i++) { auto it = n->askers.find(lc(n->evs.back().l.a[i])); if (it != n->askers.end()) who.insert(it->second.begin(), it->second.end()); }
  for (auto c : W.clients) if (c->n == n) for (auto &p : c->pend) { Line q = parseLine(p.raw); for (int i = 1; i < (int)n->evs.back().l.a.size() - 1; i++) for (int j = 0; j < 2; j++) for (auto &t : split(q.arg(j), ',')) if (ieq(t, n->evs.back().l.a[i])) who.insert(c->id); }
  who.erase(dest);
  if (!who.empty()) { n->evs.back().alt = who; n->evs.back().opt = true; for (int i = 1; i < (int)n->evs.back().l.a.size() - 1; i++) if (strchr("#&", n->evs.back().l.a[i][0])) n->ambiguous(std::string(n->evs.back().l.a[i])); }
}
void Session::onData(Conn *, const std::string &d) {
  if (silent || weClosed) return;
  buf += d;
  lastHeard = K.now;
  size_t p;
  while ((p = buf.find('\n')) != std::string::npos) {
    std::string l = buf.substr(0, p); buf.erase(0, p + 1);
    if (!l.empty() && l.back() == '\r') l.pop_back();
    else violation("P02.line-ending", "line without CRLF: " + esc(l));
    if (st == CLOSED || silent || weClosed) return;
    line(l);
  }
}
void Session::onClosed(Conn *, bool reset) {
  if (st == CLOSED) return;
  bool expected = weClosed || expectClose || W.shuttingDown || !proxyUp() || silent || n->srv[srvIdx].mode >= 5;
  if (!expected)
    violation("session.dropped", strf("the proxy closed its connection to %s (%s) although the server was fine", n->def.name.c_str(), host().c_str()));
  ended(true);
}
NextLogin Net::nextLogin(bool exact, Session *s) {
  NextLogin x; x.rejoin = rejoin; x.nicks = nickOk; x.want = want; x.wantKnown = wantKnown;
  if (!s) s = sess;
  if (s && s->st == Session::READY) {
    std::map<std::string, MustJoin> next;
    for (auto &p : chans) if (meOn(p.second)) {
      MustJoin m; m.name = p.second.name; m.key = p.second.key; m.must = s->proxyReady && exact; m.keyKnown = knownKey.count(p.first) && exact;
      if (!s->proxyReady) m.must = s->joins.count(p.first) ? s->joins[p.first].must : false;
      next[p.first] = m;
    }
    for (auto &p : s->joins) if (!next.count(p.first)) {   // asked for at login but never settled
      if (p.second.seen == 3) continue;                  // joined and left again
      if (p.second.seen != 2) { MustJoin m = p.second; m.seen = 0; m.asked = false; next[p.first] = m; }
    }
    if (!exact) for (auto &p : chans) if (!next.count(p.first)) { MustJoin m; m.name = p.second.name; m.must = false; m.keyKnown = false; next[p.first] = m; }
    x.rejoin = next;
    if (exact && s->proxyReady) x.nicks.clear();
    x.nicks.insert(meNick);
  }
  if (!meNick.empty()) x.nicks.insert(meNick);
  return x;
}
void Session::ended(bool lossyLoss) {
  if (st == CLOSED) return;
  bool was = st == READY;
  W.losses++; logsEnded(this);
  tracef("session %d of %s ended%s", id, n->def.name.c_str(), lossyLoss ? " (lossy)" : "");
  shape(strf("end%d", n->id));
  if (was) {
    size_t from = std::max(n->quietIdx, evFrom);
    if (lossyLoss && from < n->evs.size()) n->lossy.push_back({from, n->evs.size()});
    // what the next login has to look like
    NextLogin x = n->nextLogin(!lossyLoss, this);
    n->rejoin = x.rejoin; n->nickOk = x.nicks; n->memOld = n->mem; n->mem = x;
  }
  if (!n->meNick.empty()) n->nickOk.insert(n->meNick);
  st = CLOSED;
  n->meGone();
  n->downSince = n->lostAt = K.now;
  n->knownKey.clear();
  for (auto cl : W.clients) if (cl->n == n && cl->alive()) { cl->splitSess = id; cl->splitQuit = true; cl->splitHosts.insert(host()); for (auto &v : cl->view.ch) v.second.stale = true; }
  if (n->sess == this) n->sess = nullptr;
}
void Session::close(bool reset) {
  if (st == CLOSED || weClosed) return;
  weClosed = true;
  c->closeRemote(reset);
  // with a FIN everything sent before it reaches the proxy, unless the proxy's own writes draw a reset first
  ended(reset || expectClose || c->drainPending || !c->sndbuf.empty() || c->stallOut);
}
// A line the proxy sent us. Who asked for it?
static int noReplyCmd(const std::string &c) { return c == "PRIVMSG" || c == "NOTICE" || c == "JOIN" || c == "PART" || c == "KICK" || c == "MODE" || c == "TOPIC" || c == "INVITE" || c == "NICK"; }
void Session::line(const std::string &raw) {
  Line l = parseLine(raw);
  tracef("srv %s< %s", n->def.name.c_str(), esc(raw).c_str());
  n->wireLog.push_back(raw);
  shape("w" + l.cmd);
  W.clientMsgs++; authWire(this, raw); adminWire(this, raw);
  if (!l.ok) { violation("P02.fabricated", strf("empty line sent to %s", n->def.name.c_str())); return; }
  if (raw[0] == ':') violation("P02.altered", "line with a prefix sent to the server: " + esc(raw));
  if (st == LOGIN && (l.cmd == "PASS" || l.cmd == "NICK" || l.cmd == "USER") && !(gotNick && gotUser && !refusedNick)) {
    login.push_back(raw);
    if (l.cmd == "PASS") { pass = l.arg(0); gotPass = true; if (gotNick || gotUser) violation("P09.login", "PASS after NICK/USER"); }
    if (l.cmd == "NICK") {
      if (!gotNick && !refusedNick) {
        bool ok = false; for (auto &x : n->nickOk) if (x == l.arg(0)) ok = true;
        if (n->attachNicks.count(l.arg(0))) ok = true;
        if (!ok && !expectClose) violation("P09.login", strf("network %s logs in as '%s'", n->def.name.c_str(), l.arg(0).c_str()));
      }
      if (refusedNick && ieq(l.arg(0), nick)) violation("P09.login", "the refused nick is tried again: " + l.arg(0));
      nick = l.arg(0); gotNick = true; refusedNick = false;
      if (retry.count(nick) && retry[nick] > 0) retry[nick]--;
    }
    if (l.cmd == "USER") {
      gotUser = true; user = l.arg(0);
      if ((l.arg(0) != n->def.username || l.arg(3) != n->def.fullname) && !expectClose)
        violation("P09.login", strf("USER says '%s' '%s'", l.arg(0).c_str(), l.arg(3).c_str()));
    }
    if (gotNick && gotUser) {
      Srv &sv = n->srv[srvIdx];
      if (pass != sv.def.pass && !expectClose) violation("P09.login", strf("password '%s' sent to %s, configured '%s'", pass.c_str(), sv.def.host.c_str(), sv.def.pass.c_str()));
      if (sv.mode == 6) { close(true); return; }
      auto g = n->ghosts.find(lc(nick));
      bool taken = n->users.count(lc(nick)) || (g != n->ghosts.end() && g->second > K.now);
      if (taken) {
        refusedNick = true; gotNick = false;
        put(strf(":%s 433 * %s :Nickname is already in use.", host().c_str(), nick.c_str()), D_NONE);
        retry[nick + "_"]++;
        stats.add("fault.nick_taken");
        return;
      }
      welcome();
    }
    return;
  }
  if (l.cmd == "PONG") {
    if (pongs.empty() || pongs.front().first != l.arg(0)) violation("P11.pong", strf("PONG '%s' answers no ping of ours (expected '%s')", l.arg(0).c_str(), pongs.empty() ? "" : pongs.front().first.c_str()));
    else pongs.pop_front();
    return;
  }
  featureAnyWire(this, l); logsWire(this, l);
  // from a client?
  CInst *best = nullptr; int bestSkip = 1 << 30; size_t bestIdx = 0;
  for (auto cl : W.clients) {
    if (cl->n != n) continue;
    int skip = 0;
    for (size_t i = 0; i < cl->pend.size(); i++) {
      if (cl->pend[i].gone) continue;
      if (cl->pend[i].raw == raw) { if (skip < bestSkip) { bestSkip = skip; best = cl; bestIdx = i; } break; }
      if (cl->pend[i].mand) skip++;
    }
  }
  bool earlier = false; if (best) for (size_t i = 0; i < bestIdx; i++) if (!best->pend[i].gone && !best->pend[i].told) earlier = true;
  bool ownJoin = false;                                   // more likely the proxy rejoining than the client joining
  if (best && l.cmd == "JOIN") { auto it = joins.find(lc(l.arg(0))); ownJoin = it != joins.end() && !it->second.asked && (it->second.must || earlier); }
  if (best && bestSkip == 0 && !ownJoin) {}
  else if (best && proxyOrigin(l)) { handle(l, nullptr); return; }
  if (best) {
    if (st != READY) { violation("P09.early", strf("client traffic before registration finished: %s", esc(raw).c_str())); }
    int bestUid = best->pend[bestIdx].uid;
    for (size_t i = 0; best->pend[i].uid != bestUid;) {
      Pend &q = best->pend[i];
      if (q.gone || q.told) { i++; continue; }
      if (q.mand && q.sess == id) { violation("P02.lost", strf("'%s' from %s was overtaken or lost: server got '%s' first", esc(q.raw).c_str(), best->label.c_str(), esc(raw).c_str())); best->pend.erase(best->pend.begin() + i); }
      else { q.gone = true; i++; }           // the proxy handled it before this one: it must have said so
    }
    size_t which = 0; while (best->pend[which].uid != bestUid) which++;
    // the same question asked twice: not the one whose answer is already coming in
    auto answered = [&](int uid) { for (auto &q : best->cacheQ) if (q.uid == uid && q.raw == raw && !q.got.empty()) return true; return false; };
    if (answered(bestUid)) for (size_t i = which + 1; i < best->pend.size(); i++) if (best->pend[i].raw == raw && !answered(best->pend[i].uid)) { which = i; break; }
    Pend p = best->pend[which]; best->pend.erase(best->pend.begin() + which);
    stats.add("chk.wire_matched");
    for (auto it = best->cacheQ.begin(); it != best->cacheQ.end(); ++it) if (it->uid == p.uid && it->raw == raw) {
      if (!it->got.empty()) violation("P08.both", strf("'%s' was both answered and forwarded", esc(raw).c_str()));
      best->cacheQ.erase(it); break;
    }
    for (int i = 0; i < 2 && i < (int)l.a.size(); i++) for (auto &t : split(l.a[i], ',')) n->askers[lc(t)].insert(best->id);
    if (W.onTraffic) W.onTraffic(n, l, true, best);
    handle(l, best);
    return;
  }
  if (proxyOrigin(l)) { handle(l, nullptr); return; }
  for (auto &p : n->purged) if (p == raw) {
    violation("P02.late-or-duplicate", strf("server %s got '%s' again, or long after the client sent it", n->def.name.c_str(), esc(raw).c_str()));
    handle(l, nullptr); return;
  }
  for (auto other : W.nets) if (other != n) {
    for (auto cl : W.clients) if (cl->n == other) for (auto &p : cl->pend) if (p.raw == raw) { violation("P18.cross-wire", strf("server %s got '%s' meant for %s", n->def.name.c_str(), esc(raw).c_str(), other->def.name.c_str())); return; }
  }
  int seen = 0; for (auto &w : n->wireLog) if (w == raw) seen++;
  violation(seen > 1 ? "P02.duplicate" : "P02.fabricated", strf("server %s got '%s', which no client sent%s", n->def.name.c_str(), esc(raw).c_str(), seen > 1 ? " another time" : ""));
  handle(l, nullptr);
}
bool Session::proxyOrigin(const Line &l) {
  if (l.cmd == "PING" && l.arg(0) == "ctrlproxy") { pingsSeen++; return true; }
  if (l.cmd == "QUIT") {
    gotQuit = true;
    if (!weClosed && !expectClose && !W.shuttingDown && !silent)
      violation("session.quit", strf("the proxy sent QUIT to %s without being told to", n->def.name.c_str()));
    return true;
  }
  if (l.cmd == "NICK") {
    if (expectClose) return true;
    if (W.s.autoAway && featureWire(this, l)) return true;
    auto it = n->attachNicks.find(l.arg(0));
    if (it != n->attachNicks.end() && it->second > 0) { it->second--; return true; }
    it = retry.find(l.arg(0));                            // the answer to a refusal, after a client's nick was accepted
    if (it != retry.end() && it->second > 0) { it->second--; return true; }
    if (featureWire(this, l)) return true;
    return false;
  }
  if (st == READY) {
    if (l.cmd == "USERHOST" && l.a.size() == 1 && (ieq(l.arg(0), n->meNick) || n->nickOk.count(l.arg(0))) && !userhostSeen) {
      userhostSeen = true; proxyReady = true; proxyReadyAt = K.now; n->nickOk.clear(); n->nickOk.insert(n->meNick); n->nickOk.insert(l.arg(0));
      for (auto cl : W.clients) if (cl->n == n) {
        for (auto &p : cl->pend) if (!p.gone && p.t < readyAt - 1 * SEC) { p.gone = true; n->purged.push_back(p.raw); }
      }
      return true;
    }
    for (size_t i = 0; i < autoLeft.size(); i++) if (autoLeft[i] == l.raw) {
      if (i) violation("P09.autocmd", "startup commands out of order: " + esc(l.raw));
      autoLeft.erase(autoLeft.begin() + i); return true;
    }
    if (l.cmd == "JOIN") {
      auto it = joins.find(lc(l.arg(0)));
      if (it != joins.end() && !it->second.asked) {
        it->second.asked = true; if (!it->second.seen) it->second.seen = 1;
        bool conf = false;                                    // a configured key does no harm where none is needed
        if (it->second.key.empty()) for (auto &d : n->def.chans) if (ieq(d.name, l.arg(0)) && d.key == l.arg(1)) conf = true;
        if (it->second.key.empty()) for (auto &h : n->hist[lc(l.arg(0))]) if (h.second.key == l.arg(1)) conf = true;
        if (it->second.keyKnown && l.arg(1) != it->second.key && !conf) violation("P09.join-key", strf("joins %s with key '%s' instead of '%s'", l.arg(0).c_str(), l.arg(1).c_str(), it->second.key.c_str()));
        return true;
      }
    }
  }
  if (featureWire(this, l)) return true;
  return false;
}
void Session::welcome() {
  st = BURST;
  W.logins++;
  if (nick.size() > 12) nick.resize(12);                  // the server's limit
  User me; me.nick = nick; me.user = "~" + user; me.host = "proxy.test"; me.real = n->def.fullname;
  n->users[lc(nick)] = me; n->meNick = nick; n->nickOk.insert(nick); n->nickHist.insert(lc(nick)); n->askers.clear();
  std::vector<std::string> b;
  std::string h = host(), N = nick;
  auto add = [&](const char *code, const std::string &r) { b.push_back(":" + h + " " + code + " " + N + " " + r); };
  add("001", ":Welcome to the " + n->def.name + " IRC Network " + n->mask(nick));
  add("002", ":Your host is " + h + ", running version sim-1");
  add("003", ":This server was created today");
  add("004", h + " sim-1 iosw biklmnopstv");
  if (n->def.isupport2) {
    add("005", "SAFELIST ELIST=MNU MAXTARGETS=4 NICKLEN=12 TOPICLEN=300 CASEMAPPING=" + n->def.casemap + " STATUSMSG=@+ :are supported by this server");
    add("005", "PREFIX=" + n->def.prefixes + " CHANTYPES=" + n->def.chantypes + " CHANLIMIT=#&:20 MODES=6 CHANMODES=b,k,l,imnpst NETWORK=" + n->def.name + " :are supported by this server");
  } else add("005", "CHANTYPES=" + n->def.chantypes + " PREFIX=" + n->def.prefixes + " CHANMODES=b,k,l,imnpst NETWORK=" + n->def.name + " CASEMAPPING=" + n->def.casemap + " :are supported by this server");
  add("251", ":There are 6 users and 0 invisible on 1 servers");
  add("254", "5 :channels formed");
  add("255", ":I have 6 clients and 0 servers");
  if (hashn(W.s.seed, id, 3) % 3 == 0) add("422", ":MOTD File is missing");
  else { add("375", ":- " + h + " Message of the day -"); add("372", ":- hello there"); add("376", ":End of /MOTD command."); }
  usec spread = (usec)(W.s.welcomeSpread * SEC);
  size_t k = b.size();
  auto fin = [this]() {
    st = READY; readyAt = K.now; evFrom = n->evs.size();
    for (auto cl : W.clients) if (cl->n == n && cl->alive() && !cl->splitSess) cl->splitSess = id;
    autoLeft = n->def.autocmd; joins = n->rejoin; userhostSeen = false;
    featureSessionReady(this);
  };
  if (!spread) {
    for (size_t i = 0; i < k; i++) put(b[i], D_NONE);
    fin();
  } else {
    n->burstBusy++;
    for (size_t i = 0; i < k; i++) {
      usec t = spread * (i + 1) / k;
      std::string x = b[i]; bool last = i + 1 == k;
      K.after(t, [this, x, last, fin]() { if (last) n->burstBusy--; if (st != BURST) return; put(x, D_NONE); if (last && !silent) fin(); });
    }
  }
}
void Session::doJoin(const std::string &name, const std::string &key, CInst *asker) {
  int to = asker ? asker->id : D_ALL;
  auto jn = joins.find(lc(name));
  Chan *ch = n->chan(name);
  if (!ch) {
    if (!strchr("#&", name[0])) { num(403, name + " :No such channel", to); return; }
    Chan c; c.name = name; c.flags = "nt"; n->chans[lc(name)] = c; ch = n->chan(name);
  }
  if (n->meOn(*ch)) return;
  bool banned = std::find(ch->bans.begin(), ch->bans.end(), "*!*@proxy.test") != ch->bans.end();
  int err = 0;
  if (!ch->key.empty() && key != ch->key) err = 475;
  else if (banned) err = 474;
  else if (ch->flags.find('i') != std::string::npos) err = 473;
  if (err) { if (jn != joins.end()) jn->second.seen = 2; num(err, ch->name + " :Cannot join channel", to); return; }
  if (jn != joins.end()) jn->second.seen = 3;
  bool amb = false;                                       // somebody is asking about the channel at this moment
  for (auto cl : W.clients) if (cl->n == n) { for (auto &p : cl->pend) { Line q = parseLine(p.raw); if (channelQuery(q) && ieq(q.arg(0), name)) amb = true; } for (auto &q : cl->cacheQ) if (ieq(q.target, name)) amb = true; }
  for (size_t i = n->evs.size(); i-- > 0 && n->evs[i].t > K.now - 20 * SEC;) if (n->evs[i].dest >= 0 && channelInfo(n->evs[i].l) && (ieq(n->evs[i].l.arg(1), name) || ieq(n->evs[i].l.arg(2), name))) amb = true;
  if (amb) n->ambiguous(name);
  n->emit(":" + n->mask(n->meNick) + (W.s.seed & 1 ? " JOIN :" : " JOIN ") + ch->name);
  char st0 = ch->mem.empty() ? '@' : 0;
  ch->mem[lc(n->meNick)] = st0;
  n->touch(ch->name);
  if (!ch->topic.empty()) { num(332, ch->name + " :" + ch->topic, D_ALL); num(333, strf("%s %s %ld", ch->name.c_str(), ch->topicBy.c_str(), ch->topicAt), D_ALL); }
  std::string names; int k = 0;
  for (auto &m : ch->mem) {
    User *u = n->user(m.first); if (!u) continue;
    if (!names.empty()) names += " ";
    if (m.second) names += m.second;
    names += u->nick; k++;
    if (W.s.crowd ? names.size() > 380 : k % 4 == 0) { num(353, "= " + ch->name + " :" + names, D_ALL); names.clear(); }
  }
  if (!names.empty()) num(353, "= " + ch->name + " :" + names, D_ALL);
  num(366, ch->name + " :End of /NAMES list.", D_ALL);
  n->touch(ch->name);
}
static std::string modeString(const Chan &c, bool withArgs = true) {
  std::string s = "+" + c.flags, a;
  if (!c.key.empty()) { s += "k"; a += " " + c.key; }
  if (c.limit) { s += "l"; a += strf(" %d", c.limit); }
  return withArgs ? s + a : s;
}
// apply mode changes to a channel and tell everybody; keeps the model free of double statuses
struct ModeCap { Net *n; Chan *ch; std::string pre, flags, args; char sign = 0; bool vis = false; };
static ModeCap *g_cap = nullptr;             // several changes to go into one line
static void capFlush(ModeCap &m) { if (m.vis && !m.flags.empty()) m.n->emit(":" + m.pre + " MODE " + m.ch->name + " " + m.flags + m.args); m.flags.clear(); m.args.clear(); m.sign = 0; }
static void setMode(Net *n, Chan *ch, std::string by, char sign, char m, std::string arg) {
  ModeCap one; ModeCap &cap = g_cap ? *g_cap : one;
  if (!g_cap) { one.n = n; one.ch = ch; one.pre = by.find('!') == std::string::npos && !n->user(by) ? by : n->mask(by); one.vis = n->meOn(*ch); }
  auto put = [&](char sg, char fl, const std::string &ar) {
    if (cap.sign != sg) cap.flags += sg;
    cap.sign = sg; cap.flags += fl;
    if (!ar.empty()) cap.args += " " + ar;
  };
  bool add = sign == '+';
  if (m == 'o' || m == 'h' || m == 'v') {
    if (m == 'h' && n->def.prefixes.find('h') == std::string::npos) return;
    auto rank = [](char c) { return c == '@' ? 3 : c == '%' ? 2 : c == '+' ? 1 : 0; };
    auto it = ch->mem.find(lc(arg)); if (it == ch->mem.end()) return;
    User *u = n->user(arg); if (!u) return;
    char pc = m == 'o' ? '@' : m == 'h' ? '%' : '+';
    if (add) {
      if (rank(it->second) >= rank(pc)) return;
      if (it->second) put('-', it->second == '%' ? 'h' : 'v', u->nick);
      put('+', m, u->nick); it->second = pc;
    } else {
      if (it->second != pc) return;
      it->second = 0; put('-', m, u->nick);
    }
  } else if (m == 'b') {
    auto it = std::find(ch->bans.begin(), ch->bans.end(), arg);
    if (add == (it != ch->bans.end())) return;
    if (add) ch->bans.push_back(arg); else ch->bans.erase(it);
    put(sign, 'b', arg);
  } else if (m == 'k') {
    if (add ? !ch->key.empty() : ch->key.empty()) return;
    put(sign, 'k', add ? arg : ch->key); ch->key = add ? arg : "";
    if (n->meOn(*ch)) n->knownKey.insert(lc(ch->name));
  } else if (m == 'l') {
    int v = atoi(arg.c_str()); if (add ? (v <= 0 || v == ch->limit) : ch->limit == 0) return;
    ch->limit = add ? v : 0; put(sign, 'l', add ? strf("%d", v) : "");
  } else {
    bool has = ch->flags.find(m) != std::string::npos; if (has == add) return;
    if (add) { ch->flags += m; std::sort(ch->flags.begin(), ch->flags.end()); } else ch->flags.erase(ch->flags.find(m), 1);
    put(sign, m, "");
  }
  if (!g_cap) { capFlush(cap); n->touch(ch->name); }
}
// several changes in one line, as servers send them
static void setModes(Net *n, Chan *ch, const std::string &by, const std::vector<std::pair<std::string, std::string>> &ch1) {
  ModeCap c; c.n = n; c.ch = ch; c.pre = by.find('!') == std::string::npos && !n->user(by) ? by : n->mask(by); c.vis = n->meOn(*ch);
  g_cap = &c;
  for (auto &x : ch1) setMode(n, ch, by, x.first[0], x.first[1], x.second);
  g_cap = nullptr;
  capFlush(c);
  n->touch(ch->name);
}
static void partChan(Net *n, Chan *ch, std::string nick, const std::string &why) {
  if (!ch->mem.count(lc(nick))) return;
  bool me = ieq(nick, n->meNick);
  bool vis = n->meOn(*ch);
  if (vis) n->emit(strf(":%s PART %s", n->mask(nick).c_str(), ch->name.c_str()) + (why.empty() ? "" : " :" + why));
  ch->mem.erase(lc(nick));
  if (me) n->knownKey.erase(lc(ch->name));
  n->touch(ch->name);
}
static void changeNick(Net *n, std::string from, std::string to) {
  User *u = n->user(from); if (!u || (n->user(to) && !ieq(from, to))) return;
  bool me = ieq(from, n->meNick), vis = me;
  for (auto &p : n->chans) if (p.second.mem.count(lc(from)) && n->meOn(p.second)) vis = true;
  if (vis) n->emit(":" + n->mask(from) + " NICK :" + to);
  User nu = *u; nu.nick = to; n->users.erase(lc(from)); n->users[lc(to)] = nu;
  for (auto &p : n->chans) { auto it = p.second.mem.find(lc(from)); if (it != p.second.mem.end()) { char s = it->second; p.second.mem.erase(it); p.second.mem[lc(to)] = s; n->touch(p.second.name); } }
  if (me) { n->meNick = to; n->nickOk.insert(to); n->nickHist.insert(lc(to)); featureNick(n, from, to); }
}
static void userQuit(Net *n, std::string nick, const std::string &why) {
  bool vis = false;
  for (auto &p : n->chans) if (p.second.mem.count(lc(nick)) && n->meOn(p.second)) vis = true;
  if (vis) n->emit(":" + n->mask(nick) + " QUIT :" + why);
  for (auto &p : n->chans) if (p.second.mem.erase(lc(nick))) n->touch(p.second.name);
  n->users.erase(lc(nick));
}
void Session::handle(const Line &l, CInst *asker) {
  int to = asker ? asker->id : D_ALL;
  const std::string &cmd = l.cmd; std::string me = n->meNick, a0 = l.arg(0), a1 = l.arg(1);
  if (st != READY) {
    if (cmd == "QUIT") { K.after(1 * MS, [this]() { close(false); }); return; }
    if (cmd == "NICK" && st == BURST) { return; }
    return;
  }
  auto isChan = [](const std::string &s) { return !s.empty() && strchr("#&", s[0]); };
  if (cmd == "PING") { put(":" + host() + " PONG " + host() + " :" + a0, D_NONE); return; }
  if (cmd == "QUIT") { put("ERROR :Closing Link: bye", D_ALL, true); K.after(1 * MS, [this]() { close(false); }); return; }
  if (cmd == "JOIN") { auto ks = split(a1, ','); int i = 0; for (auto &c : split(a0, ',')) { doJoin(c, i < (int)ks.size() ? ks[i] : "", asker); i++; } return; }
  if (cmd == "PART") { for (auto &c : split(a0, ',')) { Chan *ch = n->chan(c); if (!ch) num(403, c + " :No such channel", to); else if (!n->meOn(*ch)) num(442, c + " :You're not on that channel", to); else partChan(n, ch, me, a1); } return; }
  if (cmd == "NICK") {
    if (a0.empty()) { num(431, ":No nickname given", to); return; }
    if (isdigit((unsigned char)a0[0])) { num(432, a0 + " :Erroneous nickname", to); return; }
    auto g = n->ghosts.find(lc(a0));
    if (!ieq(a0, me) && (n->user(a0) || (g != n->ghosts.end() && g->second > K.now))) { num(433, a0 + " :Nickname is already in use.", to); if (!asker && !n->evs.empty()) n->evs.back().any = n->evs.back().opt = true; return; }
    if (a0 != me) changeNick(n, me, a0);
    return;
  }
  if (cmd == "NS") { if (l.a.size() > 1) n->emit(":NickServ!services@services.test NOTICE " + me + " :You are now identified."); return; }
  if ((cmd == "PRIVMSG" || cmd == "NOTICE") && l.a.size() < 2) return;
  if (cmd == "PRIVMSG" || cmd == "NOTICE") {
    bool note = cmd == "NOTICE";
    if (a0.find(',') != std::string::npos) return;
    if (isChan(a0)) {
      Chan *ch = n->chan(a0);
      if (!ch) { if (!note) num(403, a0 + " :No such channel", to); }
      else if (!n->meOn(*ch) && ch->flags.find('n') != std::string::npos && starts(a0, "#t")) { if (!note) num(404, a0 + " :Cannot send to channel", to); }
      return;
    }
    if (!n->user(a0)) { if (!note && a0[0] == 't' && isdigit((unsigned char)a0.c_str()[1])) num(401, a0 + " :No such nick/channel", to); return; }
    if (!note && starts(a1, "\001") && !starts(a1, "\001ACTION")) {     // the other side answers
      std::string body = a1.substr(1, a1.size() - 1 - (a1.back() == '\001'));
      auto w = split(body, ' ');
      std::string u = a0;
      if (!w.empty() && W.s.strictPing) return;
      K.after(20 * MS, [this, u, w, me]() { if (st == READY && !w.empty() && n->user(u) && ieq(n->meNick, me)) put(":" + n->mask(u) + " NOTICE " + n->meNick + " :\001" + w[0] + (w.size() > 1 ? " " + w[1] : " reply") + "\001", D_ALL); });
    }
    return;
  }
  if (cmd == "TOPIC") {
    Chan *ch = n->chan(a0);
    if (!ch || !n->meOn(*ch)) { num(442, a0 + " :You're not on that channel", to); return; }
    if (l.a.size() < 2) { if (ch->topic.empty()) num(331, ch->name + " :No topic is set", to); else { num(332, ch->name + " :" + ch->topic, to); num(333, strf("%s %s %ld", ch->name.c_str(), ch->topicBy.c_str(), ch->topicAt), to); } return; }
    if (ch->flags.find('t') != std::string::npos && ch->mem[lc(me)] != '@') { num(482, ch->name + " :You're not channel operator", to); return; }
    n->emit(":" + n->mask(me) + " TOPIC " + ch->name + " :" + a1);
    ch->topic = a1; ch->topicBy = me; ch->topicAt = (K.now + K.wallOff) / SEC; n->touch(ch->name);
    return;
  }
  if (cmd == "MODE") {
    if (!isChan(a0)) {
      if (!ieq(a0, me)) { num(502, ":Cannot change mode for other users", to); if (!n->evs.empty()) n->evs.back().any = n->evs.back().opt = true; return; }   // names nobody: may be taken for any mode query's
      if (l.a.size() < 2) { num(221, "+" + n->meModes, to); return; }
      bool add = a1[0] != '-'; std::string nm = n->meModes;
      for (char m : a1.substr(1)) { size_t p = nm.find(m); if (add && p == std::string::npos) nm += m; if (!add && p != std::string::npos) nm.erase(p, 1); }
      if (nm != n->meModes) { n->meModes = nm; n->emit(":" + n->mask(me) + " MODE " + me + " :" + a1); }
      return;
    }
    Chan *ch = n->chan(a0);
    if (!ch) { num(403, a0 + " :No such channel", to); return; }
    if (l.a.size() < 2) { num(324, ch->name + " " + modeString(*ch), to); num(329, strf("%s %ld", ch->name.c_str(), ch->created), to); if (n->meOn(*ch) && !ch->key.empty()) {} return; }
    if ((a1 == "b" || a1 == "+b") && l.a.size() == 2) { for (auto &b : ch->bans) num(367, ch->name + " " + b, to); num(368, ch->name + " :End of Channel Ban List", to); return; }
    if (!n->meOn(*ch) || ch->mem[lc(me)] != '@') { num(482, ch->name + " :You're not channel operator", to); return; }
    char sign = '+'; size_t ai = 2; std::vector<std::pair<std::string, std::string>> cs;
    for (char m : a1) { if (m == '+' || m == '-') sign = m; else if (strchr("ohvbk", m) || (m == 'l' && sign == '+')) cs.push_back({std::string(1, sign) + m, l.arg(ai++)}); else if (strchr("imnpstl", m)) cs.push_back({std::string(1, sign) + m, ""}); else num(472, strf("%c :is unknown mode char to me", m), to); }
    setModes(n, ch, me, cs);
    return;
  }
  if (cmd == "KICK") {
    Chan *ch = n->chan(a0);
    if (!ch || !n->meOn(*ch)) { num(442, a0 + " :You're not on that channel", to); return; }
    if (ch->mem[lc(me)] != '@') { num(482, ch->name + " :You're not channel operator", to); return; }
    if (!ch->mem.count(lc(a1)) || ieq(a1, me)) { num(441, a1 + " " + ch->name + " :They aren't on that channel", to); return; }
    n->emit(":" + n->mask(me) + " KICK " + ch->name + " " + n->user(a1)->nick + " :" + l.arg(2)); ch->mem.erase(lc(a1)); n->touch(ch->name);
    return;
  }
  if (cmd == "INVITE") {
    if (!n->user(a0)) { num(401, a0 + " :No such nick/channel", to); return; }
    num(341, n->user(a0)->nick + " " + a1, to); return;
  }
  if (cmd == "NAMES") {
    Chan *ch = n->chan(a0);
    if (ch && n->meOn(*ch)) { std::string s; for (auto &m : ch->mem) { if (!s.empty()) s += " "; if (m.second) s += m.second; s += n->users[m.first].nick; if (s.size() > 380) { num(353, "= " + ch->name + " :" + s, to); s.clear(); } } if (!s.empty()) num(353, "= " + ch->name + " :" + s, to); }
    num(366, a0 + " :End of /NAMES list.", to); return;
  }
  if (cmd == "WHO") {
    if (Chan *ch = n->chan(a0)) for (auto &m : ch->mem) { User &u = n->users[m.first]; num(352, strf("%s %s %s %s %s H%s :0 %s", ch->name.c_str(), u.user.c_str(), u.host.c_str(), host().c_str(), u.nick.c_str(), m.second ? std::string(1, m.second).c_str() : "", u.real.c_str()), to); }
    num(315, a0 + " :End of /WHO list.", to); return;
  }
  if (cmd == "WHOIS") {
    std::string tgt = l.a.size() > 1 ? a1 : a0, via = l.a.size() > 1 ? a0 : host();
    User *u = n->user(tgt);
    if (!u) { num(401, tgt + " :No such nick/channel", to); num(318, tgt + " :End of /WHOIS list.", to); return; }
    num(311, u->nick + " " + u->user + " " + u->host + " * :" + u->real, to);
    std::string cs; for (auto &p : n->chans) if (p.second.mem.count(lc(tgt))) cs += p.second.name + " ";
    if (!cs.empty()) num(319, u->nick + " :" + cs, to);
    num(312, u->nick + " " + via + " :sim server", to);
    if (u->away) num(301, u->nick + " :gone", to);
    num(317, u->nick + " 42 1240000000 :seconds idle, signon time", to);
    num(318, tgt + " :End of /WHOIS list.", to); return;
  }
  if (cmd == "WHOWAS") { if (hashn(hstr(a0)) & 1) { num(314, a0 + " user host * :Real", to); num(312, a0 + " " + host() + " :today", to); } else num(406, a0 + " :There was no such nickname", to); num(369, a0 + " :End of WHOWAS", to); return; }
  if (cmd == "LIST") { num(321, "Channel :Users  Name", to); num(322, a0 + " 3 :topic", to); if (hashn(hstr(a0)) & 1) num(322, a0 + "x 7 :more", to); num(323, ":End of /LIST", to); return; }
  if (cmd == "STATS") { num(242, ":Server Up 3 days " + a1, to); num(219, a0 + " :End of /STATS report", to); return; }
  if (cmd == "VERSION") { if (hashn(hstr(a0)) & 1) num(402, a0 + " :No such server", to); else num(351, "sim-1. " + a0 + " :x", to); return; }
  if (cmd == "LINKS") { num(364, a0 + " " + host() + " :0 hub", to); num(365, a0 + " :End of /LINKS list.", to); return; }
  if (cmd == "TIME") { num(391, a0 + " :Friday", to); return; }
  if (cmd == "MOTD") { if (hashn(hstr(a0)) % 3 == 0) { num(422, ":MOTD File is missing " + a0, to); return; } num(375, ":- " + a0 + " Message of the day", to); num(372, ":- text " + a0, to); num(376, ":End of /MOTD command " + a0, to); return; }
  if (cmd == "LUSERS") { num(251, ":There are 6 users " + a0, to); num(252, "1 :operators " + a0, to); num(254, "5 :channels " + a0, to); num(255, ":I have 6 clients " + a0, to); return; }
  if (cmd == "ISON") { std::string s; for (auto &x : l.a) if (n->user(x) || x[0] == 't') s += x + " "; num(303, ":" + s, to); return; }
  if (cmd == "USERHOST") { std::string s; for (auto &x : l.a) if (User *u = n->user(x)) s += (s.empty() ? "" : " ") + u->nick + "=+" + u->user + "@" + u->host; else if (asker) s += (s.empty() ? "" : " ") + x + "=+x@y"; num(302, ":" + s, to); if (s.empty()) vague302 = K.now + 20 * SEC; if (vague302 > K.now && !n->evs.empty()) n->evs.back().any = n->evs.back().opt = true; return; }
  if (cmd == "ADMIN") { num(256, host() + " :Administrative info " + a0, to); num(257, ":loc " + a0, to); num(258, ":loc2 " + a0, to); num(259, ":mail " + a0, to); return; }
  if (cmd == "INFO") { num(371, ":info " + a0, to); num(371, ":more " + a0, to); num(374, ":End of INFO list", to); return; }
  if (cmd == "TRACE") { num(205, "User v " + a0, to); num(262, host() + " " + a0 + " :End of TRACE", to); return; }
  if (cmd == "USERS") { num(392, ":UserID Terminal " + a0, to); num(393, ":u t h " + a0, to); num(394, ":End of users", to); return; }
  if (cmd == "AWAY") { if (a0.empty()) { n->meAway = false; num(305, ":You are no longer marked as being away", to); } else { n->meAway = true; num(306, ":You have been marked as being away", to); } if (W.s.autoAway && !n->evs.empty()) n->evs.back().any = n->evs.back().opt = true; return; }
  if (cmd == "USER" || cmd == "PASS") { num(462, ":You may not reregister", D_NONE); return; }
  if (cmd == "WALLOPS" || cmd == "OPER" || cmd == "REHASH" || cmd == "DIE") { num(481, ":Permission Denied " + a0, D_NONE); return; }
  num(421, l.cmd + " :Unknown command", to);
}

// ================================================================ client
static bool proxyPrefix(CInst *c, const std::string &p) { return p.empty() || p == c->n->def.name || p == "proxy.test"; }
static std::string stripTime(const std::string &t) {
  // "[HH:MM:SS] " in front of a text
  size_t o = 0; if (t.size() > 8 && t[0] == '\001') { size_t sp = t.find(' '); if (sp != std::string::npos) o = sp + 1; }
  if (t.size() >= o + 11 && t[o] == '[' && t[o + 3] == ':' && t[o + 6] == ':' && t[o + 9] == ']') return t.substr(0, o) + t.substr(o + 11);
  return t;
}
bool lineMatches(const Ev &e, const Line &l) {
  if (e.l.cmd != l.cmd || e.l.a.size() != l.a.size()) return false;
  if (e.mine ? !ieq(e.l.nick, l.nick) : e.l.prefix != l.prefix) return false;
  bool timed = W.s.reportTime == "always" && (l.cmd == "PRIVMSG" || l.cmd == "NOTICE");
  for (size_t i = 0; i < l.a.size(); i++) {
    if (e.wild >> i & 1) continue;
    if (e.l.a[i] == l.a[i]) continue;
    if (timed && i == 1 && stripTime(l.a[1]) == e.l.a[1]) continue;
    return false;
  }
  return true;
}
std::set<size_t> CInst::closure(std::set<size_t> s) const {
  std::vector<size_t> todo(s.begin(), s.end());
  while (!todo.empty()) {
    size_t i = todo.back(); todo.pop_back();
    auto go = [&](size_t j) { if (s.insert(j).second) todo.push_back(j); };
    if (i < n->evs.size()) {
      const Ev &e = n->evs[i];
      if (!e.forMe(id) || e.opt) go(i + 1);
    }
    for (auto &r : n->lossy) if (i >= r.first && i < r.second) go(r.second);
  }
  return s;
}
bool CInst::matchEvent(const Line &l, bool flex) {
  std::set<size_t> start;
  if (open) { for (size_t i = lo; i <= n->evs.size(); i++) start.insert(i); }
  else start = closure(pos);
  std::set<size_t> next;
  for (size_t i : start) if (i < n->evs.size()) {
    const Ev &e = n->evs[i];
    if (e.forMe(id) && lineMatches(e, l)) next.insert(i + 1);
  }
  if (next.empty()) return false;
  if (flex) { if (open) return true; next.insert(start.begin(), start.end()); }
  open = false; pos = next;
  return true;
}
void CInst::diagnose(const Line &l) {
  size_t mn = open ? lo : *pos.begin(), mx = open ? n->evs.size() : *pos.rbegin();
  bool numeric = l.num() != 0;
  int earlier = -1, later = -1, foreign = -1;
  for (size_t i = 0; i < n->evs.size(); i++) if (lineMatches(n->evs[i], l)) {
    const Ev &e = n->evs[i];
    if (!e.forMe(id)) { foreign = i; continue; }
    if (i < mn) earlier = i; else if (later < 0 && i >= mx) later = i;
  }
  if (later >= 0) {
    for (size_t i = mx; i < (size_t)later; i++) {
      const Ev &e = n->evs[i];
      if (e.forMe(id) && !e.opt) {
        violation(e.dest == id ? "reply.lost" : e.num ? "reply.lost-all" : "relay.lost", strf("%s got '%s' but not the earlier '%s'", label.c_str(), esc(l.raw).c_str(), esc(e.l.raw).c_str()));
        return;
      }
    }
  }
  if (foreign >= 0 && n->evs[foreign].dest != D_NONE) { violation("reply.leak", strf("%s got '%s', which answers another client's question", label.c_str(), esc(l.raw).c_str())); return; }
  if (earlier >= 0) { violation(numeric ? "reply.duplicate" : "relay.duplicate", strf("%s got '%s' again or out of order", label.c_str(), esc(l.raw).c_str())); return; }
  for (auto o : W.nets) if (o != n) for (auto &e : o->evs) if (lineMatches(e, l)) { violation("P18.cross-client", strf("%s of %s got '%s' from %s", label.c_str(), n->def.name.c_str(), esc(l.raw).c_str(), o->def.name.c_str())); return; }
  violation(numeric ? "reply.fabricated" : "relay.fabricated", strf("%s got '%s', which the server never sent", label.c_str(), esc(l.raw).c_str()));
}
void CInst::send(const std::string &raw) { if (alive() && !c->remoteClosed) c->send(raw + "\r\n"); }
void CInst::command(int uid, const std::string &raw, bool forServer) {
  if (!alive() || quitSent || !burst) return;
  // two clients asking the very same thing at the same time cannot be told apart
  if (forServer) for (auto cl : W.clients) if (cl != this && cl->n == n) for (auto &p : cl->pend) if (p.raw == raw) return;
  // nor can which of two identical questions was answered from the cache, once another command went between them
  if (forServer) for (auto &q : cacheQ) if (q.raw == raw && (pend.empty() || pend.back().raw != raw)) return;
  tracef("cli %s> %s", label.c_str(), esc(raw).c_str());
  shape("c" + raw.substr(0, raw.find(' ')));
  featureClientSend(this, raw); logsClient(raw);
  if (forServer) {
    Line l = parseLine(raw);
    bool mand = n->ready();
    bool cacheable = (l.a.size() == 1 && (l.cmd == "NAMES" || l.cmd == "TOPIC" || l.cmd == "MODE" || l.cmd == "WHO") && strchr("#&", l.arg(0).c_str()[0])) || (l.cmd == "MODE" && l.a.size() == 2 && l.arg(1) == "b");
    for (size_t i = n->evs.size(); i-- > 0 && n->evs[i].t > K.now - 20 * SEC;) {     // an error on its way may now be taken for ours
      Ev &e = n->evs[i]; if ((e.l.num() < 400 && e.l.num() != 301) || e.dest < 0 || e.dest == id) continue;
      for (int k = 1; k < (int)e.l.a.size() - 1; k++) for (int j = 0; j < 2; j++) for (auto &t : split(l.arg(j), ',')) if (ieq(t, e.l.a[k])) { e.alt.insert(id); e.opt = true; }
    }
    if (channelQuery(l)) for (size_t i = n->evs.size(); i-- > 0 && n->evs[i].t > K.now - 20 * SEC;) if (n->evs[i].mine && n->evs[i].l.cmd == "JOIN" && ieq(n->evs[i].l.arg(0), l.arg(0))) { n->ambiguous(l.arg(0)); break; }
    Pend p{uid, raw, K.now, n->sess ? n->sess->id : 0, mand && !cacheable}; p.limbo = n->sess && n->sess->silent;
    pend.push_back(p);
    if (cacheable) { CacheQ q; q.cmd = l.cmd == "MODE" && l.a.size() == 2 ? "BANS" : l.cmd; q.target = l.arg(0); q.raw = raw; q.uid = uid; q.t = K.now; cacheQ.push_back(q); }
    replaySaid(this, l);
    if ((l.cmd == "PRIVMSG" || l.cmd == "NOTICE") && !(starts(l.arg(1), "\001") && !(l.cmd == "PRIVMSG" && starts(l.arg(1), "\001ACTION")))) {
      uint64_t o = pend.back().order = ++W.order;
      for (auto cl : W.clients) if (cl->n == n && cl != this && cl->alive() && !cl->mustFail) {
        cl->mirrors.push_back(MirrorExp{l.cmd, l.arg(0), l.arg(1), id, K.now, mand && cl->attached(), false, o, n->sess ? n->sess->id : 0});
      }
    }
  }
  send(raw);
}
void CInst::onData(Conn *, const std::string &d) {
  if (dead) return;
  buf += d;
  if (socks && socksData()) return;
  size_t p;
  while ((p = buf.find('\n')) != std::string::npos) {
    std::string l = buf.substr(0, p); buf.erase(0, p + 1);
    if (!l.empty() && l.back() == '\r') l.pop_back();
    line(l);
    if (dead) return;
  }
}
void CInst::onClosed(Conn *, bool reset) {
  if (dead) return;
  dead = true; proxyGone = true; diedAt = K.now;
  tracef("cli %s closed by proxy", label.c_str());
  shape("cclosed");
  adminClosed(this);
  bool expected = quitSent || mayClose || mustFail || W.shuttingDown || !proxyUp() || c->remoteClosed;
  if (adminOn() && !welcomed) for (auto &v : n->srv) if (v.mode) expected = true;      // its network could not be connected to
  if (!expected) violation("client.dropped", strf("the proxy closed the connection of %s, which did nothing wrong", label.c_str()));
  if (slot < (int)W.slot.size() && W.slot[slot] == this) W.slot[slot] = nullptr;
}
// an answer the proxy gave from its cache
void CInst::cacheDone(CacheQ &q) {
  W.cached++; stats.add("chk.cache_answers." + q.cmd);
  auto h = n->hist.find(lc(q.target));
  std::string why = "channel unknown to the model";
  if (h != n->hist.end()) {
    std::set<size_t> cl = open ? std::set<size_t>{n->evs.size()} : closure(q.pos);
    for (size_t i : cl) {
      const Chan *st = nullptr; for (auto &p : h->second) if (p.first <= i) st = &p.second; else break;
      if (!st) continue;
      if (q.cmd == "NAMES") {
        std::map<std::string, char> got; for (auto &l : q.got) if (l.num() == 353) for (auto x : split(l.arg(3), ' ')) { char pc = 0; if (strchr("@%+", x[0])) { pc = x[0]; x.erase(0, 1); } got[lc(x)] = pc; }
        if (got == st->mem) return;
        why = "members differ:"; for (auto &m : st->mem) if (!got.count(m.first) || got[m.first] != m.second) why += strf(" server has %c%s", m.second ? m.second : ' ', m.first.c_str()); for (auto &m : got) if (!st->mem.count(m.first)) why += " extra " + m.first;
      } else if (q.cmd == "TOPIC") {
        std::string t; for (auto &l : q.got) if (l.num() == 332) t = l.arg(2);
        if (t == st->topic) { bool ok = true; for (auto &l : q.got) if (l.num() == 333 && l.arg(2) != st->topicBy && l.arg(2) != n->mask(st->topicBy)) ok = false; if (ok) return; why = "topic setter " + q.got.back().raw + " vs " + st->topicBy; }
        else why = "topic '" + t + "' vs '" + st->topic + "'";
      } else if (q.cmd == "MODE") {
        for (auto &l : q.got) if (l.num() == 324) {
          std::string f, key; int lim = 0; size_t ai = 3;
          for (char m : l.arg(2)) if (m == '+') {} else if (m == 'k') key = l.arg(ai++); else if (m == 'l') lim = atoi(l.arg(ai++).c_str()); else f += m;
          std::sort(f.begin(), f.end()); std::string g = st->flags; std::sort(g.begin(), g.end());
          if (f == g && key == st->key && lim == st->limit) return;
          why = "'" + l.raw + "' vs '" + modeString(*st) + "'";
        }
      } else if (q.cmd == "BANS") {
        std::vector<std::string> b; for (auto &l : q.got) if (l.num() == 367) b.push_back(l.arg(2));
        auto x = b, y = st->bans; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
        if (x == y) return;
        why = strf("%zu bans instead of %zu", b.size(), st->bans.size());
      } else if (q.cmd == "WHO") {
        std::map<std::string, char> got; bool bad = false;
        for (auto &l : q.got) if (l.num() == 352) {
          std::string f = l.arg(6); char pc = f.empty() ? 0 : strchr("@%+", f.back()) ? f.back() : 0; got[lc(l.arg(5))] = pc;
          User *u = n->user(l.arg(5)); if (u && !ieq(l.arg(5), n->meNick) && (u->user != l.arg(2) || u->host != l.arg(3))) { bad = true; why = "identity of " + l.raw; }
        }
        if (!bad && got == st->mem) return;
        if (!bad) { why = "WHO members differ:"; for (auto &m : st->mem) if (!got.count(m.first) || got[m.first] != m.second) why += strf(" server has %c%s", m.second ? m.second : ' ', m.first.c_str()); for (auto &m : got) if (!st->mem.count(m.first)) why += " extra " + m.first; }
      }
    }
  }
  violation("P08.wrong-" + q.cmd, strf("%s asked '%s': %s", label.c_str(), q.raw.c_str(), why.c_str()));
}
bool CInst::cacheLine(const Line &l) {
  int nn = l.num();
  for (size_t k = 0; k < cacheQ.size(); k++) {
    CacheQ &q = cacheQ[k];
    bool mine = false, fin = false;
    if (q.cmd == "NAMES") { mine = (nn == 353 && ieq(l.arg(2), q.target)) || (nn == 366 && ieq(l.arg(1), q.target)); fin = nn == 366; }
    else if (q.cmd == "WHO") { mine = (nn == 352 && ieq(l.arg(1), q.target)) || (nn == 315 && ieq(l.arg(1), q.target)); fin = nn == 315; }
    else if (q.cmd == "BANS") { mine = (nn == 367 || nn == 368) && ieq(l.arg(1), q.target); fin = nn == 368; }
    else if (q.cmd == "TOPIC") { mine = (nn == 331 || nn == 332) && ieq(l.arg(1), q.target); if (nn == 333 && ieq(l.arg(1), q.target) && !q.got.empty()) mine = true; fin = mine; }
    else if (q.cmd == "MODE") { mine = nn == 324 && ieq(l.arg(1), q.target); fin = mine; }
    if (!mine) continue;
    q.got.push_back(l); q.pos = open ? std::set<size_t>() : pos;
    if (fin) { CacheQ qq = q; std::string raw = q.raw; int uid = q.uid; cacheQ.erase(cacheQ.begin() + k);
      if (nn == 332) { lastTopic = qq; lastTopicSeq = rxSeq; }
      for (auto it = pend.begin(); it != pend.end(); ++it) if (it->uid == uid) { n->purged.push_back(it->raw); pend.erase(it); break; }
      if (!open) cacheDone(qq); }
    return true;
  }
  // who set the topic: directly follows the topic, and speaks of the same moment
  if (nn == 333 && lastTopicSeq && lastTopicSeq + 1 == rxSeq && ieq(l.arg(1), lastTopic.target) && !open) {
    lastTopicSeq = 0;
    auto h = n->hist.find(lc(l.arg(1)));
    if (h != n->hist.end()) {
      bool ok = false; std::string is; stats.add("chk.topic_setter");
      for (size_t i : closure(lastTopic.pos)) {
        const Chan *st = nullptr; for (auto &p : h->second) if (p.first <= i) st = &p.second; else break;
        if (!st) continue;
        is = st->topicBy; if (l.arg(2) == st->topicBy || l.arg(2) == n->mask(st->topicBy)) ok = true;
      }
      if (!ok && !is.empty()) violation("P08.topic-setter", strf("%s asked '%s' and was told '%s', the topic was set by %s", label.c_str(), lastTopic.raw.c_str(), l.raw.c_str(), is.c_str()));
    }
  }
  return nn == 333 || nn == 329;      // tail of an answer
}
bool CInst::otherLine(const Line &l) {
  bool dropping = n->sess && n->sess->silent;
  if (l.cmd == "QUIT" && l.arg(0).compare(0, 11, "proxy.test ") == 0) for (auto s : n->sessions) if (s->expectClose && s->host() == l.arg(0).substr(11) && s->c && !s->c->fdOpen) { splitQuit = true; splitSess = s->id; splitHosts.insert(s->host()); }
  if (l.cmd == "QUIT" && (splitQuit || dropping) && l.a.size() == 1 && l.arg(0).compare(0, 11, "proxy.test ") == 0 && (splitHosts.count(l.arg(0).substr(11)) || (dropping && l.arg(0).substr(11) == n->sess->host()))) {     // spoofed netsplit
    bool known = heard.count(lc(l.nick)); for (auto &v : view.ch) if (v.second.mem.count(lc(l.nick))) known = true;
    if (!known) violation("P12.fabricated-quit", strf("%s was shown '%s' by somebody it never saw", label.c_str(), esc(l.raw).c_str()));
    if (ieq(l.nick, view.nick)) violation("P12.fabricated-quit", strf("%s was told that it quit itself: '%s'", label.c_str(), esc(l.raw).c_str()));
    stats.add("chk.split_quit");
    return true;
  }
  int nn = l.num();
  if (!burst) {
    bool own = ieq(l.nick, view.nick);
    if (own && (l.cmd == "JOIN" || l.cmd == "NICK" || l.cmd == "MODE")) return true;
    if (nn && proxyPrefix(this, l.prefix)) return true;
  }
  if (nn == 5 && burst && proxyPrefix(this, l.prefix)) {                        // the server turned out to be different from what was known
    auto has = [&](const std::string &x) { return std::find(l.a.begin(), l.a.end(), x) != l.a.end(); };
    if (!has("PREFIX=" + n->def.prefixes) || !has("CHANTYPES=" + n->def.chantypes) || !has("CASEMAPPING=" + n->def.casemap)) violation("P06.features", label + " was told '" + esc(l.raw) + "'");
    return true;
  }
  if (n->sess || true) { // state resent after a reconnect
    bool own = ieq(l.nick, view.nick);
    if (own && l.cmd == "NICK" && splitSess && (l.arg(0) == n->meNick || (!n->sess && !n->sessions.empty() && l.arg(0) == n->sessions.back()->nick) || n->nickOk.count(l.arg(0)) || (n->sess && l.arg(0) == n->sess->nick))) return true;
    if (own && l.cmd == "MODE" && ieq(l.arg(0), view.nick) && splitSess) return true;
  }
  if ((l.cmd == "PRIVMSG" || l.cmd == "NOTICE") && ieq(l.nick, view.nick)) {   // mirrored from another client
    std::string text = W.s.reportTime == "always" ? stripTime(l.arg(1)) : l.arg(1);
    for (auto &m : mirrors) if (m.cmd == l.cmd && m.target == l.arg(0) && (m.text == text || m.text == l.arg(1))) {
      if (m.seen) { violation("P07.duplicate", strf("%s was shown '%s' twice", label.c_str(), esc(l.raw).c_str())); return true; }
      if (mirrorAt[m.from] > m.order) violation("P07.order", strf("%s was shown '%s' out of order", label.c_str(), esc(l.raw).c_str()));
      mirrorAt[m.from] = m.order; m.seen = true; W.mirrored++;
      if (l.nick != view.nick || l.nick != n->meNick) if (!ieq(l.nick, view.nick)) violation("P07.sender", esc(l.raw));
      // his own mask, as this client or as the server knows it
      if (!l.uh.empty() && l.uh != std::string("cu@") + CLIHOST && !(l.uh[0] == '~' && l.uh.find("@proxy.test") == l.uh.size() - 11 && l.uh.find('@') == l.uh.size() - 11)) violation("P07.mask", strf("%s was shown '%s', the user is %s", label.c_str(), esc(l.raw).c_str(), n->mask(l.nick).c_str())); else stats.add("chk.mirror_mask");
      return true;
    }
    for (auto &p : pend) if (parseLine(p.raw).arg(1) == text && !text.empty()) { violation("P07.echo", strf("%s was shown its own message '%s'", label.c_str(), esc(l.raw).c_str())); return true; }
  }
  if (featureClientLine(this, l)) return true;
  if (nn && proxyPrefix(this, l.prefix)) {
    if (cacheLine(l)) return true;
    if (nn == 421 || nn == 401 || nn == 403 || nn == 442 || nn == 461 || nn == 462) {
      int online = -1;
      for (int pass = 0; pass < 2; pass++) for (size_t i = 0; i < pend.size(); i++) {   // first those that must be told
        Pend &p = pend[i]; Line q = parseLine(p.raw);
        if (p.told) continue;
        if (pass == 0 && (p.mand || p.limbo || p.t <= n->lostAt + 3 * SEC)) continue;
        bool fits = nn == 421 ? q.cmd == upper(l.arg(1)) : ieq(q.arg(0), l.arg(1)) && (nn == 401 ? q.cmd == "PRIVMSG" || q.cmd == "NOTICE" : nn == 403 ? q.cmd == "JOIN" : q.cmd == "PART");
        if (!fits) continue;
        if (p.mand && n->sess && n->sess->id == p.sess && !(n->sess->expectClose && n->sess->c && !n->sess->c->fdOpen)) { if (online < 0) online = i; continue; }
        p.told = p.gone = true; n->purged.push_back(p.raw); stats.add("chk.offline_error");
        for (auto it = cacheQ.begin(); it != cacheQ.end(); ++it) if (it->uid == p.uid && it->raw == p.raw && it->got.empty()) { cacheQ.erase(it); break; }
        return true;
      }
      if (online >= 0) { violation("P12.false-offline", strf("%s was told '%s' about '%s' although the network is connected", label.c_str(), esc(l.raw).c_str(), esc(pend[online].raw).c_str())); return true; }
      if (!n->ready() || K.now - n->sess->proxyReadyAt < 5 * SEC || nn == 461 || nn == 462) return true;
    }
    if (nn < 6 || (nn >= 250 && nn <= 266) || nn == 375 || nn == 372 || nn == 376 || nn == 422) { if (!burst) return true; }
    return false;
  }
  if (adminOn() && l.cmd == "NOTICE" && starts(l.prefix, "ctrlproxy!")) { adminLine(this, l); return true; }
  if (l.cmd == "NOTICE" && (proxyPrefix(this, l.prefix) || starts(l.prefix, "ctrlproxy!"))) return true;
  return false;
}
void CInst::line(const std::string &raw) {
  Line l = parseLine(raw);
  rx++; rxSeq++;
  recent.push_back(raw); if (recent.size() > 30) recent.pop_front();
  if (g_verbose) tracef("cli %s< %s", label.c_str(), esc(raw).c_str());
  shape("r" + l.cmd);
  if (!l.ok) return;
  if (l.cmd == "PING") { send("PONG :" + l.arg(0)); return; }
  if (l.cmd == "PONG") {
    std::string t = l.a.empty() ? "" : l.a.back();
    if (t == token && !burst) {
      burst = true; burstAt = K.now; W.attaches++;
      if (replayOn()) { replayDone(this); open = false; }
      if (open) { for (size_t i = lo; i <= n->evs.size(); i++) pos.insert(i); open = false; }
      return;
    }
    auto it = pongs.find(t);
    if (it == pongs.end()) violation("P11.client-pong", strf("%s got '%s' without having asked", label.c_str(), esc(raw).c_str()));
    else if (--it->second == 0) pongs.erase(it);
    return;
  }
  if (auth.on && !welcomed && (l.num() == 451 || l.num() == 461 || l.num() == 464)) {
    if (--auth.wrongs < 0 || auth.socks) violation("P15.refused", strf("%s has the right password, but was shown '%s'", label.c_str(), esc(raw).c_str()));
    return;
  }
  if (auth.on && l.cmd == "001" && !proxyPrefix(this, l.prefix)) violation("P15.network", strf("%s was let in to another network: '%s'", label.c_str(), esc(raw).c_str()));
  if (mustFail) {
    if (l.cmd == "001" || (!l.num() && l.cmd != "NOTICE" && l.cmd != "ERROR")) violation("P15.admitted", strf("%s was shown '%s' without the password", label.c_str(), esc(raw).c_str()));
    return;
  }
  if (replayOn() && !burst && l.cmd != "ERROR") {
    bool known = replayLine(this, l) || otherLine(l);
    int nn = l.num();
    if (nn == 353 || nn == 366 || nn == 331 || nn == 332 || nn == 333 || nn == 324 || nn == 329) known = true;
    for (size_t i = n->evs.size(); !known && i-- > 0;) known = lineMatches(n->evs[i], l) && n->evs[i].forMe(id);
    if (!known) diagnose(l);
    note(l, raw); return;
  }
  bool flex = (!burst && ((ieq(l.nick, view.nick) && (l.cmd == "JOIN" || l.cmd == "NICK" || l.cmd == "MODE")))) || (splitSess && ieq(l.nick, view.nick) && (l.cmd == "NICK" || l.cmd == "MODE"));   // may be state replayed
  if (matchEvent(l, flex)) {
    W.relayed++; if (l.num()) W.replies++;
  } else if (l.cmd == "ERROR") {
    bool off = false; if (adminOn() && !welcomed) for (auto &v : n->srv) if (v.mode) off = true;
    if (!quitSent && !mayClose && !off && !W.shuttingDown && proxyUp()) { violation("client.dropped", strf("%s was sent '%s'", label.c_str(), esc(raw).c_str())); }
  } else if (!otherLine(l)) diagnose(l);
  note(l, raw);
}
void CInst::note(const Line &l, const std::string &) {
  if (l.cmd == "005" && !burst && !mustFail && n->sess && n->sess->proxyReady && n->sess->proxyReadyAt < born) {
    auto want = [&](const std::string &k, const std::string &v) { for (auto &x : l.a) if (x == k + "=" + v) return; violation("P06.features", strf("%s of %s is '%s' on the server, but %s was told '%s'", k.c_str(), n->def.name.c_str(), v.c_str(), label.c_str(), esc(l.raw).c_str())); };
    want("PREFIX", n->def.prefixes); want("CHANTYPES", n->def.chantypes); want("CASEMAPPING", n->def.casemap); stats.add("chk.features");
  }
  if (!l.nick.empty() && !l.uh.empty() && ieq(l.nick, view.nick)) selfUh.insert(l.uh);
  if (((l.num() == 311 || l.num() == 314) && ieq(l.arg(1), view.nick) && ieq(l.arg(1), n->meNick)) || (l.num() == 352 && ieq(l.arg(5), view.nick) && ieq(l.arg(5), n->meNick))) {
    std::string uh = l.arg(2) + "@" + l.arg(3); User *u = n->user(n->meNick);
    if (!selfUh.empty() && !selfUh.count(uh) && !(u && u->user + "@" + u->host == uh) && l.num() != 314) violation("reply.identity", strf("%s was told the user is %s: '%s'", label.c_str(), uh.c_str(), esc(l.raw).c_str()));
    stats.add("chk.self_identity");
  }
  if (l.cmd == "001") { welcomed = true; if (view.nick.empty()) view.nick = l.arg(0); }
  if (!l.nick.empty() && !ieq(l.nick, view.nick)) {
    if (l.cmd == "QUIT") heard.erase(lc(l.nick));
    else if (l.cmd == "NICK") { heard.erase(lc(l.nick)); heard.insert(lc(l.arg(0))); }
    else heard.insert(lc(l.nick));
  }
  if (l.num() == 352) heard.insert(lc(l.arg(5)));
  if (l.num() == 311 || l.num() == 314) heard.insert(lc(l.arg(1)));
  if (l.num() == 302) for (auto x : split(l.arg(1), ' ')) heard.insert(lc(x.substr(0, x.find_first_of("*="))));
  if (l.num() == 353) for (auto x : split(l.arg(3), ' ')) heard.insert(lc(strchr("@%+", x[0]) ? x.substr(1) : x));
  view.apply(l);
}
bool CInst::settled(std::string *why) {
  if (mayClose && !dead && n->absent) { if (why) *why = strf("P22.effect|%s is still attached to a network that was deleted", label.c_str()); return false; }
  if (dead || mustFail) return true;
  auto fail = [&](const std::string &s) { if (why) *why = s; return false; };
  if (!burst) return fail("attach.stuck|" + label + " was never welcomed");
  auto cl = closure(pos);
  if (!cl.count(n->evs.size())) {
    for (size_t i = *cl.rbegin(); i < n->evs.size(); i++) { const Ev &e = n->evs[i]; if (e.forMe(id) && !e.opt) return fail(strf("%s|%s never got '%s'", e.dest == id ? "reply.lost" : e.num ? "reply.lost-all" : "relay.lost", label.c_str(), esc(e.l.raw).c_str())); }
  }
  for (auto &m : mirrors) if (m.mand && !m.seen && n->sess && n->sess->id == m.sess && n->ready()) {
    CInst *from = nullptr; for (auto x : W.clients) if (x->id == m.from) from = x;
    if (from && from->lossy) continue;
    return fail(strf("P07.lost|%s was never shown '%s %s :%s' from another client", label.c_str(), m.cmd.c_str(), m.target.c_str(), esc(m.text).c_str()));
  }
  for (auto &p : pend) if (!p.told && !p.mand && !p.limbo && !(n->sess && n->sess->silent) && !lossy && !quitSent && p.t > n->lostAt + 3 * SEC && (!n->sess || p.gone || !n->ready())) {
    bool cached = false; for (auto &q : cacheQ) if (q.uid == p.uid && !q.got.empty()) cached = true;
    if (!cached) return fail(strf("P12.silent|%s sent '%s' while the network was not connected and was told nothing", label.c_str(), esc(p.raw).c_str()));
  }
  if (!pongs.empty()) return fail(strf("P11.no-pong|%s got no PONG for '%s'", label.c_str(), pongs.begin()->first.c_str()));
  for (auto &q : cacheQ) if (n->ready() && n->sess->proxyReadyAt < q.t) {
    bool fwd = true; for (auto &p : pend) if (p.uid == q.uid) fwd = false;
    if (!fwd) return fail(strf("P02.lost|'%s' of %s was neither answered nor forwarded", q.raw.c_str(), label.c_str()));
  }
  return true;
}
bool settledAll(std::string *why) {
  if (!adminSettled(why)) return false;
  for (auto n : W.nets) {
    if (n->burstBusy) { if (why) *why = "SIM.burst|login burst under way"; return false; }
    Session *s = n->sess;
    if (s && s->st == Session::READY && !s->silent) {
      if (!s->proxyReady) { if (why) *why = strf("P09.not-ready|%s: no USERHOST after the end of MOTD", n->def.name.c_str()); return false; }
      if (!s->autoLeft.empty()) { if (why) *why = strf("P09.autocmd|%s: startup command '%s' never sent", n->def.name.c_str(), esc(s->autoLeft[0]).c_str()); return false; }
      for (auto &j : s->joins) if (j.second.must && j.second.seen == 0) { if (why) *why = strf("P09.rejoin|%s: channel %s was not joined after login", n->def.name.c_str(), j.second.name.c_str()); return false; }
      if (!s->pongs.empty()) { if (why) *why = strf("P11.no-pong|%s: no PONG for '%s'", n->def.name.c_str(), s->pongs.front().first.c_str()); return false; }
    } else if (s && s->st == Session::LOGIN && !s->silent && K.now - s->born > 5 * SEC) {
      if (why) *why = strf("P09.login|%s: connected but no complete login", n->def.name.c_str()); return false;
    } else if (s && s->st == Session::LOGIN && !s->silent) { if (why) *why = "P09.login|login under way"; return false; }
  }
  for (auto c : W.clients) {
    if (!c->settled(why)) return false;
    for (auto &p : c->pend) if (p.mand && !p.gone && !c->lossy && !(c->c && c->c->rcvRst) && c->n->ready() && c->n->sess->id == p.sess) { if (why) *why = strf("P02.lost|'%s' of %s never reached the server", esc(p.raw).c_str(), c->label.c_str()); return false; }
  }
  return true;
}

// ================================================================ script
static Net *netOf(int a) { return W.nets[(unsigned)a % W.nets.size()]; }
static const char *POOL[] = {"anna", "bert", "cleo", "dave", "emma", "fr[ed]"};
static const int NPOOL = 6;
static const char *CHANS[] = {"#alpha", "#Beta", "#gam-ma", "&local", "#x[y]/z"};
static const int NCH = 5;
static std::string userHost(Net *n, const std::string &nick) { return strf("%s.host%d.test", std::string(1, lc(nick)[0]).c_str(), n->id); }
static User *needUser(Net *n, int b) {
  std::string nick = POOL[(unsigned)b % NPOOL];
  // the person may go by another nick by now
  for (auto &p : n->users) if (p.second.user == std::string("u") + nick[0]) return &p.second;
  User u; u.nick = nick; u.user = std::string("u") + nick[0]; u.host = userHost(n, nick); u.real = std::string("Real ") + nick[0];
  if (n->user(nick)) return nullptr;
  n->users[lc(nick)] = u;
  return &n->users[lc(nick)];
}
static Chan *poolChan(Net *n, int c) { return n->chan(CHANS[(unsigned)c % NCH]); }
static Chan *myChan(Net *n, int c) {
  std::vector<Chan *> v; for (auto &p : n->chans) if (n->meOn(p.second)) v.push_back(&p.second);
  return v.empty() ? nullptr : v[(unsigned)c % v.size()];
}
static void userJoin(Net *n, User *u, Chan *ch) {
  if (!u || !ch || ch->mem.count(lc(u->nick))) return;
  if (n->meOn(*ch)) n->emit(":" + n->mask(u->nick) + " JOIN :" + ch->name);
  ch->mem[lc(u->nick)] = ch->mem.empty() ? '@' : 0;
  n->touch(ch->name);
}
static bool frozen(Net *n) { return n->sess && (n->sess->silent); }
static std::string variantText(const Op &o) {
  std::string t = tokenOf(o.uid);
  switch ((unsigned)o.d % 8) {
  case 0: return t + " hello world";
  case 1: return ": " + t + " :colon first";
  case 2: return t + " " + std::string(200 + (o.uid % 180), 'x') + " end";
  case 3: return t + "  two  spaces ";
  case 4: return t;
  case 5: return t + " %s %n $ \\ \"quoted\" 'x'";
  case 6: if (o.uid % 4 == 1) return t + " caf\xc3\xa9 \xe2\x80\xa9 paragraph \xe2\x80\xa8 \xc2\x85 end";
          if (o.uid % 4 == 3 && !W.s.checkSave) return t + " latin \xe9t\xe9 \xff\xfe";
          return t + " \002bold\002 \003" "4red\017";
  default: return "[12:34:56] " + t + " looks timed";
  }
}
void netcfgFor(const Op &o, NetCfg &cfg) {
  unsigned v = (unsigned)o.d;
  if (v % 3 == 1) { cfg.latMin = 1 * MS; cfg.latMax = 60 * MS; }
  if (v % 3 == 2) { cfg.latMin = 10 * MS; cfg.latMax = 300 * MS; }
  if ((v / 3) % 4 == 1) { cfg.fragMin = 1; cfg.fragMax = 7; }
  if ((v / 3) % 4 == 2) { cfg.fragMin = 5; cfg.fragMax = 90; }
  if ((v / 12) % 3 == 1) { cfg.sndcap = 64 + v % 500; }
  if ((v / 36) % 3 == 1) { cfg.maxRead = 1 + v % 40; }
  if ((v / 36) % 3 == 2) { cfg.maxWrite = 1 + v % 60; }
}
CInst *attachClient(const Op &o, Net *n, const std::string &pass, int port, const std::string &nick, bool mustFail, const AuthPlan *plan) {
  CInst *c = new CInst(); if (plan) { c->auth = *plan; c->socks = plan->socks; }
  c->id = W.nextClient++; c->slot = o.a; c->n = n; c->mustFail = mustFail;
  c->label = strf("client%d/%s", c->id, n->def.name.c_str());
  c->nick0 = nick; c->view.nick = nick; c->token = strf("attach%d", c->id); c->lo = n->quietIdx; c->born = K.now;
  NetCfg cfg = W.s.cli; netcfgFor(o, cfg);
  c->c = dialProxy(port, "", c, cfg, strf("cli%d", c->id), CLIHOST);
  if (!c->c) { delete c; return nullptr; }
  if (K.now - n->lostAt < 5 * SEC && !n->sessions.empty()) for (auto s : n->sessions) if (s->st == Session::CLOSED) { c->splitSess = s->id; c->splitQuit = true; c->splitHosts.insert(s->host()); }   // the proxy may not know yet
  if (n->sess && !n->sess->proxyReady) c->splitSess = n->sess->id;
  tracef("attach %s nick %s port %d", c->label.c_str(), nick.c_str(), port);
  for (auto cl : W.clients) if (cl->n == n) for (auto &p : cl->pend) if (p.order) {     // said, but the proxy may only read it when we are there
    Line l = parseLine(p.raw); c->mirrors.push_back(MirrorExp{l.cmd, l.arg(0), l.arg(1), cl->id, K.now, false, false, p.order, p.sess});
  }
  W.clients.push_back(c);
  std::string d;
  if (plan) { d = plan->pre; if (!pass.empty()) d += pass + "\r\n"; } else if (!pass.empty()) d += "PASS " + pass + "\r\n";
  if (o.d & 1) d += "NICK " + nick + "\r\nUSER cu 0 * :Client Name\r\nPING :" + c->token + "\r\n";
  else d += "USER cu 0 * :Client Name\r\nNICK " + nick + "\r\nPING :" + c->token + "\r\n";
  if (c->socks) { c->auth.login = d; c->sessAtDial = n->sess ? n->sess->id : 0; d = plan->pipeline ? socksAll(*plan) + d : plan->methods; }
  c->c->send(d);
  if (!mustFail) replayDialed(c);
  return c;
}
static void setMe(Net *n, const std::string &nick) { n->attachNicks[nick]++; }
static void doAttach(const Op &o) {
  if (o.a < 0 || o.a >= 8 || W.slot[o.a] || !proxyUp()) return;
  Net *n = netOf(o.b); if (n->absent || n->leaving || !adminHas(n)) return;
  std::string nick = n->meNick.empty() ? n->def.nick : n->meNick;
  if (o.c % 5 == 4) { nick = std::string("wanted").substr(0, 4 + o.c % 3) + "0"; }
  if (nick != n->meNick && !n->def.ignoreFirst) setMe(n, nick);
  else if (!n->def.ignoreFirst) setMe(n, nick);      // the nick may change under way
  int port = o.c & 8 && !n->noListener ? 6100 + n->id : 6000;
  std::string pass = (authPass(port).empty() ? "whatever" : authPass(port).find(' ') != std::string::npos ? ":" + authPass(port) : authPass(port)) + (port == 6000 ? ":" + n->def.name : "");
  if (!listening(port, "")) { port = 6000; pass = W.s.password + ":" + n->def.name; }
  if (port == 6000 && (!n->want || adminOn())) for (auto &v : n->srv) if (v.mode) return;
  if (port == 6000 && !n->want) { n->want = true; n->wantKnown = false; n->downSince = K.now; tracef("%s is asked for", n->def.name.c_str()); }     // asking for a network connects it
  CInst *c = attachClient(o, n, pass, port, nick, false);
  if (c) W.slot[o.a] = c;
}
static void doDetach(const Op &o) {
  CInst *c = o.a >= 0 && o.a < 8 ? W.slot[o.a] : nullptr;
  if (!c) return;
  c->diedAt = K.now;
  shape(strf("det%d", o.b % 3));
  if ((unsigned)o.b % 3 != 2 || c->burst) replayDetached(c);
  switch ((unsigned)o.b % 3) {
  case 0: tracef("detach %s FIN", c->label.c_str()); c->c->closeRemote(false); c->dead = true; if (c->c->stallOut || !c->c->sndbuf.empty() || c->c->drainPending) c->lossy = true; stats.add("fault.client_fin"); break;
  case 1: tracef("detach %s RST", c->label.c_str()); c->c->closeRemote(true); c->dead = true; c->lossy = true; stats.add("fault.client_rst"); break;
  case 2: if (!c->burst) return; tracef("detach %s QUIT", c->label.c_str()); c->send("QUIT :bye " + tokenOf(o.uid)); c->quitSent = true; stats.add("op.client_quit"); break;
  }
  W.slot[o.a] = nullptr;
}
static void lossyClient(CInst *c) { // its unread commands may be dropped
  for (auto &p : c->pend) p.mand = false;
}
static void clientCmd(const Op &o) {
  CInst *c = o.a >= 0 && o.a < 8 ? W.slot[o.a] : nullptr;
  if (!c || !c->attached()) return;
  Net *n = c->n; std::string t = tokenOf(o.uid);
  const std::string &k = o.k;
  User *u = nullptr; std::string un;
  { std::vector<User *> v; for (auto &p : n->users) if (p.second.user[0] == 'u') v.push_back(&p.second); if (!v.empty()) { u = v[(unsigned)o.c % v.size()]; un = u->nick; } }
  Chan *mc = myChan(n, o.b), *pc = poolChan(n, o.b);
  std::string chName = mc ? mc->name : pc ? pc->name : "#alpha";
  std::string text = variantText(o);
  const std::string PM = !W.s.logFile.empty() && (o.d >> 3) % 6 == 0 ? "privmsg " : "PRIVMSG ", end = !W.s.logFile.empty() && (o.d >> 3) % 4 == 0 ? "" : "\001";
  if (k == "c.say") { if (mc) c->command(o.uid, PM + chName + " :" + text); else if (u) c->command(o.uid, PM + un + " :" + text); }
  else if (k == "c.msg") { if (u) c->command(o.uid, PM + (mc && o.c % 7 == 3 ? o.uid % 2 ? un + "," + chName : chName + "," + un : un) + " :" + text); }
  else if (k == "c.notice") { c->command(o.uid, "NOTICE " + (mc && o.c % 2 ? chName : u ? un : chName) + " :" + text); }
  else if (k == "c.action") { if (mc) c->command(o.uid, "PRIVMSG " + chName + " :\001ACTION waves " + t + end); }
  else if (k == "c.ctcp" && o.d % 3 == 2) { if (u) c->command(o.uid, "NOTICE " + un + " :\001" + (o.d % 2 ? "PING " + t : "VERSION me " + t) + "\001"); }
  else if (k == "c.ctcp") { if (u) c->command(o.uid, "PRIVMSG " + un + " :\001PING " + t + "\001"); }
  else if (k == "c.join") { if (pc) c->command(o.uid, "JOIN " + pc->name + (!pc->key.empty() ? " " + pc->key : o.c % 3 == 0 ? " k" + t : "")); }
  else if (k == "c.joinnew") { c->command(o.uid, "JOIN #n" + t); }
  else if (k == "c.part") { if (mc) c->command(o.uid, "PART " + chName + (o.c % 3 ? " :" + t : "")); }
  else if (k == "c.nick") { static const char *N[] = {"mynick", "nova", "zed[1]", "MyNick"}; c->command(o.uid, std::string("NICK ") + (o.c % 6 == 5 ? "9bad" + t : o.c % 6 == 4 && u ? un : std::string(N[o.c % 4]))); }
  else if (k == "c.topic") { if (mc) c->command(o.uid, "TOPIC " + chName + " :" + t + " new topic"); }
  else if (k == "c.mode") {
    if (!mc) return;
    static const char *M[] = {"+o", "-o", "+v", "-v"};
    switch ((unsigned)o.d % 7) {
    case 6: {
      static const char *C[] = {"-o+v %u %u", "+v-o %u %u", "+mb-l x!*@%t", "+lm 9", "-lm", "-b+b x!*@%t *!*@%t", "+ms-l", "+ntk-l k%t", "-k+l k 5"};
      std::string m = C[(unsigned)(o.c / 3) % 9], r; for (size_t i = 0; i < m.size(); i++) if (m[i] == '%' && m[i + 1] == 'u') { r += un; i++; } else if (m[i] == '%' && m[i + 1] == 't') { r += t; i++; } else r += m[i];
      if (u) c->command(o.uid, "MODE " + chName + " " + r); break;
    }
    case 0: case 1: if (u) c->command(o.uid, "MODE " + chName + " " + M[(unsigned)o.c % 4] + " " + un); break;
    case 2: c->command(o.uid, "MODE " + chName + (o.c % 2 ? " +b *!*@" : " +b x!*@") + t); break;
    case 3: c->command(o.uid, "MODE " + chName + (o.c % 2 ? " +l 7" : " -l")); break;
    case 4: c->command(o.uid, "MODE " + chName + (o.c % 2 ? " +m" : " -m")); break;
    default: c->command(o.uid, "MODE " + n->meNick + (o.c % 2 ? " +i" : " -i"));
    }
  }
  else if (k == "c.kick") { if (mc && u && mc->mem.count(lc(un))) c->command(o.uid, "KICK " + chName + " " + un + " :" + t); }
  else if (k == "c.invite") { if (u) c->command(o.uid, "INVITE " + un + " #n" + t); }
  else if (k == "c.names") { c->command(o.uid, "NAMES " + (o.c % 3 == 2 ? "#" + t : chName)); }
  else if (k == "c.topicq") { c->command(o.uid, "TOPIC " + (o.c % 4 == 3 ? "#" + t : chName)); }
  else if (k == "c.modeq") { c->command(o.uid, "MODE " + chName); }
  else if (k == "c.bans") {
    c->command(o.uid, "MODE " + chName + " b");
    if (o.d % 3 == 0) for (auto cl : W.clients) if (cl != c && cl->n == n && cl->attached()) { std::string up = upper(chName); if (up != chName) cl->command(o.uid, "MODE " + up + " b"); break; }     // two ask at once
  }
  else if (k == "c.who") { c->command(o.uid, "WHO " + (o.c % 3 == 2 ? t + "*" : chName)); }
  else if (k == "c.whox") { c->command(o.uid, "WHO " + t + "* o"); }
  else if (k == "c.whois") { if (u) c->command(o.uid, o.c % 4 == 3 ? "WHOIS " + t + "x" : "WHOIS " + t + ".srv " + un); }
  else if (k == "c.whoisme") { c->command(o.uid, "WHOIS " + t + ".srv " + n->meNick); }
  else if (k == "c.query") {
    static const char *Q[] = {"WHOWAS %s", "LIST #%s", "STATS u %s", "VERSION %s", "LINKS %s", "TIME %s", "MOTD %s", "LUSERS %s", "ISON %s anna", "USERHOST %s anna", "ADMIN %s", "INFO %s", "TRACE %s", "USERS %s", "FOO%s", "MODE mynick"};
    const char *q = Q[(unsigned)o.b % 16];
    if ((unsigned)o.b % 16 == 15) { c->command(o.uid, "MODE " + n->meNick); return; }
    if (!strncmp(q, "FOO", 3)) { std::string x = "FOO" + t; for (auto &ch : x) ch = toupper(ch); c->command(o.uid, x + " arg"); return; }
    c->command(o.uid, strf(q, t.c_str()));
  }
  else if (k == "c.err") {
    switch ((unsigned)o.b % 5) {
    case 0: c->command(o.uid, "PRIVMSG " + t + "x :anyone"); break;
    case 1: c->command(o.uid, "PRIVMSG #" + t + " :anyone"); break;
    case 2: c->command(o.uid, "PART #" + t + " :not there"); break;
    case 3: c->command(o.uid, "JOIN !" + t); break;
    case 4: c->command(o.uid, "MODE #" + t + " +m"); break;
    }
  }
  else if (k == "c.away") { c->command(o.uid, o.c % 3 == 2 ? (W.s.autoAway ? "AWAY :" : "AWAY") : "AWAY :gone " + t); }
  else if (k == "c.ping") { c->pongs["p" + t]++; c->command(o.uid, "PING :p" + t, false); }
  else if (k == "c.burst") { for (int i = 0; i < 3 + o.c % 8; i++) { Op q = o; q.k = "c.say"; q.uid = o.uid * 100 + 100000 + i; q.d = o.d + i; clientCmd(q); } }
  else if (k == "c.empty") { c->send(o.c % 2 ? "" : "   "); }
}
static void serverOp(const Op &o) {
  Net *n = netOf(o.a);
  const std::string &k = o.k; std::string t = tokenOf(o.uid);
  if (frozen(n) && k != "s.close" && k != "s.unsilent") return;
  Session *s = n->sess;
  bool up = s && s->st == Session::READY && !s->weClosed;
  User *u = needUser(n, o.b);
  Chan *mc = myChan(n, o.c), *pc = poolChan(n, o.c);
  std::string text = variantText(o);
  if (k == "s.say" || k == "s.snoticechan" || k == "s.action") {
    if (!up || !u || !mc) return;
    userJoin(n, u, mc);
    if (k == "s.say") n->emit(":" + n->mask(u->nick) + " PRIVMSG " + mc->name + " :" + text);
    else if (k == "s.action") n->emit(":" + n->mask(u->nick) + " PRIVMSG " + mc->name + " :\001ACTION " + t + " dances" + (!W.s.logFile.empty() && (o.d >> 3) % 4 == 0 ? "" : "\001"));
    else n->emit(":" + n->mask(u->nick) + " NOTICE " + mc->name + " :" + text);
  } else if (k == "s.priv") { if (up && u) n->emit(":" + n->mask(u->nick) + (o.c % 3 == 2 ? " NOTICE " : " PRIVMSG ") + (!W.s.logFile.empty() && (o.d >> 3) % 5 == 0 ? upper(n->meNick) : n->meNick) + " :" + text); }
  else if (k == "s.flood") { for (int i = 0; i < 200 + o.c % 300; i++) { Op q = o; q.k = "s.say"; q.uid = o.uid * 1000 + 2000000 + i; q.d = o.d + i; q.b = o.b + i / 50; q.c = o.c + i; serverOp(q); } }
  else if (k == "s.burst") { for (int i = 0; i < 4 + o.c % 10; i++) { Op q = o; q.k = "s.say"; q.uid = o.uid * 100 + 200000 + i; q.d = o.d + i; q.b = o.b + i; serverOp(q); } }
  else if (k == "s.join") { userJoin(n, u, mc && o.d % 3 ? mc : pc); }
  else if (k == "s.part") { Chan *ch = mc ? mc : pc; if (u && ch) partChan(n, ch, u->nick, o.d % 3 ? t : ""); }
  else if (k == "s.quit") { if (u) userQuit(n, u->nick, "Quit: " + t); }
  else if (k == "s.kick") {
    Chan *ch = mc ? mc : pc; if (!ch || ch->mem.empty()) return;
    std::vector<std::string> v; for (auto &m : ch->mem) if (!ieq(m.first, n->meNick)) v.push_back(m.first);
    if (v.size() < 2) return;
    std::string a = v[(unsigned)o.b % v.size()], b = v[(unsigned)(o.b + 1 + o.d % (v.size() - 1)) % v.size()];
    if (a == b) return;
    if (n->meOn(*ch)) n->emit(":" + n->mask(a) + " KICK " + ch->name + " " + n->user(b)->nick + " :" + t);
    ch->mem.erase(b); n->touch(ch->name);
  } else if (k == "s.kickme") {
    if (!up || !mc) return;
    n->emit((u && mc->mem.count(lc(u->nick)) ? ":" + n->mask(u->nick) : ":" + s->host()) + " KICK " + mc->name + " " + n->meNick + " :" + t);
    mc->mem.erase(lc(n->meNick)); n->knownKey.erase(lc(mc->name)); n->touch(mc->name);
  } else if (k == "s.nick") {
    if (!u) return;
    std::string base = u->nick; std::string to = base.size() > 5 || base.find('_') != std::string::npos ? std::string(POOL[(unsigned)o.b % NPOOL]) : o.d % 4 == 0 ? upper(base) : base + "_" + std::string(1, 'a' + o.d % 20);
    if (to == u->nick) return;
    changeNick(n, u->nick, to);
  } else if (k == "s.forcenick") {
    if (!up) return;
    std::string to = strf("guest%d", 1 + o.d % 3); if (n->user(to)) return;
    changeNick(n, n->meNick, to);
  } else if (k == "s.forcejoin") { if (up && pc && !n->meOn(*pc) && pc->flags.find('i') == std::string::npos) { std::string key = pc->key; s->doJoin(pc->name, key, nullptr); } }
  else if (k == "s.forcepart") { if (up && mc) partChan(n, mc, n->meNick, o.d % 2 ? t : ""); }
  else if (k == "s.mode") {
    Chan *ch = mc ? mc : pc; if (!ch || ch->mem.empty()) return;
    std::vector<std::string> v; for (auto &m : ch->mem) v.push_back(m.first);
    std::string who = v[(unsigned)o.b % v.size()]; const char *M = n->def.prefixes.find('h') != std::string::npos ? "ovhv" : "ovov";
    std::string by = up ? s->host() : std::string("srv.test"); std::string opr = v[(unsigned)o.d % v.size()];
    if (ch->mem[opr] == '@') by = n->user(opr)->nick;
    setMode(n, ch, by, (o.d / 4) % 2 ? '+' : '-', M[(unsigned)o.d % 4], n->user(who)->nick);
  } else if (k == "s.opme") { if (up && mc) setMode(n, mc, s->host(), o.d % 3 ? '+' : '-', o.d % 2 ? 'o' : 'v', n->meNick); }
  else if (k == "s.cmode") {
    Chan *ch = mc ? mc : pc; if (!ch) return;
    std::string by = up ? s->host() : std::string("srv.test");
    char sg = o.b % 2 ? '+' : '-';
    switch ((unsigned)o.d % 6) {
    case 0: setMode(n, ch, by, sg, 'm', ""); break;
    case 1: setMode(n, ch, by, sg, 's', ""); break;
    case 2: setMode(n, ch, by, sg, 'l', strf("%d", 5 + o.b % 20)); break;
    case 3: setMode(n, ch, by, sg, 'k', "sec" + std::string(1, 'a' + o.b % 9)); break;
    case 4: setMode(n, ch, by, '+', 'b', strf("*!*@bad%d.test", o.b % 4)); break;
    case 5: setMode(n, ch, by, '-', 'b', strf("*!*@bad%d.test", o.b % 4)); break;
    }
  } else if (k == "s.modes") {
    Chan *ch = mc ? mc : pc; if (!ch || ch->mem.empty()) return;
    std::vector<std::string> v; for (auto &m : ch->mem) v.push_back(m.first);
    Rng r(hashn(o.uid, o.b, o.d)); int cnt = 2 + r.below(3); std::vector<std::pair<std::string, std::string>> cs;
    for (int i = 0; i < cnt; i++) {
      std::string sg = r.chance(0.5) ? "+" : "-", who = n->user(v[r.below(v.size())])->nick;
      switch (r.below(7)) {
      case 0: case 1: cs.push_back({sg + "o", who}); break;
      case 2: cs.push_back({sg + (n->def.prefixes.find('h') != std::string::npos && r.chance(.5) ? "h" : "v"), who}); break;
      case 3: cs.push_back({sg + "b", strf("*!*@bad%d.test", (int)r.below(4))}); break;
      case 4: cs.push_back({sg + "l", strf("%d", 5 + (int)r.below(20))}); break;
      case 5: cs.push_back({sg + "k", "sec" + std::string(1, 'a' + r.below(9))}); break;
      default: cs.push_back({sg + std::string(1, "msip"[r.below(4)]), ""});
      }
    }
    std::string by = up ? s->host() : std::string("srv.test"), opr = v[(unsigned)o.d % v.size()];
    if (ch->mem[opr] == '@') by = n->user(opr)->nick;
    setModes(n, ch, by, cs);
  } else if (k == "s.topic") {
    Chan *ch = mc ? mc : pc; if (!ch) return;
    std::string by = u && ch->mem.count(lc(u->nick)) ? u->nick : "";
    std::string tx = o.d % 5 == 4 ? "" : t + " topic";
    if (n->meOn(*ch)) n->emit((by.empty() ? std::string(":") + (up ? s->host() : "x") : ":" + n->mask(by)) + " TOPIC " + ch->name + " :" + tx);
    ch->topic = tx; ch->topicBy = by.empty() ? (up ? s->host() : "srv.test") : by; ch->topicAt = (K.now + K.wallOff) / SEC; n->touch(ch->name);
  } else if (k == "s.invite") { if (up && u) n->emit(":" + n->mask(u->nick) + " INVITE " + n->meNick + " :#i" + t); }
  else if (k == "s.wallops") { if (up) n->emit(":" + s->host() + " WALLOPS :" + t + " notice this"); }
  else if (k == "s.num") { // numerics nobody asked for
    if (!up) return;
    switch ((unsigned)o.d % 5) {
    case 0: s->num(381, ":oper " + t, D_ALL); break;
    case 1: s->num(396, t + ".cloak :is now your hidden host", D_ALL); break;
    case 2: s->num(671, t + " :is using a secure connection", D_ALL); break;
    case 3: s->num(477, "#" + t + " :you need a registered nick", D_ALL); break;
    case 4: s->num(900, t + " :you are now logged in", D_ALL); break;
    }
  }
  else if (k == "s.notice") { if (up) n->emit((!W.s.logFile.empty() && o.c % 3 == 0 ? "" : ":" + s->host() + " ") + "NOTICE " + n->meNick + " :*** " + t); }
  else if (k == "s.ping") { if (up || (s && s->st == Session::BURST)) { std::string tok = o.d % 3 == 2 ? "LAG " + t : t; s->pongs.push_back({tok, K.now}); s->put("PING :" + tok, D_NONE); } }
  else if (k == "s.unknown") { if (up && u) n->emit(":" + n->mask(u->nick) + " CHGHOST " + t + " new.host"); }
  else if (k == "s.close") { if (s) { stats.add(o.d % 2 ? "fault.server_rst" : "fault.server_fin"); s->close(o.d % 2); } }
  else if (k == "s.error") { if (up) { s->put("ERROR :Closing Link: " + t, D_ALL, true); stats.add("fault.server_error"); s->close(false); } }
  else if (k == "s.killme") { if (up) { n->emit(":oper!o@net KILL " + n->meNick + " :" + t, true); s->put("ERROR :Closing Link: killed " + t, D_ALL, true); stats.add("fault.server_kill"); s->close(false); } }
  else if (k == "s.stall") { if (s && s->c && !s->weClosed) { s->c->setStall(true); stats.add("fault.server_stall"); } }
  else if (k == "s.unstall") { if (s && s->c) s->c->setStall(false); }
  else if (k == "s.silent") { if (s && s->st == Session::READY && !s->weClosed) { s->fallSilent(); stats.add("fault.server_silent"); } }
  else if (k == "s.ghost") { n->ghosts[lc(n->meNick.empty() ? n->def.nick : n->meNick)] = K.now + (usec)(5 + o.d % 120) * SEC; }
  else if (k == "n.set") { n->srv[(unsigned)o.b % n->srv.size()].mode = o.c; stats.add("op.reach"); }
  else if (k == "n.heal") { for (auto &x : n->srv) x.mode = 0; n->ghosts.clear(); }
}
static void oracles() {
  for (auto n : W.nets) {
    for (auto c : W.clients) if (c->n == n && c->attached() && !c->lossy) for (auto &v : c->view.ch) if (v.second.stale) for (auto &m : v.second.mem) if (!ieq(m.first, c->view.nick)) {
      violation("P12.ghost", strf("%s still sees %s on %s, although the server was lost", c->label.c_str(), m.first.c_str(), v.first.c_str())); return;
    }
    if (!n->ready()) continue;
    for (auto c : W.clients) {
      if (c->n != n || !c->attached()) continue;
      stats.add("chk.view_compared");
      std::string bad;
      if (c->view.nick != n->meNick) bad = strf("thinks its nick is '%s', the server says '%s'", c->view.nick.c_str(), n->meNick.c_str());
      for (auto &p : n->chans) if (n->meOn(p.second)) {
        auto it = c->view.ch.find(p.first);
        if (it == c->view.ch.end()) { bad = "does not know it is on " + p.second.name; break; }
        View::Ch &v = it->second;
        if (v.stale) { bad = "was not told about rejoining " + p.second.name; break; }
        if (v.topic != p.second.topic) bad = strf("topic of %s is '%s', server has '%s'", v.name.c_str(), v.topic.c_str(), p.second.topic.c_str());
        for (auto &m : p.second.mem) {
          auto x = v.mem.find(m.first);
          if (x == v.mem.end()) bad = strf("does not see %s on %s", m.first.c_str(), v.name.c_str());
          else if (x->second != m.second) bad = strf("sees %s on %s as '%c', server has '%c'", m.first.c_str(), v.name.c_str(), x->second ? x->second : '-', m.second ? m.second : '-');
        }
        for (auto &m : v.mem) if (!p.second.mem.count(m.first)) bad = strf("sees %s on %s, who is not there", m.first.c_str(), v.name.c_str());
      }
      for (auto &v : c->view.ch) if (!v.second.stale && v.second.at > n->lostAt + 5 * SEC) { Chan *ch = n->chan(v.first); if (!ch || !n->meOn(*ch)) bad = "believes to be on " + v.second.name; }
      if (!bad.empty() && !W.s.hostileDisk) { violation("P06.view", c->label + " " + bad); return; }
    }
  }
}
static void finaliseAtQuiet() {
  uint64_t h = 0;
  for (auto n : W.nets) {
    n->quietIdx = n->evs.size();
    uint64_t x = hashn(n->sess ? n->sess->st + 1 : 0, hstr(n->meNick));
    for (auto &p : n->chans) { x = hashn(x, hstr(p.second.topic.empty() ? "" : "t"), hstr(p.second.flags)); for (auto &m : p.second.mem) x = hashn(x, hstr(m.first), m.second); }
    h = hashn(h, x);
  }
  int a = 0;
  for (auto c : W.clients) {
    if (c->attached()) { a++; auto cl = c->closure(c->pos); if (cl.count(c->n->evs.size())) { c->pos.clear(); c->pos.insert(c->n->evs.size()); } }
    for (auto &p : c->pend) c->n->purged.push_back(p.raw);
    c->pend.clear();
    for (auto it = c->mirrors.begin(); it != c->mirrors.end();) if (it->seen || true) { ++it; }
    if (c->mirrors.size() > 200) c->mirrors.clear();
    c->cacheQ.clear(); c->splitQuit = false; if (c->n->ready()) c->splitSess = 0;
  }
  stateSeen(hashn(h, a));
}
static bool wantedUp(std::string *why) {
  for (auto n : W.nets) if (n->want && n->wantKnown && !n->ready()) { if (why) *why = strf("P10.no-reconnect|network %s is not logged in %lld s after everything was reachable again", n->def.name.c_str(), (long long)((K.now - W.waitSince) / SEC)); return false; }
  return true;
}
static void quietReached() {
  W.waiting = false; W.quiets++;
  for (auto n : W.nets) if (!n->wantKnown && n->sess) n->want = n->wantKnown = true;
  featureQuiet(); adminQuietOver(); logsQuiet();
  W.quietAt = K.now;
  for (auto &f : W.quietChecks) f();
  oracles();
  finaliseAtQuiet();
  shape("quiet");
  if (!g_viol.empty()) { endRun(); return; }
  K.after(1 * MS, nextOp);
}
static void idleHook() {
  if (!W.waiting || !proxyUp()) return;
  if (sourcesReady()) return;
  std::string why;
  bool ok = settledAll(&why) && (!W.recovering || (wantedUp(&why) && hostileServed(&why)));
  if (ok) { quietReached(); return; }
  if (K.now >= W.deadline) {
    size_t bar = why.find('|');
    violation(why.substr(0, bar), why.substr(bar + 1) + strf(" (waited %lld s)", (long long)((K.now - W.waitSince) / SEC)));
    endRun();
  }
}
NextLogin eitherLogin(const NextLogin &a, const NextLogin &b) {
  NextLogin r; r.want = a.want; r.wantKnown = a.wantKnown && b.wantKnown && a.want == b.want; r.nicks = a.nicks; r.nicks.insert(b.nicks.begin(), b.nicks.end());
  for (auto &p : a.rejoin) { MustJoin m = p.second; auto it = b.rejoin.find(p.first); if (it == b.rejoin.end()) m.must = false; else { m.must = m.must && it->second.must; m.keyKnown = m.keyKnown && it->second.keyKnown && m.key == it->second.key; } r.rejoin[p.first] = m; }
  for (auto &p : b.rejoin) if (!r.rejoin.count(p.first)) { MustJoin m = p.second; m.must = false; r.rejoin[p.first] = m; }
  return r;
}
static void heal(int pick) {   // everything, or one server of each network
  if (adminOn()) pick = 0;
  for (auto n : W.nets) { for (size_t i = 0; i < n->srv.size(); i++) if (!pick || (int)i == pick % (int)n->srv.size()) n->srv[i].mode = 0; n->ghosts.clear(); }
  K.acceptFailures = K.socketFailures = 0;
}
void nextOp() {
  if (W.finished) return;
  if (!g_viol.empty()) { endRun(); return; }
  if (W.opi >= W.s.ops.size()) { W.finished = true; endRun(); return; }
  Op o = W.s.ops[W.opi++];
  K.after(o.gap, [o]() {
    W.opsDone++; replayTick();
    if (g_verbose) tracef("op %s", opText(o).c_str());
    shape(o.k);
    if (o.k == "q.quiet" || o.k == "q.recover") {
      if (!proxyUp() && W.bootAt < 0) { nextOp(); return; }
      W.waiting = true; W.recovering = o.k == "q.recover"; W.waitSince = K.now;
      if (W.recovering) { heal(o.a); hostileHeal(); }
      for (auto n : W.nets) if (n->sess && n->sess->c) n->sess->c->setStall(false);
      for (auto c : W.clients) if (c->c) { c->c->setStall(false); c->stalled = false; }
      int srv = 0; for (auto n : W.nets) srv = std::max(srv, (int)n->srv.size());
      int ri = 60; for (auto n : W.nets) ri = std::max(ri, n->def.reconnect);
      W.deadline = K.now + (W.recovering ? (usec)(300 + 130 + (ri + 10) * (srv + 1) + (o.a ? 360 * srv : 0)) * SEC : 30 * SEC);
      K.at(W.deadline + 1, []() {});     // make sure time gets there
      return;
    }
    if (o.k == "t.sleep") { K.after((usec)o.a * MS, nextOp); return; }
    if (!hostileOp(o) && !logsOp(o) && !adminOp(o) && !authOp(o) && !featureOp(o)) {
      if (o.k[0] == 's' || o.k[0] == 'n') serverOp(o);
      else if (o.k == "k.sock") K.socketFailures = 1 + (unsigned)o.b % 4;
      else if (o.k == "c.attach") doAttach(o);
      else if (o.k == "c.detach") doDetach(o);
      else if (o.k == "c.stall") { CInst *c = o.a < 8 ? W.slot[o.a] : nullptr; if (c && c->c) { c->c->setStall(true); c->stalled = true; stats.add("fault.client_stall"); } }
      else if (o.k == "c.unstall") { CInst *c = o.a < 8 ? W.slot[o.a] : nullptr; if (c && c->c) { c->c->setStall(false); c->stalled = false; } }
      else if (o.k[0] == 'c') clientCmd(o);
      else if (o.k == "p.usr1") { if (proxyUp()) { stats.add("op.save"); int bad = saveAt(); bool exact = netQuiet() && !sourcesReady(); for (auto n : W.nets) { NextLogin x = n->nextLogin(exact); if (K.now - n->lostAt < 10 * SEC) x = eitherLogin(x, n->memOld); n->saved = bad ? eitherLogin(n->saved, x) : x; if (bad == 2) for (auto &p : n->saved.rejoin) p.second.keyKnown = false; n->mem = x; n->cfgWant = n->want; n->cfgWantKnown = n->wantKnown; } featureSaved(exact, true); raiseSignal(SIGUSR1); } }
      else if (o.k == "p.term") {
        if (proxyUp()) {
          stats.add("fault.terminate");
          W.exitWanted = W.shuttingDown = true; W.bootAt = K.now + (usec)std::max(1, o.a) * MS;
          if (W.s.autosave) {
            int bad = saveAt(); bool exact = netQuiet() && !sourcesReady();
            // what the user is on now may or may not be part of it: the session has not ended yet
            for (auto n : W.nets) { NextLogin a = n->mem, b = n->nextLogin(exact); a.want = b.want = n->cfgWant; a.wantKnown = b.wantKnown = n->cfgWantKnown; if (K.now - n->lostAt < 10 * SEC) a = eitherLogin(a, n->memOld); n->saved = bad ? eitherLogin(n->saved, eitherLogin(a, b)) : eitherLogin(a, b); if (bad == 2) for (auto &p : n->saved.rejoin) p.second.keyKnown = false; }
            featureSaved(exact, false);
          }
          raiseSignal(o.b & 1 ? SIGINT : SIGTERM);
        }
      }
      else if (o.k == "p.die" || o.k == "p.lurk") { if (shutdownOp(o)) return; }

      else if (o.k == "p.savefault") saveFault(o);
      else if (o.k == "p.storefault") storeFault(o);
      else if (o.k == "p.storeheal") storeHeal();
      else if (o.k == "p.crash") { if (proxyUp()) { stats.add("fault.crash"); W.bootAt = K.now + (usec)std::max(1, o.a) * MS; killProxy(); } }
    }
    for (auto c : W.clients) if (c->lossy) lossyClient(c);
    nextOp();
  });
}
// ================================================================ configuration
static std::string netFile(const NetDef &d) {
  std::string s = d.inMain ? "[" + d.name + "]\n" : "[global]\n";
  if (!d.bare) s += "fullname=" + d.fullname + "\nnick=" + d.nick + "\nusername=" + d.username + "\n";
  if (d.reconnect >= 0) s += strf("reconnect-interval=%d\n", d.reconnect);
  if (d.ignoreFirst) s += "ignore_first_nick=true\n";
  if (!d.autocmd.empty()) { s += "autocmd="; for (auto &a : d.autocmd) s += a + ";"; s += "\n"; }
  if (d.style == 1 || d.inMain) { s += "autojoin="; for (auto &c : d.chans) if (c.autojoin) s += c.name + ";"; s += "\n"; }
  s += "servers="; for (auto &v : d.servers) s += strf("irc://%s:%d;", v.host.c_str(), v.port); s += "\n";
  for (auto &v : d.servers) if (!v.pass.empty()) s += strf("\n[irc://%s:%d]\npassword=%s\n", v.host.c_str(), v.port, v.pass.c_str());
  if (d.style == 1 || d.inMain) return s;
  for (auto &c : d.chans) s += strf("\n[%s]\nautojoin=%s\n", c.name.c_str(), c.autojoin ? "true" : "false") + (d.style == 2 && !c.key.empty() ? "key=" + c.key + "\n" : "");
  return s;
}
void writeConfig() {
  mkdir("cfg", 0700); mkdir("cfg/networks", 0700);
  std::string g = "[global]\n", ac, keys;
  for (auto &d : W.s.nets) {
    if (d.absent) continue;
    if (d.autoconnect) ac += d.name + ";";
    if (!d.inMain) spit("cfg/networks/" + d.name, netFile(d));
    if (d.style != 2 || d.inMain) for (auto &c : d.chans) if (!c.key.empty()) keys += c.name + "\t" + c.key + "\t" + d.name + "\n";
  }
  for (int i = 0; i < W.s.hostile; i++) { ac += strf("evil%d;", i); spit(strf("cfg/networks/evil%d", i), strf("[global]\nnick=mynick\nusername=u\nfullname=Full\nreconnect-interval=%d\nautojoin=#e1;\nservers=irc://evil%d.test:6667;\n", 2 + i * 7, i)); }
  g += "autoconnect=" + ac + "\n";
  if (!W.s.replication.empty()) g += "replication=" + W.s.replication + "\n";
  if (!W.s.match.empty()) { g += "match="; for (auto &m : W.s.match) g += m + ";"; g += "\n"; }
  if (W.s.reportTime != "never") g += "report-time=" + W.s.reportTime + "\n";
  if (!W.s.adminUser.empty()) g += "admin-user=" + W.s.adminUser + "\n";
  if (W.s.autosave) g += "autosave=true\n"; else g += "autosave=false\n";
  for (auto &p : W.s.global) g += p.first + "=" + p.second + "\n";
  for (auto &p : W.s.groups) g += "\n[" + p.first + "]\n" + p.second;
  for (auto &d : W.s.nets) if (d.inMain) g += "\n" + netFile(d);
  spit("cfg/config", g);
  std::string l = strf("[6000]\npassword=%s\n\n", W.s.password.c_str());
  for (size_t i = 0; i < W.s.nets.size(); i++) if (!W.s.nets[i].absent) l += strf("[%d]\n", 6100 + (int)i) + (i < W.s.lpass.size() ? W.s.lpass[i].empty() ? "" : "password=" + W.s.lpass[i] + "\n" : "password=" + W.s.password + "\n") + "network=" + W.s.nets[i].name + "\n\n";
  for (int i = 0; i < W.s.hostile; i++) l += strf("[%d]\npassword=evilpw\nnetwork=evil%d\n\n", 6200 + i, i);
  spit("cfg/listener", l);
  if (!keys.empty()) spit("cfg/keys", keys);
  for (auto &f : W.s.files) spit("cfg/" + f.first, f.second);
}
void worldInit(const Scn &s) {
  W.s = s;
  K.seed = s.seed; K.lazyPoll = s.lazy;
  K.wallOff = (int64_t)1240000000 * SEC;
  int id = 0;
  for (auto &d : s.nets) {
    Net *n = new Net(); n->id = id++; n->def = d; n->want = n->cfgWant = d.autoconnect;
    for (auto &v : d.servers) n->srv.push_back(Srv{v});
    n->nickOk.insert(d.nick);
    for (auto &c : d.chans) if (c.autojoin) { MustJoin m; m.name = c.name; m.key = c.key; n->rejoin[lc(c.name)] = m; }
    n->mem = n->saved = n->nextLogin(true);
    W.nets.push_back(n);
    Rng r(hashn(s.seed, 77, n->id));
    for (int i = 0; i < NCH; i++) {
      Chan c; c.name = CHANS[i]; c.created = 1230000000 + i;
      if (r.chance(0.5)) { c.topic = strf("topic of %s/%s", CHANS[i], d.name.c_str()); c.topicBy = r.chance(0.5) ? "anna" : "bert!ub@b.test"; c.topicAt = 1239000000 + i; }
      if (r.chance(0.3)) c.flags = "mnst";
      if (r.chance(0.3)) c.limit = 50;
      if (r.chance(0.4)) c.bans.push_back("*!*@spam.test");
      for (auto &x : d.chans) if (ieq(x.name, c.name)) c.key = x.key;
      n->chans[lc(c.name)] = c;
      for (int u = 0; u < NPOOL; u++) if (r.chance(0.45)) { User *us = needUser(n, u); n->chans[lc(c.name)].mem[lc(us->nick)] = r.chance(0.3) ? '@' : r.chance(0.3) ? '+' : n->def.prefixes.find('h') != std::string::npos && r.chance(.3) ? '%' : 0; }
      n->touch(c.name);
    }
    if (s.crowd) {
      Chan &c = n->chans[lc(CHANS[s.crowd % 3])];
      for (int i = 0; i < s.crowd; i++) { User u; u.nick = strf("%c%0*dcrowd", 'b' + i % 23, 2 + (i * 7) % (3 + s.crowd % 14), i); u.user = "crowd"; u.host = "crowd.test"; u.real = "Crowd"; n->users[lc(u.nick)] = u; c.mem[lc(u.nick)] = r.chance(0.05) ? '@' : r.chance(0.1) ? '+' : 0; }
      n->touch(c.name);
    }
    for (int u = 0; u < NPOOL; u++) { User *us = needUser(n, u); us->away = r.chance(0.2); }
  }
  K.onConnect = [](const std::string &host, int port, Conn *c) {
    ConnectPlan p; if (hostileDial(host, c, p)) return p;
    for (auto n : W.nets) for (size_t i = 0; i < n->srv.size(); i++) if (n->srv[i].def.host == host) {
      int m = n->srv[i].mode;
      c->cfg = W.s.srv; adminDial(n, host);
      p.kind = m == 1 ? ConnectPlan::REFUSE : m == 2 ? ConnectPlan::HANG : m == 4 ? ConnectPlan::SYNCFAIL : m == 5 ? ConnectPlan::RESET_AFTER : ConnectPlan::ACCEPT;
      p.delay = W.s.srv.latMin + 1 * MS;
      if (n->want == false && n->wantKnown) violation(W.s.auth ? "P15.connect" : "P10.unwanted-connection", strf("network %s was disconnected by the user but connects", n->def.name.c_str()));
      return p;
    }
    if (W.s.auth) violation("P15.connect", "the proxy connects to " + host + ", which nobody who may do so asked for");
    p.kind = ConnectPlan::REFUSE; return p;
  };
  K.serverFor = [](const std::string &host, int port, Conn *c) -> Remote * {
    if (Remote *h = hostileServer(host, c)) return h;
    for (auto n : W.nets) for (size_t i = 0; i < n->srv.size(); i++) if (n->srv[i].def.host == host) {
      if (n->srv[i].def.port != port) violation("P10.wrong-port", strf("connects to %s port %d", host.c_str(), port));
      Session *s = new Session(); s->n = n; s->id = W.nextSess++; s->srvIdx = i; s->c = c;
      n->sessions.push_back(s);
      return s;
    }
    return nullptr;
  };
  K.dnsFail = [](const std::string &host) { for (auto n : W.nets) for (auto &x : n->srv) if (x.def.host == host && x.mode == 3) return -2; return 0; };
  K.idle = idleHook;
  featureInit(); adminInit(); hostileInit();
}
static void proxyDown() {
  for (auto n : W.nets) for (auto s : n->sessions) if (s->st != Session::CLOSED) s->ended(true);
  for (auto n : W.nets) { n->mem = n->saved; n->rejoin = n->saved.rejoin; n->nickOk = n->saved.nicks; n->want = n->saved.want; n->wantKnown = n->saved.wantKnown; n->cfgWant = n->want; n->cfgWantKnown = n->wantKnown; n->attachNicks.clear(); }
  featureRestart(); adminRestart(); logsDown(); hostileDown();
  for (auto c : W.clients) if (!c->dead) { c->dead = true; c->lossy = true; if (c->slot < 8 && W.slot[c->slot] == c) W.slot[c->slot] = nullptr; }
}
void worldRun() {
  writeConfig();
  K.dumpInterval = W.s.dumpInterval; saveInit(); shutdownInit();
  K.after(5 * MS, nextOp);
  for (;;) {
    W.lives++; W.shuttingDown = false; W.bootAt = -1;
    bool more = boot({"ctrlproxy", "--config-dir", "cfg"});
    if (!more) break;
    if (!g_viol.empty()) break;
    if (K.life.exited && !W.exitWanted) { violation("CRASH:exit", strf("the proxy exited with code %d by itself", K.life.exitCode)); break; }
    W.exitWanted = false;
    bool resume = shutdownBusy(); shutdownDone(K.life.exited); if (!g_viol.empty()) break;
    proxyDown();
    if (resume) K.after(0, nextOp);
    if (W.bootAt < 0) W.bootAt = K.now + 50 * MS;
    while (!K.q.empty() && K.q.top().at <= W.bootAt && g_viol.empty() && !W.finished) worldStep();
    if (!g_viol.empty() || W.finished) break;
    if (K.now < W.bootAt) K.now = W.bootAt;
    saveReboot();
    if (!g_viol.empty()) break;
  }
}
