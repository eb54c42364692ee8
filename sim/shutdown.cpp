// Shutdown by a signal or the DIE command: goodbyes, what is left behind, the exit itself (P23).
#include "world.h"
#include <unistd.h>
#include <signal.h>
namespace {
struct Bye { Conn *c; size_t from; std::string who; bool server; };
std::vector<Bye> byes; bool asked = false; int dieLife = -1; int tokens = 0;
// somebody who connected and does not go on
struct Lurker : Remote { Conn *c = nullptr; bool gone = false, in = false; std::string label; usec born = 0; void onConnected(Conn *) override {} void onData(Conn *, const std::string &) override {} void onClosed(Conn *, bool) override { gone = true; } };
std::vector<Lurker *> lurkers;
struct Killer : Remote { Conn *c = nullptr; void onConnected(Conn *) override {} void onData(Conn *, const std::string &) override {} void onClosed(Conn *, bool) override {} };
size_t room(Conn *c) { return c->cfg.sndcap > c->sndbuf.size() ? c->cfg.sndcap - c->sndbuf.size() : 0; }
}
bool shutdownBusy() { return dieLife == W.lives; }
void shutdownInit() {
  // the moment the proxy decides to exit: who must hear about it
  K.onExit = []() {
    if (!W.exitWanted) return;
    asked = true; byes.clear();
    if (dieLife == W.lives) {
      W.shuttingDown = true;
      if (W.s.autosave) {
        for (auto n : W.nets) { NextLogin a = n->mem, b = n->nextLogin(false); a.want = b.want = n->cfgWant; a.wantKnown = b.wantKnown = n->cfgWantKnown; if (K.now - n->lostAt < 10 * SEC) a = eitherLogin(a, n->memOld); n->saved = eitherLogin(a, b); }
        featureSaved(false, false);
      }
    }
    for (auto n : W.nets) for (auto s : n->sessions) {
      Conn *c = s->c; if (!c || !c->fdOpen || s->st == Session::CLOSED || c->st != Conn::ESTAB || s->weClosed || s->expectClose || c->remoteClosed || c->rcvRst || c->rcvFin || c->peerGone) continue;
      if (room(c) < 2000 || K.now - s->born < 500 * MS) continue;
      byes.push_back({c, c->lastOut.size(), n->def.name + " (" + s->host() + ")", true});
    }
    for (auto l : lurkers) { Conn *c = l->c; if (l->in && !l->gone && c->fdOpen && !c->remoteClosed && !c->rcvRst && !c->rcvFin && !c->peerGone && room(c) >= 2000 && K.now - l->born > 500 * MS) byes.push_back({c, 0, l->label, false}); }
    for (auto cl : W.clients) {
      Conn *c = cl->c; if (!c || cl->dead || !cl->alive() || cl->socks || cl->quitSent || cl->mustFail || K.now - cl->born < 500 * MS || cl->mayClose || !c->fdOpen || c->remoteClosed || c->rcvRst || c->rcvFin || c->peerGone || room(c) < 4000 || (cl->n && cl->n->absent)) continue;
      byes.push_back({c, c->lastOut.size(), cl->label, false});
    }
  };
}
// after the process has ended
void shutdownDone(bool exited) {
  lurkers.clear(); bool was = asked; asked = false; bool die = dieLife == W.lives; dieLife = -1;
  if (!exited || !was || !g_viol.empty()) return;
  stats.add("chk.shutdown");
  if (K.life.exitCode) violation("P23.exit-code", strf("the proxy exited with code %d when asked to end", K.life.exitCode));
  for (auto &b : byes) {
    // what the kernel took from the proxy since the exit began; whole lines only
    std::string out = b.c->lastOut.substr(std::min(b.from, b.c->lastOut.size()));
    stats.add(b.server ? "chk.goodbye_server" : "chk.goodbye_client");
    std::vector<std::string> lines; size_t at = 0, p; while ((p = out.find("\r\n", at)) != std::string::npos) { lines.push_back(out.substr(at, p - at)); at = p + 2; }
    if (b.server) {
      bool quit = false; for (auto &l : lines) { Line x = parseLine(l); if (x.cmd == "QUIT") quit = true; else if (quit) violation("P23.goodbye", strf("%s was sent '%s' after QUIT", b.who.c_str(), esc(l).c_str())); }
      if (!quit) violation("P23.goodbye", strf("the connection to %s was ended without QUIT (last: '%s')", b.who.c_str(), esc(out, 80).c_str()));
    } else {
      bool err = false; for (auto &l : lines) if (parseLine(l).cmd == "ERROR") err = true;
      if (!err) violation("P23.goodbye", strf("%s was dropped without being told (last: '%s')", b.who.c_str(), esc(out, 80).c_str()));
    }
  }
  if (!K.diskFault) for (auto f : {"cfg/socket", "cfg/admin"}) if (!access(f, F_OK)) violation("P23.left-behind", strf("%s is still there after the proxy ended", f));
  (void)die;
}
// true: nothing else happens until the proxy has ended
bool shutdownOp(const Op &o) {
  if (o.k == "p.lurk" && proxyUp()) {
    Lurker *l = new Lurker(); static int no = 0; l->label = strf("lurker%d", ++no); l->born = K.now;
    l->c = o.b % 4 ? dialProxy(6000, "", l, W.s.cli, l->label, "lurk.test") : dialProxy(0, "cfg/socket", l, W.s.cli, l->label, "");
    if (!l->c) { delete l; return false; }
    static const char *T[] = {"", "NICK lurky\r\n", "PA", "PASS sesame\r\nNICK lurky\r\n", "USER lu 0 * :lu\r\n"};
    std::string t = T[o.c % 5]; if (o.c % 5 == 3) { t = "PASS " + W.s.password + (o.d % 2 ? "" : ":" + W.nets[0]->def.name) + "\r\nNICK lurky\r\n"; l->in = true; } if (!t.empty()) l->c->send(t); stats.add("op.lurk"); lurkers.push_back(l); return false;
  }
  if (o.k != "p.die" || !proxyUp() || !W.s.shutdown) return false;
  CInst *cl = o.b >= 0 ? W.slot[o.b % 5] : nullptr;
  if (cl && (o.c % 3 == 0 || !cl->alive() || cl->quitSent || cl->mustFail || K.now - cl->born < 500 * MS || cl->mayClose || cl->c->remoteClosed || cl->stalled || !cl->n || !cl->welcomed)) cl = nullptr;
  Conn *con = nullptr;
  if (!cl) { Killer *k = new Killer(); con = k->c = dialProxy(0, "cfg/admin", k, W.s.cli, strf("killer%d", W.lives), ""); if (!con) { delete k; return false; } }
  stats.add(cl ? "op.die_client" : "op.die_console");
  dieLife = W.lives; W.exitWanted = true; W.bootAt = K.now + (usec)std::max(1, o.a) * MS;
  tracef("%s asks the proxy to end", cl ? cl->label.c_str() : "a console");
  if (cl) cl->c->send("CTRLPROXY DIE\r\n"); else con->send("DIE\n");
  int life = W.lives; K.after(60 * SEC, [life]() { if (W.lives == life && proxyUp() && dieLife == life) violation("P23.ignored", "the proxy goes on although it was told to end"); });
  return true;
}
