// Who gets in: peers without the password on every kind of listener, over IRC and over SOCKS, and users that do have it.
#include "world.h"
#include <algorithm>
namespace {
struct Intruder : Remote {
  Conn *c = nullptr; int id = 0, kind = 0, wrong = 0; std::string label, got; bool dead = false, socksDone = false;   // kind 0: IRC, 1: SOCKS
  void onConnected(Conn *) override {}
  void onClosed(Conn *, bool) override { dead = true; tracef("%s closed by proxy", label.c_str()); }
  void onData(Conn *, const std::string &d) override {
    got += d;
    if (kind == 0) {
      size_t p;
      while ((p = got.find('\n')) != std::string::npos) {
        std::string raw = got.substr(0, p); got.erase(0, p + 1); if (!raw.empty() && raw.back() == '\r') raw.pop_back();
        if (g_verbose) tracef("%s< %s", label.c_str(), esc(raw).c_str());
        Line l = parseLine(raw); int n = l.num();
        stats.add("chk.refusal");
        if (n == 451 || n == 461 || n == 464) { if (l.a.size() > 3) violation("P15.shown", label + " was shown '" + esc(raw) + "'"); continue; }
        violation("P15.admitted", strf("%s, which does not have the password, was shown '%s'", label.c_str(), esc(raw).c_str()));
      }
      return;
    }
    for (;;) {
      if (got.size() < 2) return;
      unsigned a = (unsigned char)got[0], b = (unsigned char)got[1];
      if (a == 5 && (b == 2 || b == 255)) { got.erase(0, 2); stats.add("chk.socks_method"); continue; }
      if (a == 1 && b == 1) { got.erase(0, 2); stats.add("chk.socks_refusal"); continue; }
      if (a == 5 && b >= 1 && b <= 8 && b != 2) { if (got.size() < 7) return; got.erase(0, 7); stats.add("chk.socks_error"); continue; }
      violation("P15.admitted", strf("%s, which does not have the password, was sent '%s'", label.c_str(), esc(got).c_str())); return;
    }
  }
};
std::vector<Intruder *> all; int next = 1;
std::string port16(int p) { return std::string(1, (char)(p >> 8)) + std::string(1, (char)p); }
std::string str8(const std::string &s) { return std::string(1, (char)std::min<size_t>(255, s.size())) + s.substr(0, 255); }
bool isRight(const std::string &p, int port) {
  if (port == 1080) { for (auto &u : W.s.socks) if (p == u.second) return true; return p == W.s.get("password"); }
  return p == authPass(port);
}
// something close to the password, but not it
std::string wrongPass(int port, Rng &r) {
  std::string right = port == 1080 ? (W.s.socks.empty() ? "x" : W.s.socks[r.below(W.s.socks.size())].second) : authPass(port), p;
  std::vector<std::string> others = {W.s.password, W.s.get("password"), "", "*", "x", "opensesame", "PASS", "anna", "anna:apw", "bert", "spw00", std::string(400, 'a')};
  for (auto &x : W.s.lpass) others.push_back(x);
  for (auto &u : W.s.socks) others.push_back(u.second);
  for (int i = 0; i < 20; i++) {
    switch (r.below(8)) {
    case 0: p = right.substr(0, r.below(right.size())); break;
    case 1: p = right + (r.chance(.5) ? "x" : right); break;
    case 2: p = right.substr(1); break;
    case 3: p = upper(right); break;
    case 4: p = right; p[r.below(p.size())] ^= 1; break;
    case 5: p = " " + right; break;
    default: p = others[r.below(others.size())]; break;
    }
    if (p.find_first_of("\r\n") != std::string::npos || std::count(p.begin(), p.end(), '\0')) continue;
    if (!isRight(p, port) && !isRight(p.substr(0, p.find(':')), port)) return p;
  }
  return "nope";
}
std::string netName(Rng &r) {
  Net *n = W.nets[r.below(W.nets.size())];
  switch (r.below(6)) { case 0: return n->def.servers[r.below(n->def.servers.size())].host; case 1: return "evil.test"; case 2: return ""; default: return n->def.name; }
}
std::string passLine(const std::string &p, const std::string &net, Rng &r) {
  std::string a = p + (net.empty() ? "" : ":" + net);
  std::string cmd = r.chance(.8) ? "PASS " : r.chance(.5) ? "pass " : ":me PASS ";
  return cmd + (a.empty() || a[0] == ':' || a.find(' ') != std::string::npos || r.chance(.3) ? ":" : "") + a + (r.chance(.1) ? "\n" : "\r\n");
}
std::string chatter(Rng &r, Net *n) {
  std::string t = strf("zqx%d", next * 100 + (int)r.below(100));
  switch (r.below(12)) {
  case 0: return "NICK " + t + "\r\n";
  case 1: return "USER " + t + " 0 * :" + t + "\r\n";
  case 2: return "PRIVMSG #alpha :" + t + "\r\n";
  case 3: return "JOIN #" + t + "\r\n";
  case 4: return "QUIT :" + t + "\r\n";
  case 5: return "CTRLPROXY DIE " + t + "\r\n";
  case 6: return ":" + n->meNick + " PRIVMSG #alpha :" + t + "\r\n";
  case 7: return "PING :" + t + "\r\n";
  case 8: return "\r\n";
  case 9: return "CAP LS " + t + "\r\n";
  case 10: return "PASS\r\n";
  default: return std::string("\x80\xff\x02\x01", r.range(1, 4)) + t + "\r\n";
  }
}
std::string methods(Rng &r, bool with2) { std::string m; int k = r.below(4); for (int i = 0; i < k; i++) { static const unsigned char M[] = {0, 3, 5, 128, 255, 0}; m += (char)M[r.below(6)]; } if (with2) m.insert(r.below(m.size() + 1), 1, (char)2); return std::string(1, (char)5) + str8(m); }
std::string connectReq(Rng &r) {
  std::string h = netName(r), t = "\005\001"; if (r.chance(.1)) t = "\005\002";
  switch (r.below(8)) {
  case 0: return t + std::string("\0\001\177\0\0\001", 6) + port16(6667);
  case 1: return t + std::string("\0\004", 2) + std::string(16, '\0') + port16(6667);
  case 2: return t + std::string("\0\007", 2) + "abc";
  default: return t + std::string("\0\003", 2) + str8(h) + port16(r.chance(.8) ? 6667 : 7000);
  }
}
void intrude(const Op &o) {
  if (!proxyUp()) return;
  Rng r(hashn(W.s.seed, 0xa07, o.uid));
  std::vector<int> ports = {6000, 6000}; for (auto n : W.nets) ports.push_back(6100 + n->id); if (!W.s.socks.empty()) { ports.push_back(1080); ports.push_back(1080); }
  int port = ports[(unsigned)o.b % ports.size()]; std::string path;
  if (!W.s.get("password").empty() && r.chance(.1)) { port = 0; path = "cfg/socket"; }
  if (path.empty() && authPass(port).empty() && port != 1080) return;       // an open one
  Intruder *x = new Intruder(); x->id = next++; x->kind = r.chance(port == 1080 ? .8 : .3); x->label = strf("intruder%d/%d", x->id, port);
  if (x->kind == 1) x->got = "";
  NetCfg cfg = W.s.cli; netcfgFor(o, cfg);
  x->c = dialProxy(port, path, x, cfg, strf("intr%d", x->id), "evil.test");
  if (!x->c) { delete x; return; }
  all.push_back(x);
  Net *n = W.nets[r.below(W.nets.size())];
  std::vector<std::string> parts;
  if (x->kind == 0) {
    int k = r.chance(.05) ? r.range(50, 300) : r.range(1, 8);
    for (int i = 0; i < k; i++) { if (r.chance(.55)) { parts.push_back(passLine(wrongPass(port, r), r.chance(.6) ? netName(r) : "", r)); stats.add("fault.wrong_pass"); } else parts.push_back(chatter(r, n)); }
    // the right one, but never sent to its end, or in something that is no password
    std::string right = port == 1080 ? "apw" : authPass(port);
    switch (r.below(6)) { case 0: parts.push_back("PASS " + right); break; case 1: parts.push_back("NOTICE PASS " + right + "\r\n"); break; case 2: parts.push_back("PASSWORD " + right + "\r\n"); break; case 3: parts.push_back("NICK :PASS " + right + "\r\n"); break; default: break; }
  } else {
    bool with2 = r.chance(.8);
    parts.push_back(methods(r, with2));
    int k = r.range(0, 5);
    for (int i = 0; i < k; i++) switch (r.below(5)) {
      case 0: parts.push_back(connectReq(r)); break;
      case 1: parts.push_back(chatter(r, n)); break;
      default: {
        std::string u = W.s.socks.empty() || r.chance(.3) ? (r.chance(.5) ? "" : "mallory") : W.s.socks[r.below(W.s.socks.size())].first, p = wrongPass(port, r);
        if (port == 1080 && W.s.socks.size() > 1 && r.chance(.3)) {       // somebody else's
          auto &a = W.s.socks[r.below(W.s.socks.size())], &b = W.s.socks[r.below(W.s.socks.size())]; bool known = false; for (auto &w : W.s.socks) if (w.first == a.first && w.second == b.second) known = true;
          if (!known && b.second != W.s.get("password")) { u = a.first; p = b.second; }
        }
        parts.push_back(std::string(1, (char)1) + str8(u) + str8(p)); stats.add("fault.wrong_socks_password"); break; }
      }
    if (r.chance(.7)) parts.push_back(connectReq(r));
    parts.push_back(chatter(r, n)); if (r.chance(.5)) parts.push_back(chatter(r, n));
  }
  bool whole = r.chance(.4);
  std::string joined; for (auto &p : parts) joined += p;
  tracef("%s: %zu parts, %s", x->label.c_str(), parts.size(), esc(joined, 300).c_str());
  usec t = 0;
  if (whole) x->c->send(joined);
  else for (auto &p : parts) { t += r.chance(.3) ? 0 : r.below(r.chance(.2) ? 2 * SEC : 60 * MS); K.after(t, [x, p]() { if (!x->dead && !x->c->remoteClosed) x->c->send(p); }); }
  if (r.chance(.5)) { bool rst = r.chance(.5); K.after(t + r.below(3 * SEC), [x, rst]() { if (!x->dead && !x->c->remoteClosed) { x->c->closeRemote(rst); x->dead = true; } }); stats.add(rst ? "fault.intruder_rst" : "fault.intruder_fin"); }
  stats.add(x->kind ? "fault.socks_intruder" : "fault.irc_intruder");
}
// a user that has the password, perhaps after some mistakes
void comeIn(const Op &o) {
  if (o.a < 0 || o.a >= 8 || W.slot[o.a] || !proxyUp()) return;
  Net *n = W.nets[(unsigned)o.b % W.nets.size()]; Rng r(hashn(W.s.seed, 0xa08, o.uid));
  if (!n->want && !n->ready()) return;
  std::string nick = n->meNick.empty() ? n->def.nick : n->meNick;
  int port = r.chance(.5) ? 6000 : 6100 + n->id; bool sock = r.chance(.4) && n->ready() && K.now - n->sess->proxyReadyAt > 1 * SEC; std::string user, pass;
  if (sock && !W.s.socks.empty() && r.chance(.6)) { port = 1080; auto &u = W.s.socks[r.below(W.s.socks.size())]; user = u.first; pass = u.second; }
  if (port != 1080) { pass = authPass(port); user = r.chance(.5) ? "anyone" : ""; if (pass.empty()) pass = "whatever"; }
  if (!listening(port, "")) return;
  n->attachNicks[nick]++;
  AuthPlan p; p.on = true;
  if (sock) { p.socks = 1; p.user = user; p.pass = pass; p.host = r.chance(.6) ? n->def.name : n->def.servers[0].host; p.port = n->def.servers[0].port; p.pipeline = r.chance(.4); p.methods = methods(r, true); }
  else {
    int k = r.chance(.5) ? 0 : r.range(1, 6);
    for (int i = 0; i < k; i++) { if (r.chance(.6) && !authPass(port).empty()) { p.pre += passLine(wrongPass(port, r), r.chance(.5) ? netName(r) : "", r); stats.add("fault.mistyped_pass"); } else { std::string x = chatter(r, n); if (!starts(x, "QUIT")) p.pre += x; } }
    std::string a = pass + (port == 6000 || r.chance(.3) ? ":" + n->def.name : "");
    p.passLine = (r.chance(.8) ? "PASS " : "pass ") + std::string(a.find(' ') != std::string::npos || r.chance(.2) ? ":" : "") + a;
    p.wrongs = (int)std::count(p.pre.begin(), p.pre.end(), '\n');
  }
  CInst *c = attachClient(o, n, p.passLine, port, nick, false, &p);
  if (c) { W.slot[o.a] = c; stats.add(sock ? "op.socks_attach" : "op.auth_attach"); }
}
}
std::string authPass(int port) {
  if (port == 6000) return W.s.password;
  if (port >= 6100 && port < 6100 + (int)W.s.lpass.size() && !W.s.lpass[port - 6100].empty()) return W.s.lpass[port - 6100];
  if (port >= 6100 && W.s.lpass.empty()) return W.s.password;
  return W.s.get("password");
}
bool authOp(const Op &o) {
  if (o.k == "n.intrude") { int k = o.d % 17 == 0 ? 12 : 1; for (int i = 0; i < k; i++) { Op x = o; x.uid = o.uid * 20 + i; x.b += i; intrude(x); } return true; }
  if (o.k == "c.authin") { comeIn(o); return true; }
  return false;
}
void authWire(Session *s, const std::string &raw) {
  if (W.s.auth && raw.find("zqx") != std::string::npos) violation("P15.reached-server", strf("'%s', sent by a peer without the password, reached %s", esc(raw).c_str(), s->n->def.name.c_str()));
}
// the proxy's answers while a client talks SOCKS to it; true as long as they are not IRC yet
bool CInst::socksData() {
  auto bad = [&](const char *what) { if (n->sess && n->ready() && n->sess->id == sessAtDial) violation("P15.refused", strf("%s has the right password but was %s: '%s'", label.c_str(), what, esc(buf).c_str())); dead = true; c->closeRemote(false); if (slot < 8 && W.slot[slot] == this) W.slot[slot] = nullptr; };
  for (;;) {
    if (socks == 1) {
      if (buf.size() < 2) return true;
      if (buf.substr(0, 2) != "\005\002") { bad("refused"); return true; }
      buf.erase(0, 2); socks = 2;
      if (!auth.pipeline) { c->send(std::string(1, (char)1) + str8(auth.user) + str8(auth.pass)); }
    } else if (socks == 2) {
      if (buf.size() < 2) return true;
      if (buf.substr(0, 2) != std::string("\001\0", 2)) { bad("refused"); return true; }
      buf.erase(0, 2); socks = 3;
      if (!auth.pipeline) c->send(std::string("\005\001\0\003", 4) + str8(auth.host) + port16(auth.port));
    } else if (socks == 3) {
      if (buf.size() < 5) return true;
      if (buf[0] != 5 || buf[1] != 0) { bad("refused"); return true; }
      size_t len = buf[3] == 1 ? 10 : buf[3] == 4 ? 22 : buf[3] == 3 ? 7 + (unsigned char)buf[4] : 0;
      if (!len) { bad("answered nonsense"); return true; }
      if (buf.size() < len) return true;
      buf.erase(0, len); socks = 0; stats.add("chk.socks_admitted");
      if (!auth.pipeline) c->send(auth.login);
      return false;
    } else return false;
  }
}
std::string socksAll(const AuthPlan &p) { return p.methods + std::string(1, (char)1) + str8(p.user) + str8(p.pass) + std::string("\005\001\0\003", 4) + str8(p.host) + port16(p.port); }
