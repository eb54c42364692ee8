// Peers that say anything at all: servers, clients and SOCKS or console users (P01).
//
// Hostile networks are not part of the model. What they and their clients say is generated, and must neither bring the
// proxy down nor disturb the other networks. Once the hostile peers are gone, such a network must serve a user again.
#include "world.h"
#include <algorithm>
#include <string.h>
namespace {
struct Bad { int id; std::string host, nick; Remote *srv = nullptr; Conn *sc = nullptr; bool nice = false, extra = false; int mode = 0; std::set<std::string> heard; bool in = false; };
std::vector<Bad *> bads; bool healing = false; int serial = 0; uint64_t salt = 0;
Rng rng() { return Rng(hashn(W.s.seed, 0x405711e, ++salt)); }
std::string low(std::string s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }
// ---------------------------------------------------------------- what such peers say
std::string who(Rng &r, const std::string &me) {
  static const std::vector<std::string> P = {"bob", "Bob", "carl", "dora", "e[ve]", "@bob", "+carl", "@+dora", "", "*", "!", "@", "a!b", "a!b@c", "!@", "x!y@z!w", "bob!u@h", "carl!@", "NickServ", "Q", "evil.test", "AUTH", "0", "-", ":", "ctcp"};
  return r.chance(.45) ? me : r.chance(.05) ? std::string(r.range(1, 700), 'n') : r.pick(P);
}
std::string chan(Rng &r) {
  static const std::vector<std::string> P = {"#e1", "#e1", "#e1", "#E1", "#e2", "&loc", "#x]y", "#", "&", "+m", "!ABCDEfoo", "#a,#b", "#e1,#e2", "#e1,", ",", "#a/../b", "..", "#%n%s", "#e1:", "#\xff\xfe", "#a;b", "#a=b", "[#x]", "#e1 "};
  return r.chance(.03) ? "#" + std::string(r.range(1, 700), 'c') : r.pick(P);
}
std::string text(Rng &r) {
  static const std::vector<std::string> P = {"", " ", "hello", ":", "::", "\001", "\001\001", "\001VERSION\001", "\001PING 12\001", "\001ACTION waves\001", "\001ACTION \001", "\001ACTION", "\001DCC SEND x 1 2 3\001", "\001 \001", "\001TIME", "\001CLIENTINFO\001", "\001FINGER \001", "%s%s%n", "=", "x=", "x=+", "bob=+u@h", "=+", "This nickname is registered. Please IDENTIFY", "Password accepted", "\r", "a\rb", "a\tb", "\xc3", "\xff\xfe\xfd", "\xe2\x82", "0", "-1", "99999999999999999999", "4294967296", "u@h", "@bob +carl dora", "@ + ", "@", "bob  carl", "\003\0024", "hi \001ACTION x\001", "me: you"};
  if (r.chance(.04)) return std::string(r.range(200, 5000), (char)r.range(33, 126));
  if (r.chance(.05)) { std::string s; for (int i = r.range(1, 40); i--;) s += (char)(r.below(254) + 1); s.erase(std::remove(s.begin(), s.end(), '\n'), s.end()); return s; }
  return r.pick(P);
}
std::string modes(Rng &r) {
  static const std::vector<std::string> P = {"+o", "-o", "+v", "+b", "-b", "+k", "-k", "+l", "-l", "+nt", "-nt", "+ovb-ovb", "+", "-", "", "o", "+k-k+k", "+lll", "+ooo", "+eI", "+\xff", "+=", "+o-", "nt", "++--oo", "+bk", "+beI"};
  return r.chance(.02) ? "+" + std::string(r.range(1, 600), r.chance(.5) ? 'o' : 'b') : r.pick(P);
}
std::string support(Rng &r) {
  static const std::vector<std::string> P = {"CHANTYPES=#&", "CHANTYPES=", "CHANTYPES", "PREFIX=(ov)@+", "PREFIX=(ohv)@%+", "PREFIX=", "PREFIX", "PREFIX=(ov", "PREFIX=(ov)", "PREFIX=()", "PREFIX=ov@+", "PREFIX=(o)@+%", "PREFIX=(\xff)\xff", "CHANMODES=b,k,l,imnpst", "CHANMODES=", "CHANMODES", "CHANMODES=b", "CHANMODES=,,,", "CHANMODES=beI,k,l,imnpst,x,y", "CHANMODES=\xff,\xfe,\xfd,\xfc", "CASEMAPPING=ascii", "CASEMAPPING=", "CASEMAPPING", "CASEMAPPING=x", "CASEMAPPING=strict-rfc1459", "NETWORK=Evil", "NETWORK=", "NETWORK", "NETWORK=net0", "NETWORK=a/b", "NETWORK=..", "NETWORK=\xff", "NICKLEN=0", "NICKLEN=-1", "NICKLEN", "NICKLEN=x", "TOPICLEN=", "MODES=", "MODES", "CHARSET=utf-8", "CHARSET=", "CHARSET", "CHARSET=nonsense", "CHANLIMIT=#:", "MAXCHANNELS=x", "-PREFIX", "-CHANMODES", "=", "=x", "", "NAMESX", "UHNAMES", "SAFELIST", "WATCH=", "CNOTICE", "KEYLEN", "IRCD=", "STATUSMSG=@+", "STATUSMSG", "PREFIX=(qaohvXYZ)~&@%+!#$", "FNC"};
  return r.pick(P);
}
std::string any(Rng &r, const std::string &me) { switch (r.below(7)) { case 0: case 1: return who(r, me); case 2: case 3: return chan(r); case 4: return text(r); case 5: return modes(r); default: return r.chance(.3) ? support(r) : strf("%d", (int)r.below(2000)); } }
std::string prefix(Rng &r, const std::string &me) {
  switch (r.below(12)) {
  case 0: case 1: case 2: case 3: return ":evil.test ";
  case 4: case 5: return ":" + me + "!u@h ";
  case 6: case 7: return ":bob!u@h ";
  case 8: return ":" + who(r, me) + (r.chance(.6) ? "!u@h " : " ");
  case 9: return r.chance(.3) ? ": " : r.chance(.5) ? ":!u@h " : ":@ ";
  default: return "";
  }
}
// a line that could appear in a real conversation, before it is damaged
Strs sane(Rng &r, const std::string &me) {
  auto C = [&]() { return r.chance(.75) ? std::string("#e1") : chan(r); }; auto N = [&]() { return r.chance(.7) ? (r.chance(.5) ? me : std::string("bob")) : who(r, me); };
  switch (r.below(56)) {
  case 0: case 1: return {":" + me + "!u@h", "JOIN", C()};
  case 2: case 3: return {":bob!u@h", "JOIN", C()};
  case 4: return {":bob!u@h", "PART", C(), text(r)};
  case 5: return {":" + me + "!u@h", "PART", C()};
  case 6: return {":bob!u@h", "QUIT", text(r)};
  case 7: return {":" + me + "!u@h", "QUIT", text(r)};
  case 8: return {":bob!u@h", "KICK", C(), N(), text(r)};
  case 9: case 10: return {":bob!u@h", "MODE", C(), modes(r), N(), N()};
  case 11: return {":" + me, "MODE", me, r.chance(.5) ? "+i" : modes(r)};
  case 12: return {":bob!u@h", "TOPIC", C(), text(r)};
  case 13: return {":" + N() + "!u@h", "NICK", N()};
  case 14: case 15: return {":bob!u@h", "PRIVMSG", r.chance(.5) ? C() : me, text(r)};
  case 16: return {":NickServ!s@services", "NOTICE", me, r.chance(.5) ? "This nickname is registered and protected" : text(r)};
  case 17: return {":bob!u@h", "NOTICE", me, text(r)};
  case 18: return {":evil.test", "353", me, "=", C(), "@bob +carl " + me + " " + text(r)};
  case 19: return {":evil.test", "366", me, C(), "End of /NAMES list."};
  case 20: return {":evil.test", "352", me, C(), "u", "h", "evil.test", N(), "H@", "0 Real Name"};
  case 21: return {":evil.test", "315", me, C(), "End"};
  case 22: return {":evil.test", "324", me, C(), modes(r), "key", "5"};
  case 23: return {":evil.test", "329", me, C(), "1234567"};
  case 24: return {":evil.test", "331", me, C(), "No topic"};
  case 25: return {":evil.test", "332", me, C(), text(r)};
  case 26: return {":evil.test", "333", me, C(), "bob", "123456"};
  case 27: return {":evil.test", r.pick(Strs{"367", "346", "348"}), me, C(), "*!*@" + text(r), "bob", "1234"};
  case 28: return {":evil.test", r.pick(Strs{"368", "347", "349"}), me, C(), "End"};
  case 29: return {":evil.test", "311", me, N(), "u", "h", "*", "real"};
  case 30: return {":evil.test", "319", me, N(), "@#e1 +#e2 " + text(r)};
  case 31: return {":evil.test", "318", me, N(), "End"};
  case 32: return {":evil.test", "301", me, N(), text(r)};
  case 33: return {":evil.test", "302", me, r.chance(.5) ? me + "=+u@h" : text(r)};
  case 34: return {":evil.test", r.pick(Strs{"305", "306", "221", "381", "396", "042"}), me, text(r)};
  case 35: return {":evil.test", r.pick(Strs{"431", "432", "433", "437", "436", "401", "403", "442", "482", "421", "461", "471", "473", "475", "465", "464", "451", "462"}), me, any(r, me), "no"};
  case 36: case 37: { Strs v = {":evil.test", "005", me}; for (int k = r.range(0, 13); k--;) v.push_back(support(r)); v.push_back("are supported"); return v; }
  case 38: return {":evil.test", "001", r.chance(.7) ? me : who(r, me), "Welcome"};
  case 39: return {":evil.test", "004", me, "evil.test", "v1", modes(r), modes(r)};
  case 40: return {":evil.test", r.pick(Strs{"251", "254", "255", "265", "375", "372", "376", "422"}), me, text(r)};
  case 41: return {"PING", text(r)};
  case 42: return {":evil.test", "PONG", "evil.test", text(r)};
  case 43: return {"ERROR", text(r)};
  case 44: return {":bob!u@h", "INVITE", me, C()};
  case 45: return {":bob!u@h", "WALLOPS", text(r)};
  case 46: return {":bob!u@h", "KILL", me, text(r)};
  case 47: return {"NOTICE", "AUTH", text(r)};
  case 48: return {":evil.test", r.pick(Strs{"303", "314", "369", "322", "323", "364", "365", "391", "351", "219"}), me, any(r, me), text(r)};
  case 49: return {"CAP", "*", "LS", text(r)};
  case 50: return {"AUTHENTICATE", "+"};
  case 51: return {":evil.test", "354", me, any(r, me), any(r, me)};
  case 52: return {":evil.test", strf("%03d", (int)r.below(1000)), me, any(r, me), any(r, me)};
  case 53: return {":" + me + "!u@h", "MODE", C(), modes(r), N()};
  case 54: return {":NickServ!s@services", "PRIVMSG", me, text(r)};
  default: return {":evil.test", "010", me, "other.test", "6667", "go there"};
  }
}
std::string clientCmdName(Rng &r) {
  static const std::vector<std::string> P = {"PRIVMSG", "NOTICE", "JOIN", "PART", "MODE", "TOPIC", "NICK", "WHO", "WHOIS", "WHOWAS", "NAMES", "LIST", "AWAY", "PING", "PONG", "QUIT", "USER", "PASS", "MOTD", "VERSION", "STATS", "LINKS", "TIME", "ISON", "USERHOST", "INVITE", "KICK", "KILL", "OPER", "ADMIN", "INFO", "LUSERS", "TRACE", "CONNECT", "SQUIT", "REHASH", "SILENCE", "WATCH", "CAP", "SQUERY", "SUMMON", "USERS", "SERVICE", "ERROR", "privmsg", "XYZZY", "", "42", "001", "433", "CNOTICE", "CPRIVMSG", "MAP", "HELP", "DIE", "RESTART"};
  return r.pick(P);
}
Strs saneClient(Rng &r, const std::string &me) {
  Strs v = {clientCmdName(r)}; int k = r.below(5);
  if ((v[0] == "PRIVMSG" || v[0] == "NOTICE") && r.chance(.8)) return {v[0], r.chance(.5) ? chan(r) : who(r, me), text(r)};
  if (r.chance(.5)) v.push_back(chan(r));
  while (k--) v.push_back(any(r, me));
  return v;
}
std::string join(Rng &r, const Strs &v) {
  std::string s; size_t n = v.size();
  for (size_t i = 0; i < n; i++) { if (i) s += r.chance(.02) ? "  " : " "; if (i + 1 == n && i > 1 && (v[i].empty() || v[i][0] == ':' || v[i].find(' ') != std::string::npos || r.chance(.7))) s += ":"; s += v[i]; }
  return s;
}
std::string line(Rng &r, const std::string &me, bool client) {
  Strs v = client ? saneClient(r, me) : sane(r, me);
  if (r.chance(.5)) {                                // damage it
    int n = r.range(1, 3);
    while (n-- && !v.empty()) {
      size_t k = r.below(v.size());
      switch (r.below(9)) {
      case 0: case 1: v.resize(k + (k == 0)); break;                                  // cut short
      case 2: v.erase(v.begin() + k); break;
      case 3: case 4: v[k] = k == 0 && !client ? prefix(r, me) : any(r, me); break;
      case 5: v.insert(v.begin() + k, any(r, me)); break;
      case 6: if (!v[0].empty() && v[0][0] == ':') v.erase(v.begin()); else v.insert(v.begin(), prefix(r, me)); break;
      case 7: for (int q = r.range(1, 60); q--;) v.push_back(any(r, me)); break;
      default: if (!v[k].empty()) v[k][r.below(v[k].size())] = (char)(1 + r.below(255)); break;
      }
    }
  }
  std::string s = join(r, v); if (r.chance(.01)) s.insert(r.below(s.size() + 1), 1, '\0'); if (r.chance(.02)) s = prefix(r, me); if (r.chance(.01)) s = "";
  std::replace(s.begin(), s.end(), '\n', ' ');
  std::string c = low(s); if (c.find("ctrlproxy") != std::string::npos) s = "x"; // no administration
  // one very long line in tiny pieces only costs time
  const NetCfg &cfg = client ? W.s.cli : W.s.srv; if (s.size() > 400 && cfg.fragMax && cfg.fragMax < 40 && r.chance(.9)) s.resize(400);
  return s + (s.size() > 1500 || r.chance(.93) ? "\r\n" : r.chance(.7) ? "\n" : r.chance(.5) ? "\r\r\n" : "\r");
}
// ---------------------------------------------------------------- servers
struct HServer : Remote {
  Bad *b; Conn *c; std::string buf, nick = "x", user; bool named = false; bool in = false, open = true;
  void onConnected(Conn *) override { Rng r = rng(); stats.add("host.sessions"); if (!b->nice && r.chance(.3)) burst(r, r.range(1, 6)); }
  void onClosed(Conn *, bool) override { open = false; b->in = b->in && b->srv != this; if (b->srv == this) { b->srv = nullptr; b->sc = nullptr; b->in = false; } }
  void say(const std::string &s) { if (g_verbose) tracef("%s> %s", b->host.c_str(), esc(s).c_str()); c->send(s); }
  void burst(Rng &r, int n) { while (n-- && open) { std::string l = line(r, nick, false); stats.add("host.server_lines"); shape("hs" + l.substr(0, l.find(' '))); say(l); } }
  void welcome() {
    in = true; b->in = true;
    say(":evil.test 001 " + nick + " :Welcome\r\n:evil.test 002 " + nick + " :Host\r\n:evil.test 003 " + nick + " :Created\r\n:evil.test 004 " + nick + " evil.test v io bklmnost\r\n:evil.test 005 " + nick + " CHANTYPES=#& PREFIX=(ov)@+ CHANMODES=b,k,l,imnpst CASEMAPPING=rfc1459 :are supported\r\n:evil.test 422 " + nick + " :No MOTD\r\n");
    b->nick = nick;
  }
  void onData(Conn *, const std::string &d) override {
    buf += d; size_t p;
    while ((p = buf.find('\n')) != std::string::npos) {
      std::string raw = buf.substr(0, p); buf.erase(0, p + 1); if (!raw.empty() && raw.back() == '\r') raw.pop_back();
      if (g_verbose) tracef("%s< %s", b->host.c_str(), esc(raw).c_str());
      Line l = parseLine(raw); Rng r = rng();
      if (l.cmd == "NICK") { if (in && !b->nice ? r.chance(.5) : in) say(":" + nick + "!u@h NICK :" + l.arg(0) + "\r\n"); nick = l.arg(0); named = true; b->nick = nick; if (!user.empty() && !in && (b->nice || r.chance(.6))) welcome(); else if (!b->nice) burst(r, r.below(3)); }
      else if (l.cmd == "USER") { user = l.arg(0); if (named && !in && (b->nice || r.chance(.8))) welcome(); else if (!b->nice) burst(r, r.below(4)); }
      else if (l.cmd == "PING") { if (b->nice || r.chance(.9)) say(":evil.test PONG evil.test :" + l.arg(0) + "\r\n"); }
      else if (b->nice) {
        b->heard.insert(raw);
        if (l.cmd == "JOIN") for (auto &x : split(l.arg(0), ',')) say(":" + nick + "!u@h JOIN " + x + "\r\n:evil.test 353 " + nick + " = " + x + " :" + nick + "\r\n:evil.test 366 " + nick + " " + x + " :End\r\n");
        else if (l.cmd == "USERHOST") say(":evil.test 302 " + nick + " :" + nick + "=+u@h\r\n");
        else if (l.cmd == "PRIVMSG" && starts(l.arg(1), "probe")) say(":bob!u@h PRIVMSG " + nick + " :answer " + l.arg(1) + "\r\n");
      } else {
        if (l.cmd == "JOIN" && r.chance(.7)) say(":" + nick + "!u@h JOIN :" + l.arg(0) + "\r\n");
        if (l.cmd == "USERHOST" && r.chance(.5)) say(":evil.test 302 " + nick + " :" + nick + "=+u@h\r\n");
        if (r.chance(.3)) burst(r, r.below(4));
      }
    }
  }
};
// ---------------------------------------------------------------- clients
struct HClient : Remote {
  Conn *c = nullptr; std::string label, me = "mynick"; int kind = 0; bool open = true;
  void onConnected(Conn *) override {}
  void onData(Conn *, const std::string &d) override { if (g_verbose) tracef("%s< %s", label.c_str(), esc(d).c_str()); }
  void onClosed(Conn *, bool) override { open = false; }
  void say(const std::string &s) { if (!open) return; if (g_verbose) tracef("%s> %s", label.c_str(), esc(s).c_str()); c->send(s); }
};
std::vector<HClient *> hcs;
// ---------------------------------------------------------------- a user, once they are gone
struct Prober : Remote {
  Bad *b; Conn *c = nullptr; std::string buf, want; bool welcomed = false, done = false, dead = false; usec born = 0;
  void onConnected(Conn *) override {}
  void onClosed(Conn *, bool) override { dead = true; }
  void onData(Conn *, const std::string &d) override {
    buf += d; size_t p;
    while ((p = buf.find('\n')) != std::string::npos) {
      std::string raw = buf.substr(0, p); buf.erase(0, p + 1); if (!raw.empty() && raw.back() == '\r') raw.pop_back();
      if (g_verbose) tracef("prober/%s< %s", b->host.c_str(), esc(raw).c_str());
      Line l = parseLine(raw); if (l.num() == 1 && !welcomed) { welcomed = true; c->send("PRIVMSG bob :" + want + "\r\n"); }
      std::string end = "answer " + want, got = l.arg(1); if (l.cmd == "PRIVMSG" && got.size() >= end.size() && got.substr(got.size() - end.size()) == end) { done = true; stats.add("chk.served_again"); }
    }
  }
};
std::map<int, Prober *> probers;
Bad *find(const std::string &host) { for (auto b : bads) if (b->host == host) return b; return nullptr; }
}
void hostileInit() {
  for (int i = 0; i < W.s.hostile; i++) { Bad *b = new Bad(); b->id = i; b->host = strf("evil%d.test", i); bads.push_back(b); }
  if (W.s.hostile) { Bad *b = new Bad(); b->id = 90; b->extra = true; b->host = "evilx.test"; bads.push_back(b); }   // reached only when clients ask for it
}
bool hostileDial(const std::string &host, Conn *c, ConnectPlan &p) {
  Bad *b = find(host); if (!b) return false;
  Rng r = rng(); c->cfg = W.s.srv; p.kind = ConnectPlan::ACCEPT; p.delay = 2 * MS;
  if (!b->nice) switch (b->mode) { case 1: p.kind = ConnectPlan::REFUSE; break; case 2: p.kind = ConnectPlan::HANG; break; case 3: p.kind = ConnectPlan::SYNCFAIL; break; case 4: p.kind = ConnectPlan::RESET_AFTER; break; default: break; }
  return true;
}
Remote *hostileServer(const std::string &host, Conn *c) { Bad *b = find(host); if (!b) return nullptr; HServer *s = new HServer(); s->b = b; s->c = c; b->srv = s; b->sc = c; b->in = false; return s; }
bool hostileOp(const Op &o) {
  if (o.k[0] != 'h') return false;
  if (bads.empty() || !proxyUp()) return true;
  Bad *b = bads[(unsigned)o.a % bads.size()]; Rng r(hashn(W.s.seed, 0xbad, o.uid));
  if (o.k == "h.srv") { if (auto *s = dynamic_cast<HServer *>(b->srv)) if (b->sc && s->open && b->sc->st == Conn::ESTAB) { b->nice = false; s->burst(r, r.chance(.1) ? r.range(20, 80) : r.range(1, 10)); } }
  else if (o.k == "h.drop") { if (b->sc && b->sc->st == Conn::ESTAB) { stats.add("fault.hostile_drop"); Conn *c = b->sc; if (r.chance(.3)) c->send(line(r, b->nick, false).substr(0, 9)); b->srv = nullptr; b->sc = nullptr; b->in = false; c->closeRemote(r.chance(.4)); } b->mode = r.chance(.8) ? 0 : r.range(1, 4); b->nice = false; }
  else if (o.k == "h.stall") { if (b->sc) { b->sc->setStall(r.chance(.6)); stats.add("fault.hostile_stall"); } }
  else if (o.k == "h.cli") {
    HClient *h = new HClient(); h->label = strf("hostile%d", ++serial);
    int port = r.chance(.7) && !b->extra ? 6200 + b->id : r.chance(.5) ? 6000 : r.chance(.5) ? 1080 : 6100; NetCfg cfg = W.s.cli; netcfgFor(o, cfg);
    h->c = dialProxy(port, "", h, cfg, h->label, "evil.test"); if (!h->c) { delete h; return true; }
    hcs.push_back(h); stats.add("host.clients"); h->c->abortAccept = r.chance(.04);
    if (port == 1080 || r.chance(.05)) { std::string s; static const std::vector<std::string> P = {"\005\001\002", "\005\002\002\003", "\005", "\004\001", std::string("\005\0", 2), std::string("\005\001\0", 3), std::string("\001\002ab\002cd", 8), std::string("\001\0\0", 3), std::string("\005\001\0\003", 4), std::string("\005\001\0\003\377abc", 8)}; for (int k = r.range(1, 4); k--;) s += r.pick(P); for (int k = r.below(20); k--;) s += (char)r.below(256); h->say(s); h->kind = 1; return true; }
    if (r.chance(.85)) { Strs v = {"NICK " + (r.chance(.7) ? h->me : who(r, h->me)) + "\r\n", "USER u 0 * :Real\r\n"}; if (r.chance(.3)) v[1] = line(r, h->me, true); if (r.chance(.3)) std::swap(v[0], v[1]); if (r.chance(.5)) v[1] = "USER " + r.pick(Strs{"", "u", ":", "a b", "\xff"}) + " 0 * :" + r.pick(Strs{"", "Real", " ", "\xff"}) + "\r\n";
      if (r.chance(.15)) v.push_back("CONNECT " + r.pick(Strs{"evilx.test", "evilx.test 7777", "evil0.test", "nowhere.test", "", ":", "a/b", "evilx.test 0", "evilx.test -1", "evilx.test x", "\xff"}) + "\r\n");
      v.insert(v.begin(), port == 6000 && r.chance(.6) ? "PASS " + W.s.password + ":" + r.pick(Strs{"evilx.test", "evilx.test:7777", "evil0", "evil0.test", "nowhere.test", "", ":", ":::", "a/b", "..", "evilx.test:x", "\xff"}) + "\r\n" : "PASS " + (port != 6000 && r.chance(.93) ? port == 6100 ? std::string("") : std::string("evilpw") : text(r).substr(0, 100)) + "\r\n"); for (auto &x : v) h->say(x); }
    for (int k = r.below(4); k--;) h->say(line(r, h->me, true));
  } else if (o.k == "h.say") {
    std::vector<HClient *> v; for (auto h : hcs) if (h->open) v.push_back(h);
    if (v.empty()) return true; HClient *h = v[r.below(v.size())];
    for (int k = r.chance(.05) ? r.range(20, 60) : r.range(1, 6); k--;) { std::string l = line(r, h->me, true); stats.add("host.client_lines"); shape("hc" + l.substr(0, l.find(' '))); h->say(l); }
  } else if (o.k == "h.hangup") {
    std::vector<HClient *> v; for (auto h : hcs) if (h->open) v.push_back(h);
    if (v.empty()) return true; HClient *h = v[r.below(v.size())];
    if (r.chance(.3)) h->say("PRIVMSG #e1 :cut o"); h->open = false; h->c->closeRemote(r.chance(.4)); stats.add("fault.hostile_hangup");
  }
  return true;
}
// everything is fine again: drop the hostile peers and let a user try
void hostileHeal() {
  if (bads.empty()) return;
  healing = true;
  for (auto h : hcs) if (h->open) { h->open = false; h->c->closeRemote(true); }
  hcs.clear();
  for (auto b : bads) { b->nice = true; b->mode = 0; b->heard.clear(); if (b->sc && b->sc->st == Conn::ESTAB) { Conn *c = b->sc; b->srv = nullptr; b->sc = nullptr; b->in = false; c->setStall(false); c->closeRemote(true); } }
  for (auto &p : probers) if (!p.second->dead) p.second->c->closeRemote(true);
  probers.clear();
}
bool hostileServed(std::string *why) {
  if (bads.empty() || !healing) return true;
  bool all = true;
  for (auto b : bads) {
    if (b->extra) continue;
    Prober *p = probers.count(b->id) ? probers[b->id] : nullptr;
    if (p && p->done) continue;
    all = false; if (why) *why = strf("P01.unserved|network evil%d does not serve a user after the hostile peers have gone: %s", b->id, !b->in ? "it is not logged in" : !p ? "nobody can connect" : p->dead ? "the user was disconnected" : !p->welcomed ? "the user is not welcomed" : "the user's message gets no answer");
    if (!b->in || !listening(6200 + b->id, "")) continue;
    if (p && (p->dead || K.now - p->born > 30 * SEC)) { if (!p->dead) p->c->closeRemote(false); p = nullptr; probers.erase(b->id); }
    if (!p) {
      p = new Prober(); p->b = b; p->born = K.now; p->want = strf("probe%d", ++serial); NetCfg cfg;
      p->c = dialProxy(6200 + b->id, "", p, cfg, "prober", "good.test"); if (!p->c) { delete p; continue; }
      probers[b->id] = p; p->c->send("PASS evilpw\r\nNICK mynick\r\nUSER u 0 * :Real\r\n");
    }
  }
  if (all) { for (auto &p : probers) if (!p.second->dead) { p.second->c->send("QUIT\r\n"); p.second->c->closeRemote(false); } probers.clear(); healing = false; }
  return all;
}
void hostileDown() { for (auto b : bads) { b->srv = nullptr; b->sc = nullptr; b->in = false; } for (auto h : hcs) h->open = false; hcs.clear(); probers.clear(); }
