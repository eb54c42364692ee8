// Scenario generation: what a (profile, seed) pair means.
#include "world.h"
#include <algorithm>
struct W8 { const char *k; double w; };
typedef std::vector<std::pair<std::string, double>> Weights;
struct Gen {
  Scn s; Rng r; int uid = 0; Weights w; double gapShort = 0.7; int slots = 4;
  Gen(const std::string &p, uint64_t seed) : r(hashn(seed, hstr(p))) { s.profile = p; s.seed = seed; }
  usec gap() {
    double x = r.below(1000) / 1000.0;
    if (x < 0.25) return 0;
    if (x < gapShort) return (usec)r.below(20 * MS);
    if (x < 0.95) return (usec)r.below(400 * MS);
    return (usec)r.below(3 * SEC);
  }
  Op &op(const std::string &k, int a = 0, int b = 0, int c = 0, int d = 0) {
    Op o; o.uid = ++uid; o.k = k; o.a = a; o.b = b; o.c = c; o.d = d; o.gap = gap(); s.ops.push_back(o); return s.ops.back();
  }
  int rnd() { return (int)r.below(100000); }
  void add(std::initializer_list<W8> l) { for (auto &x : l) w.push_back({x.k, x.w}); }
  // leave out some kinds of operation in each run, and favour some
  void swarm() { for (auto &x : w) { if (r.chance(0.2)) x.second = 0; else if (r.chance(0.15)) x.second *= 4; } }
  void one() {
    double t = 0; for (auto &x : w) t += x.second;
    if (t <= 0) { op("t.sleep", 10); return; }
    double y = (r.next() >> 11) * (1.0 / 9007199254740992.0) * t;
    for (auto &x : w) { y -= x.second; if (y <= 0) { emit(x.first); return; } }
    emit(w.back().first);
  }
  void emit(const std::string &k) {
    if (k[0] == 'c' && k[1] == '.') { op(k, r.below(slots), rnd(), rnd(), rnd()); return; }
    if (k == "n.set") { int m[] = {0, 1, 2, 3, 4, 5, 6, 7, 1, 5}; op(k, r.below(s.nets.size()), rnd(), m[r.below(10)], 0); return; }
    if (k == "t.sleep") { op(k, 1 + r.below(2000)); return; }
    if (k == "p.save") { if (r.chance(0.7)) op("q.quiet"); op("p.usr1"); if (r.chance(0.5)) op("q.quiet"); return; }
    if (k == "p.storefault") { op(k, 0, rnd(), rnd(), rnd()); return; }
    if (k == "p.storeheal") { op(k); return; }
    if (k == "p.badsave") { op("q.quiet"); op("p.savefault", 0, rnd(), rnd(), rnd()).gap = 0; if (r.chance(0.75)) op("p.usr1").gap = 0; else op("p.term", 1 + r.below(3000)).gap = 0; op("t.sleep", 700); if (r.chance(0.8)) op("q.recover"); return; }
    if (k == "p.crash" || k == "p.term") { op(k, 1 + r.below(3000), s.shutdown ? rnd() : 0); return; }
    if (k == "p.hup" || k == "p.logfault" || k == "p.logheal") { op(k, 0, rnd(), rnd(), rnd()); return; }
    if (k == "p.die" || k == "p.lurk") { op(k, 1 + r.below(3000), rnd(), rnd()); return; }
    if (k == "q.quiet") { op(k); return; }
    if (k == "q.recover") { op(k, r.chance(0.4) ? 1 + r.below(60) : 0); return; }
    op(k, r.below(s.nets.size()), rnd(), rnd(), rnd());
  }
  void nets(int lo, int hi, int srvMax = 2) {
    int n = r.range(lo, hi);
    static const char *CH[] = {"#alpha", "#Beta", "#gam-ma", "&local", "#x[y]"};
    for (int i = 0; i < n; i++) {
      NetDef d; d.name = strf("net%d", i);
      int sv = r.range(1, srvMax);
      for (int k = 0; k < sv; k++) { SrvDef v; v.host = strf("s%d%c.test", i, 'a' + k); v.port = r.chance(0.7) ? 6667 : 7000 + k; if (r.chance(0.3)) v.pass = strf("spw%d%d", i, k); d.servers.push_back(v); }
      if (r.chance(0.5)) d.reconnect = r.range(1, 30);
      d.nick = r.chance(0.8) ? "mynick" : r.chance(0.6) ? strf("nick%d", i) : strf("averylongnick%d", i);
      if (r.chance(0.3)) { d.username = strf("us%d", i); d.fullname = strf("Full Name %d", i); }
      int nc = r.range(0, 3); std::vector<int> used;
      for (int k = 0; k < nc; k++) { int c = r.below(4); if (std::find(used.begin(), used.end(), c) != used.end()) continue; used.push_back(c); ChanDef cd; cd.name = CH[c]; if (r.chance(0.3)) cd.key = strf("key%d%d", i, c); cd.autojoin = r.chance(0.9); d.chans.push_back(cd); }
      if (r.chance(0.4)) { int na = r.range(1, 2); for (int k = 0; k < na; k++) d.autocmd.push_back(strf("PRIVMSG Q :auto%d net%d", k, i)); }
      s.nets.push_back(d);
    }
  }
  void net(NetCfg &c) {
    if (r.chance(0.4)) { c.latMin = 1 * MS; c.latMax = r.chance(0.5) ? 40 * MS : 400 * MS; }
    if (r.chance(0.3)) { c.fragMin = 1; c.fragMax = r.chance(0.5) ? 6 : 80; }
    if (r.chance(0.2)) c.maxRead = r.range(1, 60);
    if (r.chance(0.15)) c.maxWrite = r.range(1, 80);
    if (r.chance(0.2)) c.sndcap = r.range(40, 900);
    if (r.chance(0.15)) { c.fragMin = 8; c.fragMax = 70; c.gap = r.range(1, 15) * MS; }
  }
  void crowd(double p) { if (r.chance(p)) s.crowd = r.range(20, 150); }
  void base(int nlo, int nhi, int srvMax = 2) {
    nets(nlo, nhi, srvMax);
    Rng q(hashn(s.seed, 4711));
    static const std::set<std::string> plain = {"save", "nickserv", "admin", "hostile"};
    if (!plain.count(s.profile)) for (auto &d : s.nets) {          // what the network says about itself
      if (q.chance(.4)) d.prefixes = q.chance(.7) ? "(ohv)@%+" : "(qaohv)~&@%+";
      if (q.chance(.3)) d.chantypes = q.chance(.5) ? "#&+" : "&#!+";
      if (q.chance(.4)) d.casemap = q.chance(.6) ? "ascii" : "strict-rfc1459";
      if (q.chance(.4)) d.isupport2 = true;
    }
    net(s.cli); net(s.srv);
    s.lazy = r.chance(0.3) ? 0 : r.chance(0.5) ? 0.3 : 0.7;
    if (r.chance(0.3)) s.welcomeSpread = r.range(1, 40) / 10.0;
  }
  // everybody in
  void begin(int clients, bool wait = true) {
    if (wait) { Op &o = op("t.sleep", 50 + r.below(2000)); o.gap = 0; if (r.chance(0.7)) op("q.quiet"); }
    for (int i = 0; i < clients; i++) op("c.attach", i, r.below(s.nets.size()), rnd(), rnd());
    if (r.chance(0.7)) op("q.quiet");
  }
  void body(int nlo, int nhi, int quietEvery, const char *last = "q.quiet") {
    int n = r.range(nlo, nhi), next = 3 + r.below(quietEvery);
    for (int i = 0; i < n; i++) {
      one();
      if (--next <= 0) { emit(last[2] == 'r' && r.chance(0.5) ? last : "q.quiet"); next = 3 + r.below(quietEvery); }
    }
    op(last);
  }
  void relayOps() { add({{"s.say", 6}, {"s.snoticechan", 1}, {"s.action", 1}, {"s.priv", 3}, {"s.burst", 1}, {"s.notice", 1}, {"s.invite", .5}, {"s.wallops", .5}, {"s.unknown", .5}, {"s.ping", 1}}); }
  void stateOps(double f = 1) { add({{"s.join", 3 * f}, {"s.part", 2 * f}, {"s.quit", 1 * f}, {"s.kick", 1 * f}, {"s.kickme", .7 * f}, {"s.nick", 2 * f}, {"s.forcenick", .6 * f}, {"s.forcejoin", 1 * f}, {"s.forcepart", .7 * f}, {"s.mode", 3 * f}, {"s.opme", 1.2 * f}, {"s.cmode", 2.5 * f}, {"s.modes", 2 * f}, {"s.topic", 2 * f}}); }
  void sayOps() { add({{"c.say", 6}, {"c.msg", 2}, {"c.notice", 1.5}, {"c.action", 1}, {"c.burst", .7}}); }
  void cmdOps(double f = 1) { add({{"c.join", 1.5 * f}, {"c.joinnew", .7 * f}, {"c.part", 1 * f}, {"c.nick", 1 * f}, {"c.topic", 1 * f}, {"c.mode", 1.5 * f}, {"c.kick", .7 * f}, {"c.invite", .5 * f}, {"c.away", .5 * f}, {"c.ping", 1 * f}, {"c.empty", .3 * f}}); }
  void queryOps(double f = 1) { add({{"c.whois", 3 * f}, {"c.query", 8 * f}, {"c.err", 2 * f}, {"c.who", 1 * f}, {"c.whox", 1 * f}, {"c.whoisme", .7 * f}, {"s.num", 1.5 * f}}); }
  void cacheOps(double f = 1) { add({{"c.names", 3 * f}, {"c.topicq", 3 * f}, {"c.modeq", 3 * f}, {"c.bans", 3 * f}, {"c.who", 3 * f}}); }
  void comeAndGo(double f = 1) { add({{"c.attach", 3 * f}, {"c.detach", 2 * f}}); }
};
typedef void (*ProfFn)(Gen &);
static const std::vector<std::pair<std::string, ProfFn>> &table() {
  static const std::vector<std::pair<std::string, ProfFn>> t = {
    {"relay", [](Gen &g) { g.base(1, 2); g.relayOps(); g.stateOps(.5); g.sayOps(); g.cmdOps(.5); g.comeAndGo(.5); g.add({{"c.stall", .5}, {"c.unstall", .5}}); g.swarm(); g.begin(g.r.range(1, 4)); g.body(15, 90, 25); }},
    {"wire", [](Gen &g) { g.base(1, 1); g.sayOps(); g.cmdOps(); g.queryOps(.4); g.comeAndGo(.4); g.relayOps(); g.add({{"s.stall", 1.5}, {"s.unstall", 1.5}, {"c.burst", 2}}); if (g.r.chance(0.6)) g.s.srv.sndcap = g.r.range(40, 2000); g.swarm(); g.begin(g.r.range(1, 4)); g.body(15, 90, 25); }},
    {"query", [](Gen &g) { g.base(1, 2); g.queryOps(); g.sayOps(); g.cmdOps(.6); g.relayOps(); g.stateOps(.3); g.comeAndGo(.7); g.swarm(); g.slots = 5; g.begin(g.r.range(2, 5)); g.body(20, 90, 25); }},
    {"state", [](Gen &g) { g.crowd(.25); g.base(1, 2); g.stateOps(2); g.relayOps(); g.cmdOps(1.2); g.sayOps(); g.comeAndGo(2); g.swarm(); g.begin(g.r.range(0, 3), g.r.chance(0.7)); g.body(15, 100, 20); }},
    {"cache", [](Gen &g) { g.crowd(.25); g.base(1, 2); if (g.r.chance(.5)) g.s.global.push_back({"max-who-age", strf("%d", g.r.chance(.5) ? g.r.range(1, 8) : g.r.range(10, 200))}); g.stateOps(1.2); g.cacheOps(2); g.cmdOps(.7); g.comeAndGo(.4); g.swarm(); g.begin(g.r.range(1, 4)); g.body(15, 90, 15); }},
    {"slow", [](Gen &g) { g.base(1, 3); g.relayOps(); g.sayOps(); g.queryOps(.5); g.stateOps(.4); g.comeAndGo(2); g.add({{"c.stall", 4}, {"c.unstall", 2}, {"s.burst", 2}, {"t.sleep", 1}}); if (g.r.chance(0.6)) g.s.cli.sndcap = g.r.range(40, 4000); g.swarm(); g.slots = 5; g.begin(g.r.range(2, 5)); g.body(20, 90, 30); }},
    {"login", [](Gen &g) { g.base(1, 2, 3); g.s.welcomeSpread = g.r.chance(0.6) ? g.r.range(1, 80) / 10.0 : 0; g.add({{"s.ghost", 2}, {"s.close", 3}, {"s.ping", 2}, {"c.nick", 1}, {"c.join", 1}, {"s.forcejoin", 1}, {"s.forcepart", 1}, {"c.part", 1}, {"s.cmode", 1}, {"t.sleep", 2}}); g.comeAndGo(1.5); g.sayOps(); g.swarm(); if (g.r.chance(0.5)) g.op("s.ghost", 0, 0, 0, g.rnd()).gap = 0; g.begin(g.r.range(0, 2), false); g.body(5, 40, 12, "q.recover"); }},
    {"reconn", [](Gen &g) { g.base(1, 2, 3); g.add({{"n.set", 6}, {"s.close", 4}, {"s.error", 1}, {"s.killme", 1}, {"s.silent", .5}, {"n.heal", 1}, {"t.sleep", 3}, {"s.ghost", .5}, {"s.stall", .5}, {"k.sock", 1.5}}); g.comeAndGo(1); g.sayOps(); g.relayOps(); g.swarm(); for (size_t i = 0; i < g.s.nets.size(); i++) if (g.r.chance(0.5)) { Op &o = g.op("n.set", i, g.rnd(), 1 + g.r.below(7)); o.gap = 0; } g.begin(g.r.range(0, 2), g.r.chance(0.5)); g.body(5, 40, 14, "q.recover"); }},
    {"ping", [](Gen &g) { g.base(1, 2); g.add({{"s.ping", 6}, {"c.ping", 5}, {"s.silent", 1}, {"s.priv", 1}, {"s.say", 1}}); g.comeAndGo(.5); g.swarm(); g.begin(g.r.range(1, 3)); int n = g.r.range(5, 30); for (int i = 0; i < n; i++) { g.one(); if (g.r.chance(0.3)) g.op("t.sleep", 1000 * g.r.range(20, 400)); if (g.r.chance(0.15)) g.op("q.recover"); } g.op("q.recover"); }},
    {"split", [](Gen &g) { g.crowd(.25); g.base(1, 2, 2); g.relayOps(); g.sayOps(); g.stateOps(1); g.cmdOps(.5); g.comeAndGo(.7); g.add({{"s.close", 4}, {"s.error", 1}, {"s.killme", .7}, {"t.sleep", 1.5}, {"n.set", .6}}); g.swarm(); g.begin(g.r.range(1, 4)); g.body(15, 70, 15, "q.recover"); }},
    {"hostile", [](Gen &g) { Rng &r = g.r; g.base(1, 2, 1); g.s.hostile = r.range(1, 2); auto &G = g.s.global; static const char *M[] = {"simple", "lastdisconnect", "highlight"};
      for (auto &d : g.s.nets) d.autocmd.clear();
      if (r.chance(.5)) { g.s.replication = M[r.below(3)]; if (g.s.replication == "highlight") { g.s.match = {"hello", "e"}; } if (r.chance(.4)) g.s.reportTime = r.chance(.7) ? "always" : "replication"; if (r.chance(.6)) g.s.dumpInterval = r.range(1, 30); }
      int lg = r.below(3); if (lg == 1) G.push_back({"logging", "irssi"}); if (lg == 2) { G.push_back({"logging", "custom"}); G.push_back({"logfilename", r.chance(.5) ? "cfg/lg/%N/%@" : "cfg/lg/%n%u%S%@"}); for (auto k : {"msg", "notice", "action", "join", "part", "kick", "quit", "topic", "notopic", "mode", "nickchange"}) if (r.chance(.8)) G.push_back({std::string("log-format-") + k, "%h %n %u %N %S %c %m %t %r %p %0 %1 %2 %3 %9 %%"}); }
      if (r.chance(.2)) G.push_back({"learn-network-name", "true"}); if (r.chance(.2)) G.push_back({"learn-nickserv", "false"}); if (r.chance(.3)) G.push_back({"max-who-age", "20"});
      if (r.chance(.3)) G.push_back({"create-implicit", "true"}); if (r.chance(.4)) { G.push_back({"admin-user", "root"}); G.push_back({"admin-log", "true"}); } if (r.chance(.3)) g.s.groups.push_back({"socks", "allow=anna:apw;\n"});
      g.relayOps(); g.stateOps(.4); g.sayOps(); g.comeAndGo(.7); g.add({{"h.srv", 16}, {"h.drop", 1}, {"h.stall", .3}, {"h.cli", 5}, {"h.say", 10}, {"h.hangup", 1.5}, {"p.usr1", .5}, {"k.sock", .5}, {"t.sleep", 1}}); if (r.chance(.4)) g.add({{"p.term", .3}, {"q.recover", .3}});
      g.swarm(); g.slots = 3; g.begin(r.range(0, 2)); g.body(20, 120, 40, "q.recover"); }},
    {"logs", [](Gen &g) { Rng &r = g.r; g.crowd(.1); g.base(1, 3, 2); auto &G = g.s.global; auto &F = g.s.logFmt; std::string &file = g.s.logFile; bool bad = r.chance(.3);
      if (r.chance(.5)) {
        G.push_back({"logging", "irssi"});
        F = {{"join", "%h:%M -!- %n [%u] has joined %c"}, {"part", "%h:%M -!- %n [%u] has left %c [%m]"}, {"msg", "%h:%M < %n> %m"}, {"notice", "%h:%M < %n> %m"}, {"action", "%h:%M  * %n %m"}, {"mode", "%h:%M -!- mode/%t [%p %c] by %n"}, {"quit", "%h:%M -!- %n [%u] has quit [%m]"}, {"kick", "%h:%M -!- %t has been kicked by %n [%r]"}, {"topic", "%h:%M -!- %n has changed the topic to %t"}, {"notopic", "%h:%M -!- %n has removed the topic"}, {"nickchange", "%h:%M -!- %n is now known as %r"}};
        switch (r.below(3)) { case 0: file = "cfg/log_irssi/%N/%@"; break; case 1: file = "cfg/mylogs/%N/%@"; G.push_back({"logdir", "cfg/mylogs"}); break; default: file = "cfg/lg/%@-%N.log"; G.push_back({"logfile", file}); }
      } else {
        static const char *P[] = {"cfg/lg/%N/%@.log", "cfg/lg/all", "cfg/lg/%N.log", "cfg/lg/%Y%B/%@@%N", "cfg/lg/%@", "cfg/lg/%S/%@"}; file = P[r.below(6)];
        G.push_back({"logging", "custom"}); G.push_back({"logfilename", file});
        static const char *T[] = {"", "%e ", "[%h:%M:%s] ", "%Y-%B-%d ", "%b %d ", "%N ", "100%% ", "%@| "};
        auto put = [&](const char *k, std::initializer_list<const char *> v) { if (r.chance(.12)) return; std::string t = T[r.below(8)]; if ((!strcmp(k, "quit") || !strcmp(k, "nickchange")) && t == "%@| ") t = ""; auto it = v.begin(); std::advance(it, r.below(v.size())); F[k] = t + *it; G.push_back({std::string("log-format-") + k, F[k]}); };
        put("join", {"JOIN %n %u %c", "%n joins %c on %S"}); put("part", {"PART %n %c: %m", "%n leaves %c (%m)"}); put("msg", {"<%n> %m", "<%n@%t> %m", "%0 %1 %2"}); put("notice", {"-%n- %m", "%n->%t: %m"}); put("action", {"* %n %m", "%n/%t %m"}); put("mode", {"MODE %t %p %c by %n", "%n sets %1 %2 %3"});
        put("quit", {"QUIT %n %u %m", "QUIT %n (%m)"}); put("kick", {"KICK %c %t by %n: %r"}); put("topic", {"TOPIC %c %t by %n"}); put("notopic", {"NOTOPIC %c by %n"}); put("nickchange", {"NICK %n %r", "%n is %r"});
      }
      g.relayOps(); g.sayOps(); g.stateOps(1.5); g.queryOps(.2); g.cmdOps(.7); g.comeAndGo(.6);
      g.add({{"s.close", .6}, {"s.error", .2}, {"p.hup", 2}, {"t.sleep", 1.5}, {"p.crash", .3}, {"p.term", .3}, {"s.stall", .4}, {"c.stall", .3}}); if (bad) g.add({{"p.logfault", 2}, {"p.logheal", 2}, {"p.hup", 3}});
      g.swarm(); g.slots = 4; g.begin(r.range(1, 4)); g.body(15, 90, 12, "q.recover"); }},
    {"shutdown", [](Gen &g) { g.s.shutdown = true; g.base(1, 3, 3); g.s.autosave = g.r.chance(.6); g.relayOps(); g.sayOps(); g.stateOps(.5); g.queryOps(.4); g.cmdOps(.5); g.comeAndGo(2);
      g.add({{"p.term", 4}, {"p.die", 5}, {"p.lurk", 1.5}, {"p.save", 1}, {"s.close", 1}, {"s.error", .4}, {"n.set", 2}, {"n.heal", 1}, {"s.stall", 1.5}, {"c.stall", 1.5}, {"c.unstall", .7}, {"s.silent", .5}, {"s.ghost", .4}, {"t.sleep", 2}});
      if (g.r.chance(.4)) g.s.cli.sndcap = g.r.range(200, 8000); g.swarm(); for (auto &x : g.w) if (x.first == "p.die" && x.second == 0) x.second = 2; g.slots = 5; g.begin(g.r.range(0, 4)); g.body(10, 60, 8, "q.recover"); }},
    {"multi", [](Gen &g) { g.base(3, 4, 2); g.relayOps(); g.sayOps(); g.stateOps(.5); g.queryOps(.5); g.cmdOps(.4); g.comeAndGo(.7); g.add({{"s.close", 1}, {"n.set", 1.5}, {"s.stall", 1}, {"c.stall", 1}, {"s.silent", .3}, {"n.heal", .5}}); g.swarm(); g.slots = 6; g.begin(g.r.range(2, 6)); g.body(20, 90, 25, "q.recover"); }},
    {"ctcp", [](Gen &g) { g.base(1, 2, 1); g.add({{"s.ctcp", 9}, {"c.ctcp", 4}, {"s.priv", 1}, {"s.nick", 1}, {"s.action", .5}, {"s.close", .2}, {"c.nick", .3}}); g.comeAndGo(1.2); g.sayOps(); g.swarm(); g.slots = 3; g.begin(g.r.range(0, 2)); g.body(10, 60, 6); }},
    {"away", [](Gen &g) { g.base(1, 2, 1); g.s.autoAway = true; g.s.global.push_back({"auto-away-enable", "true"}); if (g.r.chance(0.7)) g.s.global.push_back({"auto-away-message", "I am gone now"}); if (g.r.chance(0.3)) g.s.global.push_back({"auto-away-nick", "gonenick"});
      if (g.r.chance(0.75)) g.s.global.push_back({"auto-away-client-limit", strf("%d", g.r.range(-1, 2))}); int T = g.r.chance(0.85) ? g.r.range(30, 90) : 600; if (T != 600) g.s.global.push_back({"auto-away-time", strf("%d", T)});
      g.add({{"c.say", 2}, {"c.msg", 1}, {"c.notice", 1}, {"c.away", 2}, {"s.say", 1}, {"s.close", .3}, {"c.topicq", .5}, {"c.join", .3}}); g.comeAndGo(2); g.swarm(); g.slots = 3; g.begin(g.r.range(0, 2)); int n = g.r.range(5, 30);
      for (int i = 0; i < n; i++) { g.one(); if (g.r.chance(0.4)) g.op("t.sleep", 1000 * g.r.range(3, T + 30)); if (g.r.chance(0.3)) g.op("q.recover"); } g.op("q.recover"); }},
    {"nickserv", [](Gen &g) { g.base(1, 3, 1); g.s.learnNickserv = true; g.s.autosave = g.r.chance(0.5); if (g.r.chance(0.15)) g.s.global.push_back({"learn-nickserv", "false"});
      if (g.r.chance(0.6)) { std::string f = "# passwords\n#\n"; static const char *N[] = {"mynick", "nova", "zed[1]", "ZED{1}", "nick0", "nick1"}; int k = g.r.range(1, 5); for (int i = 0; i < k; i++) f += strf("%s\tfilepw%d\t%s\n", N[g.r.below(6)], i, g.r.chance(0.4) ? "*" : strf("net%d", (int)g.r.below(3)).c_str()); g.s.files.push_back({"nickserv", f}); }
      g.add({{"c.nsid", 6}, {"c.nsnick", 4}, {"c.nick", 1}, {"s.nsmode", .5}, {"s.forcenick", 1}, {"s.nick", 1}, {"s.close", 2}, {"p.save", 1}, {"p.crash", .7}, {"p.term", .5}, {"s.ghost", .5}, {"t.sleep", 1}}); g.comeAndGo(1.5); g.swarm(); g.slots = 4; g.begin(g.r.range(1, 4)); g.body(10, 60, 6, "q.recover"); }},
    {"replay", [](Gen &g) { g.crowd(.1); g.base(1, 2, 1); static const char *M[] = {"simple", "lastdisconnect", "simple", "lastdisconnect", "highlight"}; g.s.replication = M[g.r.below(5)]; for (auto &d : g.s.nets) d.autocmd.clear();
      if (g.r.chance(.6)) g.s.dumpInterval = g.r.chance(.5) ? g.r.range(1, 5) : g.r.range(6, 60); if (g.s.replication == "highlight") { g.s.match.push_back("hello"); if (g.r.chance(.5)) g.s.match.push_back("bold"); if (g.r.chance(.3)) g.s.match.push_back("dances"); if (g.r.chance(.4)) g.s.match.push_back("world"); if (g.r.chance(.3)) g.s.match.insert(g.s.match.begin(), "lo wo"); }
      if (g.r.chance(.3)) g.s.reportTime = g.r.chance(.5) ? "always" : "replication"; if (g.r.chance(.2)) g.s.global.push_back({"report-time-offset", strf("%d", g.r.range(-7200, 7200))});
      g.relayOps(); g.sayOps(); g.stateOps(.5); g.add({{"s.close", .7}, {"s.burst", 2}, {"c.nick", .4}, {"c.ctcp", .4}, {"s.ctcp", .7}, {"c.stall", .4}, {"c.unstall", .4}, {"c.join", .5}, {"c.part", .4}, {"t.sleep", .5}, {"c.topic", .3}, {"c.mode", .3}}); if (g.r.chance(.12)) g.add({{"s.flood", .7}}); if (g.r.chance(.03)) g.add({{"s.flood", 4}}); g.comeAndGo(3); g.swarm(); g.slots = g.r.range(2, 4); g.begin(g.r.range(0, 2), g.r.chance(.7)); g.body(15, 80, 20, "q.recover"); }},
    {"storefail", [](Gen &g) { g.crowd(.1); g.base(1, 2, 1); g.s.hostileDisk = true; static const char *M[] = {"simple", "lastdisconnect", "simple", "lastdisconnect", "highlight"}; g.s.replication = M[g.r.below(5)]; for (auto &d : g.s.nets) d.autocmd.clear();
      if (g.r.chance(.6)) g.s.dumpInterval = g.r.chance(.5) ? g.r.range(1, 5) : g.r.range(6, 60); if (g.s.replication == "highlight") { g.s.match.push_back("hello"); if (g.r.chance(.5)) g.s.match.push_back("bold"); if (g.r.chance(.3)) g.s.match.push_back("dances"); if (g.r.chance(.4)) g.s.match.push_back("world"); if (g.r.chance(.3)) g.s.match.insert(g.s.match.begin(), "lo wo"); }
      if (g.r.chance(.3)) g.s.reportTime = g.r.chance(.5) ? "always" : "replication"; if (g.r.chance(.2)) g.s.global.push_back({"report-time-offset", strf("%d", g.r.range(-7200, 7200))});
      g.relayOps(); g.sayOps(); g.stateOps(.5); g.add({{"s.close", 1}, {"s.burst", 2}, {"c.nick", .4}, {"c.ctcp", .4}, {"s.ctcp", .7}, {"c.stall", .4}, {"c.unstall", .4}, {"c.join", .5}, {"c.part", .4}, {"t.sleep", .5}, {"c.topic", .3}, {"c.mode", .3}}); if (g.r.chance(.12)) g.add({{"s.flood", .7}}); g.comeAndGo(3); g.swarm(); g.add({{"p.storefault", 2.5}, {"p.storeheal", 1}}); g.slots = g.r.range(2, 4); if (g.r.chance(.2)) g.emit("p.storefault"); g.begin(g.r.range(0, 2), g.r.chance(.7)); g.body(15, 80, 20, "q.recover"); g.emit("p.storeheal"); g.emit("c.attach"); g.op("q.recover"); }},
    {"auth", [](Gen &g) { Rng &r = g.r; g.base(1, 3, 1); g.s.auth = true; g.s.autosave = r.chance(.5); static const char *P[] = {"sesame", "open", "s", "Two words", "other", "sesame2"};
      for (size_t i = 0; i < g.s.nets.size(); i++) if (i && r.chance(.5)) g.s.nets[i].autoconnect = false;
      if (r.chance(.7)) for (size_t i = 0; i < g.s.nets.size(); i++) g.s.lpass.push_back(r.chance(.3) ? "" : P[r.below(6)]);
      if (r.chance(.5)) g.s.global.push_back({"password", r.chance(.5) ? "glob" : "sesame3"});
      if (r.chance(.6)) { std::string a; int k = r.range(1, 3); static const char *U[] = {"anna", "bert", "Anna"}; static const char *Q[] = {"apw", "bpw", "a:b"}; for (int i = 0; i < k; i++) { a += std::string(U[i]) + ":" + Q[i] + ";"; g.s.socks.push_back({U[i], Q[i]}); } if (r.chance(.2)) a += "nopass;"; g.s.groups.push_back({"socks", "allow=" + a + "\n"}); }
      if (r.chance(.3)) g.s.global.push_back({"create-implicit", "false"});
      g.add({{"n.intrude", 12}, {"c.authin", 5}, {"c.detach", 3}, {"c.attach", 1}, {"s.close", .4}, {"c.stall", .2}, {"p.save", .7}, {"p.term", .5}, {"p.crash", .4}, {"t.sleep", 1}}); g.relayOps(); g.sayOps(); g.stateOps(.2); g.queryOps(.2); g.swarm(); g.slots = 5; g.begin(r.range(0, 2)); g.body(15, 70, 12, "q.recover"); }},
    {"admin", [](Gen &g) { Rng &r = g.r; g.base(1, 2, 2); g.s.admin = true; auto &G = g.s.global; G.push_back({"default-nick", "mynick"}); G.push_back({"default-username", "myuser"}); G.push_back({"default-fullname", "My Name"}); G.push_back({"admin-log", "false"});
      auto add = [&](double p, const char *k, const std::string &v) { if (r.chance(p)) G.push_back({k, v}); };
      add(.3, "auto-away-message", "gone"); add(.2, "auto-away-client-limit", "2"); add(.2, "max-who-age", "77"); add(.2, "report-time-offset", "60"); add(.2, "motd-file", "cfg/motd1"); G.push_back({"create-implicit", "false"}); G.push_back({"auto-away-enable", "false"}); if (r.chance(.6)) g.s.adminUser = "proxyadm";
      int have = g.s.nets.size(), k = r.range(1, 2); for (int i = 0; i < k; i++) { NetDef d; d.name = strf("net%d", have + i); d.absent = d.bare = true; d.autoconnect = false; int sv = r.range(1, 2); for (int j = 0; j < sv; j++) { SrvDef v; v.host = strf("s%d%c.test", have + i, 'a' + j); d.servers.push_back(v); } g.s.nets.push_back(d); }
      g.s.files.push_back({"networks/ctrl", "[global]\nvirtual=admin\n"}); g.s.files.push_back({"motd1", "hello\n"}); g.s.files.push_back({"motd2", "there\n"});
      g.add({{"c.admin", 20}, {"c.adminin", 1}, {"c.attach", 2}, {"c.detach", .7}, {"c.say", 1}, {"s.say", 1}, {"s.forcejoin", .5}, {"s.join", .5}, {"s.close", .7}, {"n.set", .4}, {"t.sleep", 1}}); g.swarm(); g.slots = 4; g.begin(r.range(0, 3)); g.body(10, 60, 10, "q.recover"); }},
    {"save", [](Gen &g) { Rng &r = g.r; g.base(1, 3, 2); g.s.checkSave = true; g.s.autosave = r.chance(0.5);
      auto &G = g.s.global; auto add = [&](double p, const char *k, const std::string &v) { if (r.chance(p)) G.push_back({k, v}); };
      bool dn = r.chance(0.4); if (dn) { G.push_back({"default-nick", "mynick"}); G.push_back({"default-fullname", "Default Name"}); G.push_back({"default-username", "defuser"}); }
      for (auto &d : g.s.nets) { d.style = r.below(3); d.inMain = r.chance(0.3); d.autoconnect = r.chance(0.9); if (d.inMain && d.style == 2) d.style = 1; if (dn && r.chance(0.4)) { d.bare = true; d.nick = "mynick"; d.fullname = "Default Name"; d.username = "defuser"; } }
      bool always = r.chance(.15); if (always) G.push_back({"report-time", "always"}); else add(.3, "report-time", "replication"); add(.2, "report-time-offset", strf("%d", r.range(-7200, 7200))); add(.2, "motd-file", "motd"); add(.2, "default-client-charset", r.chance(.5) ? "UTF-8" : "ISO-8859-1");
      add(.2, "learn-nickserv", r.chance(.5) ? "true" : "false"); add(.3, "learn-network-name", r.chance(.3) ? "true" : "false"); add(.2, "create-implicit", r.chance(.3) ? "true" : "false"); add(.2, r.chance(.5) ? "max-who-age" : "max_who_age", strf("%d", r.range(0, 900)));
      add(.2, "admin-log", r.chance(.3) ? "true" : "false"); add(.2, "admin-user", "ctrlproxy"); if (r.chance(.25)) { G.push_back({"listener-auto", "true"}); G.push_back({"listener-autoport", "6300"}); } add(.25, "match", "alpha;be ta;ga\\;mma;"); if (r.chance(.5)) g.s.replication = r.chance(.5) ? "none" : "highlight";
      if (r.chance(.4)) { G.push_back({"auto-away-enable", "false"}); add(.6, "auto-away-message", "gone \\s; away"); add(.4, "auto-away-nick", "awaynick"); add(.5, "auto-away-client-limit", strf("%d", r.range(-1, 3))); add(.5, "auto-away-time", strf("%d", r.range(1, 9000))); }
      int lg = r.below(6); if (lg == 0) G.push_back({"logging", "none"}); if (lg == 1) { G.push_back({"logging", "irssi"}); add(.5, "logdir", "cfg/mylogs"); } if (lg == 2) { G.push_back({"logging", "custom"}); add(.7, "logfilename", "cfg/lg/%N"); add(.5, "log-format-msg", "<%n> %m"); add(.5, "log-format-join", "%n joins %c"); add(.5, "log-format-nickchange", "%n is %r"); add(.3, "log-format-kick", "%t kicked by %n: %m"); add(.3, "log-format-mode", "%n %p"); add(.3, "log-format-topic", "%t by %n"); add(.3, "log-format-quit", "%n %m"); }
      if (r.chance(.4)) { G.push_back({"port", "6050"}); add(.8, "password", "glob pw"); add(.5, "default-network", g.s.nets[0].name); add(.2, "bind", "127.0.0.1"); } else add(.2, "password", "loose");
      if (r.chance(.3)) g.s.groups.push_back({"socks", std::string("allow=") + (r.chance(.5) ? "anna:apw;bert" : "anna:a:b;") + (r.chance(.7) ? "\nport=6051\n" : "\n")});
      if (r.chance(.5)) g.s.files.push_back({"networks/idle0", std::string("# comment\n[global]\nnick=idler\nfullname=Idle \\t Name\n") + (r.chance(.5) ? "username=idl\n" : "") + "servers=ircs://tls.test:6697;irc://plain.test:6667;irc://odd.test:7001;\n" + (r.chance(.5) ? "bind=10.1.2.3\n" : "") + (r.chance(.5) ? "reconnect-interval=77\n" : "") + (r.chance(.5) ? "queue-speed=200\n" : "") + (r.chance(.5) ? "ignore_first_nick=true\n" : "") + (r.chance(.5) ? "autocmd=PRIVMSG Q :auth a b;OPER x y\\;z;\n" : "") + (r.chance(.5) ? "autojoin=#one;#two;\n" : "") + "\n[ircs://tls.test:6697]\npassword=tlspw\n" + (r.chance(.5) ? "bind=10.9.9.9\n" : "") + "\n[irc://odd.test:7001]\npassword=odd pw\n" + (r.chance(.6) ? "\n[#three]\nautojoin=true\nkey=threekey\n\n[&four]\nautojoin=false\nkey=fk\n" : "")});
      if (r.chance(.3)) g.s.files.push_back({"networks/prog0", "[global]\nnick=progger\nprogram=/bin/false --arg x\n"});
      if (r.chance(.3)) g.s.groups.push_back({"idle1", std::string("nick=idle1\nservers=irc://i1.test:6667;irc://i1b.test:6668;\n") + (r.chance(.5) ? "autojoin=#m1;#m2;\n" : "") + (r.chance(.5) ? "password=netpw\n" : "") + "\n[irc://i1.test:6667]\npassword=i1pw\n"});
      g.add({{"p.save", 4}, {"p.badsave", 3}, {"p.crash", 1}, {"p.term", 2}, {"c.join", 2}, {"c.joinnew", 1}, {"c.part", 1.5}, {"c.nick", 1}, {"s.cmode", 1.5}, {"s.forcejoin", 1}, {"s.forcepart", 1}, {"s.kickme", .5}, {"s.forcenick", .5}, {"s.close", 1}, {"s.ghost", .3}, {"n.set", .3}, {"c.say", .5}, {"t.sleep", 1}}); if (always) { Weights k; for (auto &x : g.w) if (x.first[0] != 'c') k.push_back(x); g.w = k; } else g.comeAndGo(1.5); g.swarm(); g.slots = 3;
      g.begin(always ? 0 : r.range(0, 2)); g.body(6, 35, 6, "q.recover"); if (r.chance(.7)) { g.emit("p.save"); g.op("p.term", 200); g.op("q.recover"); } }},
  };
  return t;
}
std::vector<std::string> profiles() { std::vector<std::string> v; for (auto &p : table()) v.push_back(p.first); return v; }
Scn generate(const std::string &profile, uint64_t seed) {
  Gen g(profile, seed);
  for (auto &p : table()) if (p.first == profile) { p.second(g); return g.s; }
  fprintf(stderr, "unknown profile %s\n", profile.c_str()); exit(93);
}
