// IRC lines and the view a client builds from what it is sent.
#pragma once
#include "sim.h"
#include <string.h>
struct Line {
  std::string raw, prefix, nick, uh, cmd;
  std::vector<std::string> a;         // arguments after the command
  bool ok = false;
  std::string arg(size_t i) const { return i < a.size() ? a[i] : std::string(); }
  int num() const { return cmd.size() == 3 && isdigit((unsigned char)cmd[0]) && isdigit((unsigned char)cmd[1]) && isdigit((unsigned char)cmd[2]) ? atoi(cmd.c_str()) : 0; }
};
Line parseLine(const std::string &raw);
std::string lc(const std::string &s);             // rfc1459 case folding
static inline bool ieq(const std::string &a, const std::string &b) { return lc(a) == lc(b); }
std::vector<std::string> split(const std::string &s, char sep, bool keepEmpty = false);
static inline bool starts(const std::string &s, const char *p) { return !s.compare(0, strlen(p), p); }
std::string upper(std::string s);
struct View {                           // what a client believes
  std::string nick;
  struct Ch { std::string name, topic; std::map<std::string, char> mem; std::map<std::string, std::string> disp; bool stale = false, namesDone = false; usec at = 0; };
  std::map<std::string, Ch> ch;
  void apply(const Line &l);            // a line the client received
  void reset(const std::string &n) { nick = n; ch.clear(); }
};
