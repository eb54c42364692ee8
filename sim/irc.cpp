#include "irc.h"
std::string lc(const std::string &s) {
  std::string o = s;
  for (auto &c : o) { if (c >= 'A' && c <= 'Z') c += 32; else if (c == '[') c = '{'; else if (c == ']') c = '}'; else if (c == '\\') c = '|'; else if (c == '~') c = '^'; }
  return o;
}
std::string upper(std::string s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
std::vector<std::string> split(const std::string &s, char sep, bool keepEmpty) {
  std::vector<std::string> v; std::string cur;
  for (char c : s) { if (c == sep) { if (!cur.empty() || keepEmpty) v.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty() || keepEmpty) v.push_back(cur);
  return v;
}
Line parseLine(const std::string &raw) {
  Line l; l.raw = raw;
  size_t i = 0, n = raw.size();
  if (n && raw[0] == ':') {
    size_t e = raw.find(' '); if (e == std::string::npos) return l;
    l.prefix = raw.substr(1, e - 1); i = e;
    size_t b = l.prefix.find('!'); l.nick = l.prefix.substr(0, b); if (b != std::string::npos) l.uh = l.prefix.substr(b + 1);
  }
  bool first = true;
  while (i < n) {
    while (i < n && raw[i] == ' ') i++;
    if (i >= n) break;
    if (raw[i] == ':' && !first) { l.a.push_back(raw.substr(i + 1)); break; }
    size_t e = raw.find(' ', i); if (e == std::string::npos) e = n;
    std::string t = raw.substr(i, e - i); i = e;
    if (first) { l.cmd = upper(t); first = false; } else l.a.push_back(t);
  }
  l.ok = !l.cmd.empty();
  return l;
}
void View::apply(const Line &l) {
  auto chan = [&](const std::string &n) -> Ch * { auto it = ch.find(lc(n)); return it == ch.end() ? nullptr : &it->second; };
  bool me = !l.nick.empty() && ieq(l.nick, nick);
  if (l.cmd == "001" && nick.empty()) nick = l.arg(0);
  else if (l.cmd == "NICK") {
    std::string nn = l.arg(0);
    if (me) nick = nn;
    for (auto &p : ch) { auto it = p.second.mem.find(lc(l.nick)); if (it != p.second.mem.end()) { char st = it->second; p.second.mem.erase(it); p.second.mem[lc(nn)] = st; p.second.disp[lc(nn)] = nn; } }
  } else if (l.cmd == "JOIN") {
    for (auto &c : split(l.arg(0), ',')) {
      if (me) { Ch n; n.name = c; n.at = K.now; n.mem[lc(l.nick)] = 0; ch[lc(c)] = n; }
      else if (Ch *x = chan(c)) { x->mem[lc(l.nick)] = 0; x->disp[lc(l.nick)] = l.nick; }
    }
  } else if (l.cmd == "PART") {
    for (auto &c : split(l.arg(0), ',')) { if (me) ch.erase(lc(c)); else if (Ch *x = chan(c)) x->mem.erase(lc(l.nick)); }
  } else if (l.cmd == "KICK") {
    if (ieq(l.arg(1), nick)) ch.erase(lc(l.arg(0))); else if (Ch *x = chan(l.arg(0))) x->mem.erase(lc(l.arg(1)));
  } else if (l.cmd == "QUIT") {
    if (!me) for (auto &p : ch) p.second.mem.erase(lc(l.nick));
  } else if (l.cmd == "TOPIC") { if (Ch *x = chan(l.arg(0))) x->topic = l.arg(1); }
  else if (l.cmd == "MODE") {
    if (Ch *x = chan(l.arg(0))) {
      bool add = true; size_t ai = 2;
      for (char m : l.arg(1)) {
        if (m == '+') add = true; else if (m == '-') add = false;
        else if (strchr("ohv", m)) { auto it = x->mem.find(lc(l.arg(ai++))); char pc = m == 'o' ? '@' : m == 'h' ? '%' : '+'; if (it != x->mem.end()) { if (add) { if (it->second != '@') it->second = pc; } else if (it->second == pc) it->second = 0; } }
        else if (strchr("bk", m) || (m == 'l' && add)) ai++;
      }
    }
  } else if (l.cmd == "332") { if (Ch *x = chan(l.arg(1))) x->topic = l.arg(2); }
  else if (l.cmd == "331") { if (Ch *x = chan(l.arg(1))) x->topic.clear(); }
  else if (l.cmd == "353") {
    if (Ch *x = chan(l.arg(2))) for (auto n : split(l.arg(3), ' ')) { char p = 0; if (strchr("@%+", n[0])) { p = n[0]; n.erase(0, 1); } x->mem[lc(n)] = p; x->disp[lc(n)] = n; }
  } else if (l.cmd == "366") { if (Ch *x = chan(l.arg(1))) x->namesDone = true; }
}
