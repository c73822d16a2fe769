#include "plan.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
std::string pct_enc(const std::string& s) {
  std::string o; char b[8];
  if (s.empty()) return "%";
  for (unsigned char c : s) if (c <= ' ' || c == '%' || c >= 127) { snprintf(b, sizeof b, "%%%02x", c); o += b; } else o += (char)c;
  return o;
}
std::string pct_dec(const std::string& s) {
  std::string o;
  if (s == "%") return o;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%' && i + 2 < s.size() + 0) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i];
  return o;
}
bool plan_parse(const std::string& text, Plan* out, std::string* err) {
  std::istringstream in(text);
  std::string line; int n = 0;
  while (std::getline(in, line)) {
    ++n;
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string k; l >> k;
    if (k == "cfg") { std::string a, b; l >> a >> b; out->cfg[a] = pct_dec(b); }
    else if (k == "item") { Item it; l >> it.t >> it.kind; std::string x; while (l >> x) it.a.push_back(pct_dec(x)); out->items.push_back(it); }
    else if (k == "decisions") { std::string x; l >> x; out->replay = x == "replay"; }
    else if (k == "dec") { rt::Decision d; l >> d.idx >> d.val; out->decs.push_back(d); }
    else { *err = "line " + std::to_string(n) + ": " + line; return false; }
  }
  return true;
}
std::string plan_text(const Plan& p) {
  std::string o;
  for (auto& kv : p.cfg) o += "cfg " + kv.first + " " + pct_enc(kv.second) + "\n";
  for (auto& i : p.items) { o += "item " + std::to_string(i.t) + " " + i.kind; for (auto& a : i.a) o += " " + pct_enc(a); o += "\n"; }
  if (p.replay) { o += "decisions replay\n"; for (auto& d : p.decs) o += "dec " + std::to_string(d.idx) + " " + std::to_string(d.val) + "\n"; }
  return o;
}
