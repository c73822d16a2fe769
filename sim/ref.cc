// Reference reading of the two line protocols, written from the documentation. Inputs whose meaning the
// documentation leaves open are not generated, so no meaning is given to them here.
#include "hist.h"
#include <cmath>
#include <cstring>
static bool num(const std::string& s, double* d, bool* junk) {
  const char* b = s.c_str(); char* e;
  *d = strtod(b, &e);
  if (e == b) return false;
  *junk = *e != 0;
  return true;
}
static void line_spectatord(const std::string& l, RefLine* r) {
  size_t p = 1;
  if (l.empty()) return;
  char type = l[0];
  i64 extra = 0;
  if (p < l.size() && l[p] == ',') {
    ++p;
    char* e; extra = strtoll(l.c_str() + p, &e, 10);
    size_t q = e - l.c_str();
    if (extra <= 0 && (type == 'g' || type == 'X')) return;
    p = q;
  }
  if (p >= l.size() || l[p] != ':') return;
  ++p;
  std::string rest = l.substr(p);
  size_t c = rest.find(':');
  std::string idp, val;
  size_t np = rest.find_first_of(",:");
  if (np == std::string::npos || np == 0) return;
  if (c == std::string::npos) return;
  idp = rest.substr(0, c); val = rest.substr(c + 1);
  Op& o = r->op;
  size_t k = idp.find(',');
  o.name = sanitize(idp.substr(0, k));
  while (k != std::string::npos) {
    size_t n = idp.find(',', k + 1);
    std::string t = idp.substr(k + 1, n == std::string::npos ? n : n - k - 1);
    size_t eq = t.find('=');
    if (eq == std::string::npos) return;
    o.tags[sanitize(t.substr(0, eq))] = sanitize(t.substr(eq + 1));
    k = n;
  }
  bool junk = false;
  if (!num(val, &o.v, &junk)) return;
  if (type == 'U') { char* e; o.u = strtoull(val.c_str(), &e, 10); if (e == val.c_str()) return; }
  if (!strchr("AcCdDgmtTUX", type)) return;
  o.type = type; o.extra = extra;
  r->ok = true;
  r->has_op = true;
  if (type == 'X' && extra <= 0) r->has_op = false;
}
static void line_statsd(const std::string& l, RefLine* r) {
  size_t c = l.find(':');
  if (c == std::string::npos || c == 0) return;
  Op& o = r->op;
  o.name = sanitize(l.substr(0, c));
  const char* b = l.c_str() + c + 1; char* e;
  o.v = strtod(b, &e);
  if (e == b || *e != '|') return;
  ++e;
  char t = *e;
  if (!strchr("cghsm", t) || !t) return;
  ++e;
  if (t == 'm') { if (*e != 's') return; ++e; }
  double rate = 1;
  if (*e == '|') {
    ++e;
    if (*e == '@') {
      ++e; char* e2; rate = strtod(e, &e2);
      if (e2 == e || !(rate >= 1e-6 && rate <= 1)) return;
      e = e2;
      if (*e == '|') ++e;
    }
    if (*e == '#') {
      std::string ts(e + 1);
      size_t p = 0;
      for (;;) {
        size_t n = ts.find(',', p);
        std::string one = ts.substr(p, n == std::string::npos ? n : n - p);
        size_t q = one.find(':');
        std::string k = q == std::string::npos ? one : one.substr(0, q), v = q == std::string::npos ? "1" : one.substr(q + 1);
        if (k.empty() || v.empty()) return;
        o.tags[sanitize(k)] = sanitize(v);
        if (n == std::string::npos) break;
        p = n + 1;
      }
    }
  }
  r->ok = true; r->has_op = true;
  switch (t) {
    case 'c': o.type = 'c'; o.v /= rate; break;
    case 'g': o.type = 'g'; break;
    case 'h': o.type = 'd'; o.rep = (int)lround(1 / rate); break;
    case 'm': o.type = 't'; o.rep = (int)lround(1 / rate); o.u = 1; o.v = (double)lround(o.v * 1e6); break;   // u=1: value already in ns
    default: r->has_op = false;
  }
}
std::vector<RefLine> ref_parse(int proto, const std::string& payload) {
  std::vector<RefLine> out;
  std::string s = payload.c_str();   // up to a NUL
  size_t p = 0;
  bool first = true;
  while (p < s.size()) {
    size_t n = s.find('\n', p);
    std::string l = s.substr(p, n == std::string::npos ? n : n - p);
    if (!l.empty() || first) {
      RefLine r; r.text = l;
      if (proto == 0) line_spectatord(l, &r); else line_statsd(l, &r);
      if (r.has_op) r.op.id = id_text(r.op.name, r.op.tags);
      out.push_back(std::move(r));
    }
    first = false;
    if (n == std::string::npos) break;
    p = n + 1;
  }
  return out;
}
