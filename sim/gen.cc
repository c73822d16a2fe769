// Seeded generation of plans: configuration, workload, faults, scheduling policy.
#include "plan.h"
#include "codec.h"
#include "hist.h"
#include <algorithm>
#include <cmath>
#include <cstring>
using namespace rt;
bool bucket_gap(i64 x);
namespace {
struct MId { char type; std::string name; std::vector<std::pair<std::string, std::string>> tags; int thread = 0; int sock = 0; double cur = 0; u64 ucur = 0; i64 ts = 0, xs = 0; int ttl = 0; bool fixed = false; std::string last; };
struct Gen {
  Plan p; Rng r; bool lib = false; std::string prop;
  std::vector<MId> ids;
  std::vector<i64> hotms;      // moments of interest (us)
  i64 end_us = 0, start_us = 0; i64 freq = 5000, ttl = 900000, exp_ = 60000;
  int nth = 3;
  bool slow = false;           // cycles minutes apart, the default lifetimes
  explicit Gen(u64 seed) : r(seed * 0x2545F4914F6CDD1DULL + 17) {}
  bool c(double x) { return r.p(x); }
  i64 R(i64 a, i64 b) { return r.range(a, b); }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }
  double lu(double a, double b) { return std::exp(std::log(a) + (std::log(b) - std::log(a)) * r.unit()); }

  void sched() {
    double x = r.unit();
    p.set("policy", x < 0.65 ? 0 : x < 0.85 ? 1 : x < 0.95 ? 2 : 3);
    p.setd("p_switch", lu(0.004, 0.5)); p.setd("p_hot", 0.1 + 0.6 * r.unit());
    p.set("tick", pick<i64>({100, 200, 200, 500, 1000}));
    p.set("pct_depth", R(1, 6)); p.set("pct_len", pick<i64>({3000, 10000, 40000}));
    if (c(0.3)) p.setd("p_cas", 0.05);
    if (c(0.3)) p.setd("p_spurious", 0.003);
    if (c(0.25)) { p.setd("p_stall", lu(1e-5, 3e-4)); p.set("stall_ms", pick<i64>({1, 20, 200})); }
    if (c(0.3)) p.setd("p_func", lu(0.002, 0.05));
    if (c(0.25)) p.setd("p_plain", lu(0.0005, 0.02));
    p.set("hwc", pick<i64>({1, 2, 4, 8}));
    p.set("races", prop == "C18" ? 1 : 0);
  }
  std::string word(int n) { static const char a[] = "abcdefghijklmnopqrstuvwxyz0123456789"; std::string s; for (int i = 0; i < n; ++i) s += a[r.below(36)]; return s; }
  std::string dirty(std::string s) {
    static const char bad[] = "!#$&*()+/;<>?@[]^`{} \"'\\%";
    int n = (int)R(1, 2);
    for (int i = 0; i < n; ++i) s.insert(r.below(s.size() + 1), 1, bad[r.below(strlen(bad))]);
    if (c(0.2)) s += "\xc3\xa9";
    return s;
  }
  MId mk(char type, int k) {
    MId m; m.type = type;
    m.name = std::string(1, type) + (c(0.5) ? ".m" : "-srv.req_") + std::to_string(k);
    if (c(0.1)) m.name += "~^x";
    auto len = [&] { return (size_t)pick<i64>({30, 31, 32, 33, 34, 55, 56, 57, 62, 63, 64, 65, 66, 67, 96, 127, 128, 129, 130, 200, 255, 256, 257, 300}); };
    if (c(0.04)) { size_t w = len(); while (m.name.size() < w) m.name += word(1); }
    int nt = c(0.4) ? 0 : (int)R(1, c(0.1) ? 7 : 3);
    for (int i = 0; i < nt; ++i) {
      std::string key = pick<const char*>({"k", "id", "nf.x", "status", "a-b"}) + std::to_string(i);
      m.tags.push_back({key, c(0.5) ? word(3) : pick<const char*>({"get", "post", "200", "1.5", "x_y"})});
    }
    if (!m.tags.empty() && c(0.1)) { auto& t = m.tags[r.below(m.tags.size())]; size_t w = len(); if (c(0.3)) { while (t.first.size() < w) t.first += word(1); } else { t.second.clear(); while (t.second.size() < w) t.second += word(1); } }
    if (type == 'c' || type == 'C') if (c(0.05)) m.tags.push_back({"statistic", pick<const char*>({"count", "custom"})});
    m.cur = (double)R(0, 1000); m.ts = 1600000000000LL + R(0, 1000000);
    if (c(0.2)) m.ucur = ~0ULL - r.below(2000); else m.ucur = r.below(1000000);
    m.ttl = c(0.5) ? 0 : (int)pick<i64>({1, 5, 6, 8, 15, 30});
    if (slow && m.ttl) m.ttl = (int)pick<i64>({30, 120, 600, 899, 901, 1000, 1800, 3599, 3601, 4000, 7200, 100000});
    m.thread = (int)r.below(nth); m.sock = (int)r.below(2);
    return m;
  }
  // identifier text as it appears in a line or operation; sometimes permuted or with a repeated key
  std::string id_of(const MId& m, bool wild) {
    auto t = m.tags; std::string n = m.name;
    if (wild || c(0.3)) for (size_t i = t.size(); i > 1; --i) std::swap(t[i - 1], t[r.below(i)]);
    if (c(wild ? 0.3 : 0.05) && !t.empty()) { size_t k = r.below(t.size()); auto d = t[k]; d.second = word(2); t.insert(t.begin() + r.below(k + 1), d); }
    auto san = [&](std::string s) { if (c(wild ? 0.5 : 0.1)) for (auto& ch : s) if (ch == '_' && c(0.7)) ch = "!#$&*()+/;<>?@[]{} "[r.below(19)]; return s; };
    n = san(n);
    std::string s = n;
    for (size_t i = 0; i < t.size(); ++i) s += (i || !lib ? "," : "|") + san(t[i].first) + "=" + san(t[i].second);
    return s;
  }
  std::string g17(double v) { return strf("%.17g", v); }
  std::string value(MId& m, i64* extra) {
    if (strchr("gmA", m.type) && !m.last.empty() && c(0.2)) { *extra = m.type == 'g' && c(0.6) ? m.ttl : 0; return m.last; }   // the same value again
    std::string v = value1(m, extra);
    if (v.size() < 40) m.last = v;
    return v;
  }
  // next to the border of two percentile buckets
  i64 bound(int bits) {
    for (;;) { i64 b = 1LL << (2 * R(1, bits / 2)), x = b + R(0, 8) * (b / 3) + R(-1, 1); if (x > 0 && !bucket_gap(x)) return x; }
  }
  std::string value1(MId& m, i64* extra) {
    *extra = 0;
    switch (m.type) {
      case 'c': {
        double x = r.unit();
        if (x < 0.02) return "-" + std::to_string(R(1, 50));
        if (x < 0.04) return pick<const char*>({"-0.5", "-1e-9", "-0", "0.5", "1e-3", "+7", ".25", "3.", "1e2", "0x1p3", "12e-1"});
        if (x < 0.07) return "nan";
        if (x < 0.10) return "0";
        if (x < 0.2) return g17(R(1, 4000) / 8.0);
        if (x < 0.24) return g17(lu(1e9, 1e15));
        return std::to_string(R(1, 100));
      }
      case 't': if (c(0.05)) return pick<const char*>({"-0.5", "-0.000000001", "-1e-10", "-0", "1e-9", "2e-9", "1e-10", "1e-6", "86400", "100000", "3e6", "1e-3"}); return c(0.04) ? "-1.5" : c(0.05) ? "0" : g17(R(1, 5000000) / 1e6);
      case 'T': { if (c(0.06)) for (;;) { i64 ns = bound(46); double s = ns / 1e9; if (ns <= 86400LL * 1000000000 && (i64)(s * 1e9) == ns) return g17(s); }
                  if (c(0.08)) return pick<const char*>({"-0.5", "-0.000000001", "-1e-10", "-0", "0", "1e-9", "2e-9", "1e-10", "86400", "86401", "90000", "1e6", "-2"}); for (;;) { i64 ns = (i64)lu(2, 8e13); double s = ns / 1e9; i64 back = (i64)(s * 1e9); if (!bucket_gap(back) && back > 0) return g17(s); } }
      case 'd': if (c(0.05)) return pick<const char*>({"-0.5", "-1e-9", "-0", "0.5", "1e-5", "1e12", "-1e15", "5e-1"}); return c(0.04) ? "-7" : c(0.04) ? "nan" : c(0.05) ? "0" : g17(R(1, 100000) / 4.0);
      case 'D': { if (c(0.08)) return std::to_string(bound(52)); if (c(0.04)) return "-3"; if (c(0.05)) return pick<const char*>({"-1", "-2", "-0.5", "-0", "0", "0.9", "1.9", "3.99", "4", "5", "1e18", "-1.5", "9e18"}); if (c(0.03)) { i64 x = (i64)lu(9e15, 4e18); if (!bucket_gap(x)) return std::to_string(x); } for (;;) { i64 x = c(0.1) ? R(0, 12) : (i64)lu(1, 9e15); if (!bucket_gap(x)) return std::to_string(x); } }
      case 'g': *extra = m.ttl; if (c(0.3)) *extra = 0; return c(0.05) ? "nan" : c(0.1) ? g17(-R(1, 1000) / 3.0) : g17(R(0, 100000) / 7.0);
      case 'm': if (c(0.04)) return pick<const char*>({"nan", "-0.5", "-1e300", "1e300", "-1e-300", "1e-300", "-0"}); return c(0.1) ? "0" : c(0.15) ? std::to_string(-R(1, 1000)) : g17(R(1, 1000000) / 16.0);
      case 'C': { if (c(0.02)) return pick<const char*>({"nan", "-5", "1e15", "0.1", "-0.25"}); double x = r.unit(); if (x < 0.08) m.cur -= (double)R(1, 50); else if (x < 0.12) m.cur = (double)R(0, 5); else if (x > 0.2) m.cur += x < 0.6 ? (double)R(1, 100) : R(1, 800) / 16.0; return g17(m.cur); }
      case 'U': { if (c(0.02)) return strf("%0*llu", (int)R(2, 22), (unsigned long long)m.ucur); if (c(0.03)) return pick<const char*>({"0", "18446744073709551615", "18446744073709551614", "9223372036854775807", "9223372036854775808", "9223372036854775809", "1", "007", "+12"}); double x = r.unit(); if (x < 0.05) m.ucur -= (u64)R(1, 50); else if (x < 0.08) m.ucur = r.below(100); else if (x > 0.15) m.ucur += (u64)R(1, 1000); if (c(0.02)) m.ucur += 1ULL << 40; return strf("%llu", (unsigned long long)m.ucur); }
      case 'X': {
        double x = r.unit(); m.ts += R(1, 30) * 500; i64 t = m.ts;
        if (x > 0.88 && m.xs) { t = m.xs; m.ts = std::max(m.ts, t); }   // the time of an earlier sample again
        else if (x > 0.84 && m.xs) { t = m.xs + 1; m.ts = std::max(m.ts, t); }
        else if (x < 0.08) { t -= R(1, 40) * 250 + 1 + 17 * (i64)r.below(50); m.ts += 1; }
        if (x > 0.93) m.cur -= (double)R(1, 60); else if (x > 0.15) m.cur += R(1, 2000) / 8.0;
        if (t > m.xs) m.xs = t;
        *extra = t; return g17(m.cur);
      }
      case 'A': { if (c(0.5)) return "0"; return g17(1700000000.0 - (double)R(1, 100000) / (c(0.5) ? 1.0 : 4.0)); }
    }
    return "1";
  }
  std::string line(MId& m, bool wild) {
    i64 ex; std::string v = value(m, &ex);
    std::string t(1, m.type);
    if ((m.type == 'g' && ex > 0) || m.type == 'X') t += "," + std::to_string(ex);
    else if (m.type != 'g' && m.type != 'X' && c(0.02)) t += "," + std::to_string(R(0, 9));
    std::string l = t + ":" + id_of(m, wild) + ":" + v;
    if (c(0.02)) l += " ";
    return l;
  }
  std::string statsd_line(int k) {
    char t = pick<char>({'c', 'c', 'g', 'h', 'm', 's'});
    std::string l = strf("sd.%c%d", t, k) + ":";
    switch (t) {
      case 'c': l += c(0.1) ? "-1" : c(0.15) ? g17(R(1, 400) / 8.0) : std::to_string(R(1, 50)); break;
      case 'g': l += g17(R(0, 1000) / 3.0); break;
      case 'h': l += g17(R(0, 4000) / 4.0); break;
      case 'm': l += c(0.3) ? g17(R(0, 90000) / 64.0) : std::to_string(R(0, 3000)); break;   // exact in ns
      default: l += "9";
    }
    l += "|"; l += t == 'm' ? "ms" : std::string(1, t);
    if (c(0.02)) l += std::string("|@") + (t == 'c' ? pick<const char*>({"0.001", "0.0005", "0.0001", "1e-5", "2e-6"}) : pick<const char*>({"0.001", "0.002", "0.0005"}));
    else if (c(0.3)) l += std::string("|@") + pick<const char*>({"0.5", "0.1", "0.25", "1", "0.02", "0.3", "0.6", "0.35", "0.7", "0.15", "0.011", "1e-2", ".5", "1.0", "0.9"});
    if (c(0.4)) { l += "|#"; int n = (int)R(1, 3); for (int i = 0; i < n; ++i) { if (i) l += ","; l += "tg" + std::to_string(i); if (c(0.7)) l += ":" + word(2); } }
    return l;
  }
  std::string bad_line(bool statsd) {
    if (statsd) return pick<const char*>({"nocolon", ":1|c", "x:|c", "x:1", "x:1|q", "x:1|m", "x:abc|c", "x:1|c|@2", "x:1|c|@-1", "x:1|c|@", "x:1|c|#:", "x:1|c|#k:", "x:1c", "x:1|c|@zz"});
    return pick<const char*>({"foo", "c", "c:", "c::1", "c:name", "c:name:", "c:name:abc", "q:name:1", "z:name:1", "c;name:1", "g,0:n:1", "g,-3:n:1", "g,x:n:1", "X,0:n:1", "X,-5:n:1", "c:n,k:1", "c:n,k=v", "c:n,k=v:", "c:,k=v:1", "c:n,=v1,k:1", "c:name,", "1", "c name 1", "U:n:zz", "c:n,k=v,:1", "c:n,k=v,z:1", "c,:", "g,5"});
  }

  // a line damaged in one or two places; what it means then is settled by the protocol alone
  std::string damaged(const std::string& line, bool statsd) {
    for (int tries = 0; tries < 20; ++tries) {
      std::string l = line;
      for (int n = c(0.8) ? 1 : 2; n > 0 && !l.empty(); --n) {
        double x = r.unit(); size_t k = r.below(l.size());
        if (x < 0.15) l.insert(0, pick<const char*>({" ", "\t", "  ", "\r", " \t", "\v"}));
        else if (x < 0.22) l += pick<const char*>({" ", "\r", "\t", " \r"});
        else if (x < 0.40) { std::vector<size_t> s; for (size_t i = 0; i < l.size(); ++i) if (strchr(":,=|@#", l[i])) s.push_back(i); if (!s.empty()) { k = s[r.below(s.size())]; if (c(0.5)) l.erase(k, 1); else l.insert(k, 1, l[k]); } }
        else if (x < 0.55) l.insert(k, 1, " \t\r:,=|@#;"[r.below(10)]);
        else if (x < 0.70) l.erase(k, 1);
        else if (x < 0.85) l.resize(k);
        else if (x < 0.95) l[0] = (char)R(33, 126);
        else l.erase(0, k);
      }
      if (l.empty() || l.find('\n') != std::string::npos) continue;
      auto ref = ref_parse(statsd, l);
      if (ref.size() != 1) continue;
      if (statsd && l.find('#') != std::string::npos) {   // a tag with two colons: not settled
        bool dbl = false; int n = 0; for (char ch : l.substr(l.find('#'))) { if (ch == ',') n = 0; if (ch == ':' && ++n > 1) dbl = true; }
        if (dbl) continue;
      }
      if (!ref[0].ok) return l;
      const Op& o = ref[0].op;
      auto was = ref_parse(statsd, line);
      if (was.size() != 1 || was[0].op.type != o.type) continue;   // kinds do not share identifiers
      if (!ref[0].has_op) { if (statsd) return l; continue; }
      if (!strchr("cdgmt", o.type) || o.name.empty() || std::isinf(o.v) || std::fabs(o.v) > 1e9 || (o.v != 0 && std::fabs(o.v) < 1e-6) || o.rep > 5000 || (statsd && o.type == 't' && o.v != std::floor(o.v))) continue;
      if (o.type == 'g' && o.extra > 1000000) continue;
      bool bad = false; for (auto& t : o.tags) if (t.first.empty() || t.second.empty() || t.first == "statistic") bad = true;
      if (!bad) return l;
    }
    return statsd ? "nocolon" : "foo";
  }

  // ---- time structure -----------------------------------------------------
  void lib_times(int nmeas, bool expiry) {
    p.set("mode", "lib"); lib = true; p.set("uri", 0);
    nth = (int)R(1, 4);
    slow = expiry && c(0.15);
    if (slow) { ttl = pick<i64>({900000, 900000, 60000}); exp_ = pick<i64>({60000, 60000, 10000}); }
    else if (expiry) { ttl = pick<i64>({5000, 6000, 9000, 20000}); exp_ = pick<i64>({300, 1000, 2500}); }
    else { ttl = 900000; exp_ = 60000; }
    p.set("ttl_ms", ttl); p.set("exp_ms", exp_);
    i64 t = 100000; i64 step = slow ? pick<i64>({30000, 60000, 200000, 300000}) : expiry ? pick<i64>({700, 1000, 2000}) : pick<i64>({5, 20, 1000, 5000});
    start_us = 1000;
    for (int i = 0; i < nmeas; ++i) { t += step * 1000 + (c(0.3) ? R(0, 200) : 0); hotms.push_back(t); p.add(t, "measure", {}); if (c(0.02)) p.add(t, "measure", {}); }
    end_us = t + step * 500;
    if (expiry) for (i64 e = exp_ * 1000; e < end_us; e += exp_ * 1000) if (c(0.5)) hotms.push_back(e + R(0, 60));
    p.set("sig_off_us", R(0, 300));
  }
  void daemon_times(int ncyc, bool expiry) {
    p.set("mode", "daemon"); lib = false;
    freq = pick<i64>({1000, 2000, 5000, 5000});
    slow = expiry && c(0.12);
    if (slow) { ttl = pick<i64>({900000, 900000, 60000}); exp_ = pick<i64>({60000, 60000, 10000}); freq = pick<i64>({30000, 60000, 120000, 300000}); }
    else if (expiry) { ttl = pick<i64>({5000, 7000, 12000}); exp_ = pick<i64>({400, 1000, 3000}); freq = 1000; }
    p.set("freq_ms", freq); p.set("ttl_ms", ttl); p.set("exp_ms", exp_);
    start_us = 50000; end_us = ncyc * freq * 1000;
    p.set("t_calm_us", end_us + 1000);
    p.set("settle", R(2, 3)); p.set("sig_off_us", R(0, freq * 1000));
    p.set("batch", pick<i64>({1, 3, 10, 10000, 10000})); if (c(0.3)) p.set("ipv4", 1);
    p.set("status", c(0.85)); p.set("lat_us", pick<i64>({50, 200, 2000, 20000}));
    if (c(0.3)) p.set("statsd", c(0.5));
    p.setd("p_short_read", c(0.2) ? 0.1 : 0); p.setd("p_partial_send", c(0.2) ? 0.1 : 0); p.setd("p_eintr", c(0.2) ? 0.02 : 0);
    if (c(0.3)) p.set("stale", 1);
    p.set("drops0", R(0, 50));
    if (c(0.2)) p.set("conn_to_ms", pick<i64>({500, 1000})); if (c(0.2)) p.set("read_to_ms", pick<i64>({500, 2000}));
  }
  int cyc_count() { return (int)(end_us / (freq * 1000)); }
  // an operation at a moment: in library mode a direct call, in daemon mode a line of a datagram
  void emit(i64 t, MId& m, bool wild) {
    if (lib) {
      i64 ex; std::string v = value(m, &ex);
      int th = strchr("CUX", m.type) ? m.thread : (int)r.below(nth);
      p.add(t, "op", {std::to_string(th), std::string(1, m.type), id_of(m, wild), v, std::to_string(ex)});
    } else {
      p.add(t, "dg", {m.sock ? "unix" : "udp", line(m, wild)});
    }
  }
  struct Mom { i64 t; int id; int kind; };   // kind 0 absolute, 1 relative to a reporting cycle (id in t's place)
  // activity of all identifiers over the run
  void activity(int n_ops, bool expiry, bool wild) {
    std::vector<std::pair<i64, int>> mo;
    int n = (int)ids.size();
    // with expiry, each identifier alternates between active and idle phases
    std::vector<std::vector<std::pair<i64, i64>>> act(n);
    for (int i = 0; i < n; ++i) {
      if (!expiry) { act[i].push_back({start_us, end_us}); continue; }
      i64 sc = slow ? 60 : 1; i64 t = start_us + R(0, 2000000 * sc);
      while (t < end_us) { i64 e = t + R(0, 4000000 * sc); act[i].push_back({t, std::min(e, end_us)}); t = e + (c(0.3) ? R(0, ttl * 1000) : ttl * 1000 + R(0, 3000 * sc) * 1000); }
    }
    auto active = [&](int i, i64 t) { for (auto& a : act[i]) if (t >= a.first && t <= a.second) return true; return false; };
    for (int k = 0; k < n_ops; ++k) {
      i64 t; int id = (int)r.below(n);
      if (!hotms.empty() && c(0.6)) {
        i64 h = hotms[r.below(hotms.size())];
        int b = (int)R(1, 5);
        if (expiry && c(0.8)) {   // let only identifiers that are idle long enough, or active, take part
          for (int q = 0; q < 6 && !active(id, h); ++q) id = (int)r.below(n);
        }
        for (int q = 0; q < b; ++q) { t = h + (c(0.5) ? 0 : R(-60, 120)); if (t < start_us) t = start_us; mo.push_back({t, c(0.7) ? id : (int)r.below(n)}); }
      } else {
        auto& a = act[id]; if (a.empty()) continue;
        auto& w = a[r.below(a.size())]; t = R(w.first, w.second); mo.push_back({t, id});
        if (expiry && c(0.3)) { i64 e = t + ttl * 1000; e = (e / (exp_ * 1000) + 1) * exp_ * 1000 + R(-20, 100); if (e < end_us) mo.push_back({e, id}); }
      }
    }
    std::stable_sort(mo.begin(), mo.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& m : mo) emit(m.first, ids[m.second], wild);
  }
  // identifiers which are only ever updated at the moment the expirer finds them idle
  void expiry_races(bool wild) {
    i64 per = (ttl + exp_ - 1) / exp_ + (c(0.7) ? 1 : 2), n = 0, last = c(0.6) ? end_us : end_us / 2;   // or let them all go
    for (i64 k = R(1, per); k * exp_ * 1000 < last; k += per + (c(0.2) ? 1 : 0), ++n) {
      i64 early = k * 1100 + 2000, t = k * exp_ * 1000 - early, off = R(-20, 80);
      if (t < start_us) continue;
      for (size_t i = 0; i < ids.size(); ++i) {
        MId& m = ids[i];
        if (c(0.15) || (!lib && strchr("CUX", m.type))) continue;
        i64 o = c(0.5) ? off + R(0, 10) : R(-20, 150);
        for (int q = c(0.8) ? 1 : 2; q > 0; --q) {
          if (lib) { i64 ex; std::string v = value(m, &ex); int th = strchr("CUX", m.type) ? m.thread : (int)r.below(nth); p.add(t, "op", {std::to_string(th), std::string(1, m.type), id_of(m, wild), v, std::to_string(ex), std::to_string(early + 500), std::to_string(o)}); }
          else p.add(t, "xdg", {std::to_string(early + 500), std::to_string(o), m.sock ? "unix" : "udp", line(m, wild)});
        }
      }
    }
  }
  // datagrams sent around the moment the n-th reporting cycle starts
  void around_cycles(double density, bool wild) {
    int nc = cyc_count();
    for (int k = 0; k < nc; ++k) {
      if (!c(density)) continue;
      int b = (int)R(1, 6);
      std::vector<i64> off; for (int q = 0; q < b; ++q) off.push_back(R(-40, 200));
      std::sort(off.begin(), off.end());
      for (int q = 0; q < b; ++q) { MId& m = ids[r.below(ids.size())]; if (strchr("CUX", m.type)) continue; p.add(0, "cdg", {std::to_string(k), std::to_string(off[q]), m.sock ? "unix" : "udp", line(m, wild)}); }
    }
  }
  // an identifier that is almost another one
  MId near(const MId& o, int k) {
    MId m = mk(o.type, k);
    for (auto& t : o.tags) if (t.first == "statistic") return m;   // kinds of statistic are not part of this
    m.name = o.name; m.tags = o.tags;
    auto fresh = [&] { return "n" + std::to_string(k) + word(2); };
    double x = r.unit(); size_t n = m.tags.size();
    if (n >= 2 && x < 0.15) std::swap(m.tags[0].second, m.tags[1].second);
    else if (n && x < 0.25) { auto& t = m.tags[r.below(n)]; std::swap(t.first, t.second); }
    else if (n && x < 0.40) m.tags.erase(m.tags.begin() + r.below(n));
    else if (n && x < 0.65) m.tags[r.below(n)].second += fresh();
    else if (n && x < 0.72) m.tags[r.below(n)].first += fresh();
    else if (n && x < 0.78) m.tags[r.below(n)].second = m.name;
    else if (x < 0.92) m.tags.push_back({fresh(), word(3)});
    else m.name += word(1);
    std::map<std::string, std::string> seen; for (auto& t : m.tags) seen[t.first] = t.second;   // one entry per key
    m.tags.assign(seen.begin(), seen.end());
    return m;
  }
  void add_near(int n, bool many) {
    if (ids.empty()) return;
    size_t base = r.below(ids.size());
    if (many) { int k = (int)R(6, 16); for (int i = 0; i < k; ++i) ids[base].tags.push_back({"t" + std::to_string(i), word(3)}); }
    auto norm = [](const MId& m) { std::map<std::string, std::string> t; for (auto& x : m.tags) t[x.first] = x.second; return std::make_pair(m.name, t); };
    for (int i = 0; i < n; ++i) {
      MId m = near(ids[c(0.7) ? base : base + r.below(ids.size() - base)], 500 + (int)ids.size());
      bool same = false; for (auto& o : ids) if (norm(o) == norm(m)) same = true;   // each has one source
      if (!same) ids.push_back(m);
    }
  }
  void add_ids(const std::string& types, int lo, int hi) { int n = (int)R(lo, hi); for (int i = 0; i < n; ++i) ids.push_back(mk(types[r.below(types.size())], (int)ids.size())); }
};

static std::string agg_beh(Gen& g, bool timeouts) {
  double x = g.r.unit();
  if (x < 0.30) return g.pick<const char*>({"st:503", "st:500", "st:502:text", "st:599", "st:429", "st:504", "st:429:text", "st:501", "st:507"});
  if (x < 0.50) return g.pick<const char*>({"st:400:err1", "st:400:err3", "st:400:all", "st:202:err2", "st:206:err1", "st:400:err0", "st:404:err1", "st:413:err2"});
  if (x < 0.68) return g.pick<const char*>({"st:400:bad", "st:400:text", "st:400:arr", "st:400:noerr", "st:400:neg", "st:400:big", "st:400:huge", "st:400:float", "st:400:str", "st:400:null", "st:400:num", "st:400:nullec", "st:400:nomsg", "st:400:msgstr", "st:400:msgmix", "st:404", "st:428", "st:430", "st:431:text", "st:451", "st:499:err1", "st:408", "st:425", "st:402", "st:226", "st:203:err1", "st:302:text", "st:204", "st:202:none", "st:301", "st:403:text"});
  if (x < 0.80 || !timeouts) return g.pick<const char*>({"refuse", "unreach", "noport", "nosock", "rst_open", "rst_req", "rst_mid", "close_req", "partial", "garbage", "badchunk"});
  if (x < 0.92) return g.pick<const char*>({"hang", "blackhole", "stopread", "slow:400", "slow503:300", "trickle:20", "slowcon:300"});
  return g.pick<const char*>({"chunked", "cont", "bigbody", "slow:100"});
}
static void agg_faults(Gen& g, double density, bool timeouts) {
  int n = g.cyc_count() * 3;
  if (g.c(0.3)) { for (int k = 0; k < 3; ++k) { i64 t = g.R(0, g.end_us); g.p.add(t, "aggw", {std::to_string(g.R(500000, 12000000)), agg_beh(g, timeouts)}); } }
  for (int k = 0; k < n; ++k) if (g.c(density)) g.p.add(0, "agg", {std::to_string(k), agg_beh(g, timeouts)});
}
// thousands of measurements in one request: wide references, bodies of several hundred kB
static void bulk(Gen& g) {
  Plan& p = g.p;
  p.set("tick", 50); p.set("max_steps", 60000000); p.setd("p_switch", std::min(0.02, p.dbl("p_switch", 0.01))); p.setd("p_plain", 0); p.setd("p_func", 0);
  p.set("batch", g.pick<i64>({10000, 10000, 4500, 3000})); if (g.c(0.5)) p.set("freq_ms", 5000);
  i64 n = g.pick<i64>({4000, 4200, 5000, 6500, 8500, 12000}), len = g.pick<i64>({12, 40, 64, 65, 90, 150}); if (n * len > 700000 && g.c(0.5)) n = 2500;
  p.add(g.R(g.start_us, std::max(g.start_us + 1, g.freq * 2000)), "bulk", {g.c(0.5) ? "udp" : "unix", std::to_string(n), std::to_string(len), std::to_string(g.R(0, 9999))});
}
// the common tags given on the command line, or none at all
static void flag_tags(Gen& g) {
  if (g.c(0.25)) {
    static const char* keys[] = {"mantisJobId", "mantisJobName", "mantisUser", "nf.app", "nf.node", "nf.zone", "nf.ami", "own"};
    std::string f; int n = (int)g.R(1, 8);
    for (int i = 0; i < n; ++i) f += (i ? "," : "") + std::string(keys[g.r.below(8)]) + (g.c(0.3) ? "" : std::to_string(i)) + "=" + g.word((int)g.R(1, g.c(0.1) ? 70 : 8));
    g.p.set("ct_flag", f);
  }
  if (g.c(0.15)) g.p.set("no_common_tags", 1);
}
static std::string admin_host(Gen& g) { return g.c(0.85) ? g.pick<const char*>({"localhost:1234", "127.0.0.1:1234", "[::1]:1234", "localhost"}) : g.pick<const char*>({"example.com", "10.0.0.7:1234", "spectatord.internal", "localhost.example.com:1234", "127.0.0.1.example.com", "evillocalhost:1234", "example.com:127", "notlocalhost", "127.0.0.10:1234", "", "::1", "0.0.0.0:1234", "127.0.0", "[::2]:1234", "[::1", "localhos", "local"}); }
static std::string admin_beh(Gen& g, bool faults) { if (!faults || g.c(0.7)) return g.c(0.8) ? "ok" : "keep"; return g.pick<const char*>({"frag", "rst_mid", "rst_after", "fin_after", "fin_mid", "idle", "slow", "noread", "garbage"}); }
static std::string ct_body(Gen& g) {
  static const char* keys[] = {"mantisJobId", "mantisJobName", "mantisUser", "mantisWorkerIndex", "mantisWorkerNumber", "mantisWorkerStageNumber"};
  double x = g.r.unit();
  if (x < 0.85) {
    if (x < 0.1) return strf("{\"%s\":\"%s\"}", keys[g.r.below(2)], g.c(0.6) ? "" : g.word(4).c_str());   // one tag comes and goes
    std::string o = "{"; int n = (int)g.R(1, 4); std::vector<int> k{0, 1, 2, 3, 4, 5};
    int odd = x > 0.65 ? (int)g.r.below(n) : -1;     // one of the keys is only nearly an allowed one, or its value is no string
    for (int i = 0; i < n; ++i) {
      std::swap(k[i], k[i + g.r.below(6 - i)]);
      std::string key = keys[k[i]], val = "\"" + (g.c(0.25) ? "" : g.word(4)) + "\"";
      if (i == odd) {
        switch (g.r.below(8)) {
          case 0: key += g.pick<const char*>({"2", "s", "Id", ".x", " "}); break;
          case 1: key.resize(g.r.below(key.size())); break;
          case 2: for (auto& ch : key) ch = (char)tolower(ch); break;
          case 3: key = g.pick<const char*>({"nf.", "x", " ", "_"}) + key; break;
          case 4: key = g.pick<const char*>({"mantis", "mantisWorker", "mantisZone", "nf.app", "nf.node", "a", "zz", "statistic"}); break;
          default: val = g.pick<const char*>({"5", "null", "true", "{}", "[]", "1.5", "[\"x\"]"});
        }
      }
      o += strf("%s\"%s\":%s", i ? ", " : "", key.c_str(), val.c_str());
    }
    return o + "}";
  }
  return g.pick<const char*>({"", "{", "[]", "null", "17", "\"x\"", "{\"nf.app\":\"evil\"}", "{\"mantisUser\":5}", "{\"mantisUser\":null}", "{\"mantisUser\":\"ok\",\"other\":\"x\"}", "{\"aaa\":\"x\",\"mantisUser\":\"y\"}", "{\"mantisJobId\":\"a\",\"mantisUser\":{}}", "{\"mantisJobId\":\"z1\",\"mantisWorkerIndex\":[1]}", "{\"mantisUser\":true}", "{}", "[{\"mantisUser\":\"x\"}]", "{\"mantisUser\":\"unclosed"});
}
static std::string del_uri(Gen& g, const MId& m) {
  std::string s = strf("/metrics/%c/", m.type) + m.name;
  auto t = m.tags; for (size_t i = t.size(); i > 1; --i) std::swap(t[i - 1], t[g.r.below(i)]);
  for (auto& kv : t) s += "," + kv.first + "=" + kv.second;
  return s;
}
static void admin_mix(Gen& g, int n, bool dels, bool tags, bool faults) {
  int nc = g.cyc_count();
  for (int i = 0; i < n; ++i) {
    std::vector<std::string> a;
    double x = g.r.unit();
    if (dels && x < 0.55) {
      std::vector<MId*> cand; for (auto& m : g.ids) if (m.type == 'g' || m.type == 'A') cand.push_back(&m);
      if (g.c(0.12) || cand.empty()) a = {"DELETE", g.c(0.5) ? "/metrics/g" : "/metrics/A", admin_host(g), ""};
      else if (g.c(0.2)) {   // names no gauge, or nothing at all
        std::string q = cand[g.r.below(cand.size())]->name;
        a = {"DELETE", g.pick<std::string>({"/metrics/g/", "/metrics/A/", "/metrics/g" + q, "/metrics/A" + q, "/metrics/gx" + q, "/metrics/", "/metrics", "/metrics/c", "/metrics/G", "/metrics/a/" + q, "/metrics/g//" + q, "/metrics/g/,", "/metrics/g/" + q + "/", "/metrics/m/" + q, "/metrics/c/" + q, "/metrics/g/" + q.substr(0, q.size() - 1), "//metrics/g", "/metrics/g?x", "/metrics/ggg", "/Metrics/g", "/config/common_tags", "/config", "/"}), admin_host(g), ""};
        if (g.c(0.1)) a[0] = g.pick<const char*>({"POST", "PUT", "GET", "delete"});
      }
      else { MId& m = *cand[g.r.below(cand.size())]; std::string u = del_uri(g, m); if (g.c(0.1)) u += "x"; if (g.c(0.05)) u[9] = u[9] == 'g' ? 'A' : 'g'; a = {"DELETE", u, admin_host(g), ""}; }
    } else if (tags && x < 0.8) a = {"POST", "/config/common_tags", admin_host(g), ct_body(g)};
    else {
      a = {"GET", g.pick<const char*>({"/", "/config", "/config", "/config/common_tags", "/metrics", "/metrics", "/nope", "/metrics/g"}), admin_host(g), ""};
      if (g.c(0.1)) a[0] = g.pick<const char*>({"PUT", "HEAD", "DELETE", "POST", "FOO"});
      if (a[0] == "DELETE" && a[1].compare(0, 10, "/metrics/g") == 0) a[0] = "GET";
    }
    a.push_back(admin_beh(g, faults));
    if (g.c(0.4) && nc > 0) { a.insert(a.begin(), {std::to_string(g.r.below(nc)), std::to_string(g.R(-100, 400))}); g.p.add(0, "chttp", a); }
    else g.p.add(g.R(g.start_us, g.end_us), "http", a);
  }
}
static void ingest_noise(Gen& g, int n, bool bad) {
  for (int i = 0; i < n; ++i) {
    i64 t = g.R(g.start_us, g.end_us); double x = g.r.unit();
    if (x < 0.4) { std::string d; int k = (int)g.R(1, 4); for (int q = 0; q < k; ++q) { if (q) d += "\n"; d += bad && g.c(0.2) ? g.bad_line(true) : bad && g.c(0.3) ? g.damaged(g.statsd_line((int)g.r.below(3)), true) : g.statsd_line((int)g.r.below(3)); } g.p.add(t, "dg", {"statsd", d}); }
    else if (x < 0.9) {
      std::string d; int k = (int)g.R(1, 6); const char* s = g.c(0.5) ? "udp" : "unix";
      for (int q = 0; q < k; ++q) { if (q) d += g.c(0.1) ? "\n\n" : "\n"; if (bad && g.c(0.25)) d += g.bad_line(false); else if (bad && g.c(0.25)) { MId m = g.ids[g.r.below(g.ids.size())]; if (strchr("CUXTDA", m.type)) m = g.mk('c', 0); d += g.damaged(g.line(m, false), false); } else { MId& m = g.ids[g.r.below(g.ids.size())]; if (strchr("CUX", m.type)) d += g.bad_line(false); else d += g.line(m, true); } }
      if (g.c(0.3)) d += "\n";
      g.p.add(t, "dg", {s, d});
      if (g.c(0.1)) g.p.add(t + g.R(0, 1000), "dg", {s, d});
    } else if (bad) g.p.add(t, "dg", {g.c(0.5) ? "udp" : "unix", g.c(0.4) ? "" : g.bad_line(false)});
  }
}
}  // namespace

Plan plan_generate(const std::string& prop, u64 seed) {
  u64 h = 1469598103934665603ULL; for (char ch : prop) h = (h ^ (u64)ch) * 1099511628211ULL;
  Gen g(seed * 1000003ULL + h);
  g.prop = prop;
  Plan& p = g.p;
  p.set("prop", prop); p.set("seed", (i64)seed);
  g.sched();
  int pn = atoi(prop.c_str() + 1);
  static const std::map<int, std::pair<const char*, const char*>> types = {
    {1, {"ccccc", "TDdt"}}, {2, {"ttdd", "TDc"}}, {3, {"TD", "td"}}, {4, {"CU", "C"}}, {5, {"g", "gc"}}, {6, {"m", "c"}}, {7, {"A", "Ag"}}, {8, {"X", "c"}}, {9, {"cdDTtgmCUX", "A"}}, {20, {"cdgtTDmAU", "c"}}, {18, {"cdDTtgmCUXA", "gA"}}};
  auto ti = types.find(pn);
  if (ti != types.end()) {
    bool lib = g.c(pn == 20 ? 0.7 : 0.6);
#ifdef SIM_NO_LIB
    lib = false;   // the library's interface is not the one libmode.cc uses: the daemon alone
#endif
    bool expiry = pn == 9 ? true : g.c(pn == 5 ? 0.7 : pn == 20 ? 0.1 : 0.35);
    if (lib) {
      g.lib_times(expiry ? (int)g.R(15, 45) : (int)g.R(4, 25), expiry);
      if (pn == 7 || pn == 18 || (pn == 9 && g.c(0.3))) if (g.c(0.6)) p.set("age_limit", g.R(1, 6));
      g.add_ids(ti->second.first, 1, pn == 20 ? 12 : expiry ? 8 : 5);
      if (pn == 9 && g.c(0.1)) { std::string one(1, ti->second.first[g.r.below(9)]); g.add_ids(one, 18, 40); }
      if (g.c(0.5)) g.add_ids(ti->second.second, 1, 3);
      if (pn == 7) g.add_ids("A", 1, 6);
      if (g.c(pn == 20 ? 0.7 : 0.08)) g.add_near((int)g.R(1, 6), g.c(0.6));
      for (auto& m : g.ids) m.thread = (int)g.r.below(g.nth);
      if (expiry && !g.slow && g.c(0.35)) { if (g.c(0.5)) { p.setd("p_stall", 3e-4); p.set("stall_ms", g.pick<i64>({1, 200, 4000})); } g.expiry_races(pn == 20); if (g.c(0.3)) g.activity((int)g.R(5, 30), expiry, false); }
      else g.activity((int)g.R(20, 120), expiry, pn == 20 || g.c(0.2));
      if ((pn == 5 || pn == 7 || pn == 18) && g.c(0.5)) {
        int n = (int)g.R(1, 8);
        for (int i = 0; i < n; ++i) {
          MId& m = g.ids[g.r.below(g.ids.size())]; if (m.type != 'g' && m.type != 'A') continue;
          i64 t = g.hotms.empty() || g.c(0.4) ? g.R(g.start_us, g.end_us) : g.hotms[g.r.below(g.hotms.size())] + g.R(-30, 60);
          if (t < g.start_us) t = g.start_us;
          bool all = g.c(0.2);
          p.add(t, "op", {std::to_string(g.r.below(g.nth)), all ? "=" : "-", g.id_of(m, false), "0", std::to_string((int)m.type)});
          if (g.c(0.6) && !all) { std::string one = g.id_of(m, false); i64 ex; p.add(t + g.R(-20, 20) < g.start_us ? g.start_us : t + g.R(-20, 20), "op", {std::to_string(g.r.below(g.nth)), std::string(1, m.type), one, g.value(m, &ex), std::to_string(ex)}); }
        }
      }
      if ((pn == 7 || pn == 18) && p.num("age_limit", 0) && g.c(0.5)) {   // new age gauges and deletions while the limit is being reached
        i64 t = g.R(g.start_us, g.end_us); int n = (int)g.R(4, 14);
        std::vector<std::string> one; for (auto& m : g.ids) if (m.type == 'A') one.push_back(g.id_of(m, false));
        for (int i = 0; i < n; ++i) {
          i64 u = t + (g.c(0.6) ? 0 : g.R(0, 8));
          if (!one.empty() && g.c(0.35)) { bool all = g.c(0.3); p.add(u, "op", {std::to_string(g.r.below(g.nth)), all ? "=" : "-", one[g.r.below(one.size())], "0", std::to_string((int)'A')}); continue; }
          MId m = g.mk('A', 300 + i); one.push_back(g.id_of(m, false)); i64 ex; std::string v = g.value(m, &ex);
          p.add(u, "op", {std::to_string(g.r.below(g.nth)), "A", one.back(), v, "0"});
        }
      }
      if (expiry || pn == 9 || pn == 18) { int n = (int)g.R(0, 6); for (int i = 0; i < n; ++i) p.add(g.R(g.start_us, g.end_us), "size", {}); }
      if (pn == 3 || pn == 18 || g.c(0.1)) { int n = (int)g.R(0, 5); for (int i = 0; i < n; ++i) p.add(g.hotms[g.r.below(g.hotms.size())] + g.R(0, 50), "cexp", {}); }
      if (pn == 20) {   // new strings introduced by several threads at the same moment
        int n = (int)g.R(2, 12);
        for (int i = 0; i < n; ++i) {
          i64 t = g.R(g.start_us, g.end_us); MId m = g.mk("cdgm"[g.r.below(4)], 100 + i); int k = (int)g.R(2, 4);
          if (g.c(0.6)) m.tags.push_back({"u_" + g.word(4), "v_" + g.word(5)});
          for (int q = 0; q < k; ++q) { i64 ex; std::string v = g.value(m, &ex); p.add(t + (g.c(0.5) ? 0 : g.R(0, 4)), "op", {std::to_string(q % g.nth), std::string(1, m.type), g.id_of(m, true), v, std::to_string(ex)}); }
        }
      }
      return p;
    }
    g.daemon_times((int)g.R(3, expiry ? 30 : 12), expiry);
    g.add_ids(ti->second.first, 1, 5);
    if (g.c(0.5)) g.add_ids(ti->second.second, 1, 3);
    if (g.c(pn == 20 ? 0.7 : 0.08)) g.add_near((int)g.R(1, 6), g.c(0.6));
    if (pn == 7 || pn == 18) if (g.c(0.6)) p.set("age_limit", g.R(1, 6) + 1);
    if (expiry && !g.slow && g.c(0.35)) { if (g.c(0.5)) { p.setd("p_stall", 3e-4); p.set("stall_ms", g.pick<i64>({1, 20, 200})); } g.expiry_races(pn == 20); if (g.c(0.3)) g.activity((int)g.R(5, 30), expiry, false); }
    else g.activity((int)g.R(10, 70), expiry, pn == 20 || g.c(0.2));
    g.around_cycles(0.5, pn == 20);
    if (g.c(0.5)) ingest_noise(g, (int)g.R(1, 20), g.c(0.5));
    if (g.c(0.3) || pn == 18) agg_faults(g, 0.3, g.c(0.5));
    if (pn == 18) { admin_mix(g, (int)g.R(2, 20), true, true, true); if (g.c(0.3)) p.set("sig_off_us", g.R(0, 300)); if (g.c(0.2)) p.set("sig2_us", g.R(0, 3000)); if (g.c(0.3)) p.set("sigint", 1); }
    else if (g.c(0.2)) admin_mix(g, (int)g.R(1, 5), pn == 5 || pn == 7, false, false);
    if (pn == 9 ? g.c(0.6) : g.c(0.05)) { int n = (int)g.R(1, 8); for (int i = 0; i < n; ++i) p.add(g.R(g.start_us, g.end_us), "http", {"GET", "/metrics", "localhost:1234", "", "ok"}); }
    if (g.c(0.25)) p.add(g.R(g.start_us, g.end_us), "rerr", {g.pick<const char*>({"udp", "unix", "statsd"}), g.pick<const char*>({"111", "12", "105"})});
    return p;
  }
  // daemon-level properties
  bool expiry = g.c(0.15);
  g.daemon_times((int)g.R(3, 14), expiry);
  g.add_ids("cdtTDgmCU", 1, pn == 10 ? 12 : 6);
  if (pn == 17 || pn == 21) g.add_ids("gA", 2, 6);
  if (pn == 15) g.add_ids("cdtgmA", 2, 6);
  if (pn == 17 ? g.c(0.6) : g.c(0.1)) g.add_near((int)g.R(1, 5), g.c(0.3));
  int nops = (int)g.R(5, 60);
  g.activity(nops, expiry, g.c(0.3));
  g.around_cycles(0.3, false);
  switch (pn) {
    case 10: {
      if (g.c(0.5)) p.set("batch", g.c(0.7) ? g.R(1, 12) : g.R(13, 90));
      if (g.c(0.3)) { int n = (int)g.R(50, 400); for (int i = 0; i < n; ++i) { MId m = g.mk("cgmt"[g.r.below(4)], 200 + i); std::string d = g.line(m, false); for (int q = 0; q < 8; ++q) { MId m2 = g.mk("cgmt"[g.r.below(4)], 1000 + i * 10 + q); d += "\n" + g.line(m2, false); } p.add(g.R(g.start_us, g.end_us), "dg", {g.c(0.5) ? "udp" : "unix", d}); } p.set("tick", 100); }
      if (g.c(0.3)) { int n = (int)g.R(1, 3); for (int i = 0; i < n; ++i) { i64 t = g.R(g.start_us, g.end_us); p.add(t, "enable", {"0"}); p.add(t + g.R(1, 3) * g.freq * 1000, "enable", {"1"}); } }
      if (g.c(0.4)) agg_faults(g, 0.2, false);
      flag_tags(g);
      if (g.c(0.06)) bulk(g);
      break;
    }
    case 11: agg_faults(g, 0.5, g.c(0.7)); if (g.c(0.6)) p.set("batch", g.R(1, 8)); break;
    case 12: agg_faults(g, 0.6, g.c(0.3)); p.set("status", 1); if (g.c(0.05)) bulk(g); else if (g.c(0.6)) p.set("batch", g.R(1, 12)); if (g.c(0.3)) p.add(g.R(g.start_us, g.end_us), "enable", {"0"}); break;
    case 13: {
      if (g.c(0.7)) agg_faults(g, 0.3, true);
      int n = (int)g.R(0, 4);
      for (int i = 0; i < n; ++i) p.add(g.R(g.start_us, g.end_us), "wall", {std::to_string((g.c(0.5) ? 1 : -1) * (i64)g.lu(1e3, 5e9))});
      if (g.c(0.3)) { i64 t = g.R(g.start_us, g.end_us); p.add(t, "enable", {"0"}); p.add(t + g.R(1, 4) * g.freq * 1000, "enable", {"1"}); }
      if (g.c(0.3)) { p.setd("p_spurious", 0.02); }
      if (g.c(0.2)) ingest_noise(g, (int)g.R(1, 10), true);
      if (g.c(0.2)) { p.setd("p_stall", 1e-4); p.set("stall_ms", 1500); }
      break;
    }
    case 14: {
      ingest_noise(g, (int)g.R(3, 40), true);
      if (g.c(0.6)) agg_faults(g, 0.4, true);
      if (g.c(0.5)) admin_mix(g, (int)g.R(1, 20), false, true, true);
      int n = (int)g.R(0, 6);
      for (int i = 0; i < n; ++i) p.add(g.R(g.start_us, g.end_us), "rerr", {g.pick<const char*>({"udp", "unix", "statsd"}), g.pick<const char*>({"111", "12", "105", "4", "103", "113", "101"})});
      n = (int)g.R(0, 6);
      for (int i = 0; i < n; ++i) {
        double x = g.r.unit(); i64 t = g.R(g.start_us, g.end_us);
        if (x < 0.3) p.add(t, "dg", {g.pick<const char*>({"udp", "unix", "statsd"}), ""});
        else if (x < 0.55) { std::string d; size_t want = (size_t)g.pick<i64>({65507, 65506, 60000, 40000}); while (d.size() + 14 < want) d += strf("c:big:%d\n", (int)g.R(1, 9)); d += "c:big:"; while (d.size() < want) d += "0"; p.add(t, "dg", {"udp", d}); }
        else if (x < 0.75) { std::string d; size_t want = (size_t)g.pick<i64>({65536, 65535, 65537, 70000}); while (d.size() < want) d += "c:big:1\n"; d.resize(want); p.add(t, "dg", {"unix", d}); }
        else p.add(t, "dg", {"statsd", g.pick<const char*>({"sd.h9:1|h|@1e-9", "sd.h9:1|h|@1e-300", "sd.m9:5|ms|@0.000000001", "sd.h9:1|h|@nan", "sd.m9:1|ms|@4.9e-324"})});
      }
      if (g.c(0.3)) { i64 t = g.R(g.start_us, g.end_us); int k = (int)g.R(20, 150); for (int i = 0; i < k; ++i) p.add(t + g.R(0, 500), "dg", {g.c(0.5) ? "udp" : "unix", g.line(g.ids[0].type == 'C' || g.ids[0].type == 'U' ? g.ids.emplace_back(g.mk('c', 90 + (int)g.ids.size())) : g.ids[0], false)}); }
      break;
    }
    case 15: p.set("status", 1); ingest_noise(g, (int)g.R(5, 60), true); if (g.c(0.2)) agg_faults(g, 0.2, false); break;
    case 16: flag_tags(g); admin_mix(g, (int)g.R(2, 16), false, true, g.c(0.3)); if (g.c(0.3)) agg_faults(g, 0.3, g.c(0.3)); if (g.c(0.5)) p.set("batch", g.R(1, 6)); break;
    case 17: if (g.c(0.3)) p.set("age_limit", g.R(2, 5)); admin_mix(g, (int)g.R(3, 24), true, false, g.c(0.3)); ingest_noise(g, (int)g.R(0, 20), false); break;
    case 19: {
      if (g.c(0.5)) agg_faults(g, 0.4, true);
      if (g.c(0.25)) {
        int k = g.c(0.5) ? 0 : (int)g.R(1, 3); p.set("usig", k); p.set("usig_off_us", g.R(0, 150));
        if (k) { g.end_us = std::max<i64>(g.end_us, (30LL * k + 10) * 1000000); p.set("t_calm_us", g.end_us + 1000); }
        if (g.c(0.5)) { p.setd("p_stall", 2e-3); p.set("stall_ms", g.R(1, 3)); }
        if (g.c(0.3)) p.set("sigint", 1);
      }
      else if (g.c(0.15)) {   // the signal meets the expirer
        i64 e = g.pick<i64>({10000, 20000, 30000, 60000}); p.set("exp_ms", e); int k = (int)g.R(1, 3);
        p.add(e * 1000 * k + g.R(-300, 300), "sig", {g.c(0.7) ? "15" : "2"}); g.end_us = std::max<i64>(g.end_us, e * 1000 * k + 5000000); p.set("t_calm_us", g.end_us + 1000);
        if (g.c(0.5)) { p.setd("p_stall", 1e-3); p.set("stall_ms", 1); }
      }
      else if (g.c(0.5)) { i64 t = g.R(0, g.end_us); p.add(t, "sig", {g.c(0.5) ? "15" : "2"}); if (g.c(0.3)) p.add(t + g.R(0, 4000), "sig", {"15"}); }
      else { if (g.c(0.5)) p.set("sig_off_us", g.R(0, 400)); else if (g.c(0.5)) p.set("sig_off_us", g.freq * 1000 + g.R(-300, 500)); if (g.c(0.4)) p.set("sig2_us", g.R(0, 5000)); if (g.c(0.4)) p.set("sigint", 1); }
      if (g.c(0.4)) admin_mix(g, (int)g.R(1, 10), true, true, g.c(0.5));
      p.set("stale", g.c(0.5)); if (g.c(0.2)) p.set("sockdir", 0); if (g.c(0.1)) p.set("unix", 0);
      if (g.c(0.3)) p.set("exp_ms", p.num("freq_ms"));
      break;
    }
    case 21: {
      p.set("status", g.c(0.85));
      if (g.c(0.4)) agg_faults(g, 0.2, g.c(0.5));
      int n = (int)g.R(0, 25);
      i64 span = std::max<i64>(g.end_us, 40000000 + g.R(0, 60000000));
      if (g.c(0.8)) { g.end_us = span; p.set("t_calm_us", g.end_us + 1000); }
      for (int i = 0; i < n; ++i) p.add(g.R(0, g.end_us), g.c(0.6) ? "drops" : "rxq", {std::to_string(g.c(0.1) ? 0 : (i64)g.lu(1, 1e7))});
      if (g.c(0.3)) { g.end_us = 330000000; p.set("t_calm_us", g.end_us + 1000); p.set("freq_ms", 5000); g.freq = 5000; int k = (int)g.R(1, 30); for (int i = 0; i < k; ++i) { MId& m = g.ids[g.r.below(g.ids.size())]; if (!strchr("CUX", m.type)) p.add(g.R(g.start_us, g.end_us), "dg", {"udp", g.line(m, false)}); } }
      if (g.c(0.4)) { p.set("ttl_ms", 5000); p.set("exp_ms", 1000); }
      if (g.c(0.25)) { std::string b; int k = (int)g.R(1, 6); for (int i = 0; i < k; ++i) b += (char)('0' + (g.c(0.4) ? 0 : g.R(1, 6))); p.set("proc_bad", b); }
      break;
    }
    default: break;
  }
  if (pn != 14 && g.c(0.2)) ingest_noise(g, (int)g.R(1, 10), g.c(0.5));
  if (pn != 19 && pn != 11 && g.c(0.1)) p.set("p_spurious", "0.01");
  return p;
}
