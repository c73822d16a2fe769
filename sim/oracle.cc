// Oracles over the recorded history: meter semantics.
#include "oracle.h"
#include "world.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
using namespace rt;
std::vector<Op> g_extra_ops;
std::map<std::string, std::vector<std::pair<size_t, double>>> g_meas;
std::set<std::string> g_known;
std::vector<std::pair<std::string, std::string>> g_fails;   // violations found, one of each class

void fail(const char* props, const char* kind, const char* fmt, ...) {
  char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  std::string k = std::string(props) + ":" + kind;
  for (auto& f : g_fails) if (f.first == k) return;
  rt::trace("VIOLATION %s: %s", k.c_str(), b);
  g_fails.push_back({k, b});
}
i64 slack(i64 m0, i64 m1, u64 s0, u64 s1) {
  i64 r = 2 * kMs + (i64)((s1 > s0 ? s1 - s0 : 0) + 200) * opts.tick;
  for (auto& s : stalls) { i64 a = std::max(m0, s.first), b = std::min(m1, s.second); if (b > a) r += b - a; }
  return r;
}
bool maybe_expired(i64 m0, i64 wa, i64 wb, i64 m1, i64 wl, i64 wh) {
  // a clock set ahead in between may have let it expire even if it was set back later
  i64 d = std::max({m1 - m0, wh - std::min(wa, wb), world::wall_top(m0, m1) - std::min(wa, wb), world::wall_rise(m0, m1)});
  (void)wl;
  return d > H.ttl - 50 * kMs;
}
static bool op_exp(const Op& o, const Cycle& c) { return maybe_expired(o.m0, o.w0, o.w1, c.m1, c.wl, c.wh); }
static bool gap_exp(const Op& a, const Op& b) { return maybe_expired(a.m0, a.w0, a.w1, std::min(b.m1, b.m0 + kSec), b.w0, std::max(b.w0, std::min(b.w1, b.w0 + kSec))); }
bool is_self(const std::string& id) {
  std::string n = id.substr(0, id.find_first_of("|#")); return n.compare(0, 10, "spectator.") == 0 || n.compare(0, 11, "spectatord.") == 0 || n == "ipc.client.call";
}
std::string stat_key(const Op& o, const char* stat, bool dflt) {
  TagMap t = o.tags;
  if (dflt) t.emplace("statistic", stat); else t["statistic"] = stat;
  return id_text(o.name, t);
}
static std::string cyc(size_t k) { return strf("cycle %zu (t=%.3fs)", k, (H.cycles[k].m1 - H.t0) / 1e9); }

// ---- percentile buckets, from the published definition ---------------------------------------
static std::vector<i64>& buckets() {
  static std::vector<i64> v;
  if (v.empty()) {
    v = {1, 2, 3};
    for (int e = 2; e < 62; e += 2) { i64 c = 1LL << e, d = c / 3; __int128 next = ((__int128)c << 2) - d; for (__int128 x = c; x < next && x <= INT64_MAX; x += d) v.push_back((i64)x); }
    v.push_back(INT64_MAX);
  }
  return v;
}
static int bucket_of(i64 x) {
  auto& v = buckets();
  if (x <= 0) return 0;
  return (int)(std::upper_bound(v.begin(), v.end(), x) - v.begin());
}
int oracle_bucket(char type, const Op& o, std::string* tag) {
  if (type == 'T') { i64 ns = (i64)(o.v * 1e9); if (ns < 0) return 0; *tag = strf("T%04X", bucket_of(std::max<i64>(1, std::min<i64>(ns, 24LL * 3600 * kSec)))); return 1; }
  i64 x = (i64)o.v; if (x < 0) return 0;
  *tag = strf("D%04X", bucket_of(x)); return 1;
}
bool bucket_gap(i64 x) {   // in the uneven end of a power-of-four group
  for (int e = 2; e < 62; e += 2) { i64 c = 1LL << e; if (x >= c && x < 4 * c) return x >= c + (4 * c - 1 - c) / (c / 3) * (c / 3) || x >= 4 * c - c / 3; }
  return false;
}

// ---- additive quantities ------------------------------------------------------------------------
static void add(AddMap* m, const std::string& key, const char* cls, const Op& o, double lo, double hi, bool certain) {
  if (hi == 0 && lo == 0) return;
  AddKey& k = (*m)[key];
  if (k.cls.empty()) k.cls = cls;
  k.c.push_back({o.s0, o.s1, lo, hi, certain, o.m0});
}
// an update which came when the meter had been idle for so long that it was about to be removed
static std::string with_c09(const char* cls, std::vector<i64> at, i64 ttl) {
  std::sort(at.begin(), at.end());
  size_t n = at.size();
  bool idle = n >= 2 && at[n - 1] - at[n - 2] > ttl;
  for (size_t i = n; i-- > 1 && at[n - 1] - at[i] < kSec;) if (at[i] - at[i - 1] > ttl) idle = true;
  return idle ? std::string(cls) + ",C09" : cls;
}
static void eval_add(const AddMap& m) {
  for (auto& kv : m) {
    g_known.insert(kv.first);
    auto& cs = kv.second.c;
    const char* cls = kv.second.cls.c_str();
    double tot = 0; for (auto& c : cs) tot += std::fabs(c.hi);
    double eps = 1e-9 * tot + 1e-12;
    auto it = g_meas.find(kv.first);
    static const std::vector<std::pair<size_t, double>> none;
    auto& ms = it == g_meas.end() ? none : it->second;
    // contributions ordered for prefix sums
    std::vector<std::pair<u64, double>> by0, by1;
    for (auto& c : cs) { by0.push_back({c.s0, c.hi}); if (c.certain && c.s1 != ~0ULL) by1.push_back({c.s1, c.lo}); }
    std::sort(by0.begin(), by0.end()); std::sort(by1.begin(), by1.end());
    size_t i0 = 0, i1 = 0, im = 0; double up = 0, lowv = 0, cum = 0;
    for (size_t k = 0; k < H.cycles.size(); ++k) {
      const Cycle& c = H.cycles[k];
      double now = 0;
      while (im < ms.size() && ms[im].first == k) { now += ms[im].second; ++im; }
      cum += now;
      while (i0 < by0.size() && by0[i0].first <= c.s1) up += by0[i0++].second;
      while (i1 < by1.size() && by1[i1].first < c.ws) lowv += by1[i1++].second;
      if (!(cum <= up + eps)) fail(cls, "over-reported", "%s: %s reports %.17g (total so far %.17g) but only %.17g had been accepted", kv.first.c_str(), cyc(k).c_str(), now, cum, up);
      if (!(cum >= lowv - eps)) {
        std::vector<i64> at; for (auto& q : cs) if (q.s1 < c.ws) at.push_back(q.m0);
        fail(with_c09(cls, at, H.ttl).c_str(), "under-reported", "%s: after %s a total of %.17g has been reported but %.17g had been accepted before its measurement started", kv.first.c_str(), cyc(k).c_str(), cum, lowv);
      }
    }
  }
}
// index of the first cycle that certainly measures everything done before step s
static size_t next_full_cycle(u64 s) {
  size_t lo = 0, hi = H.cycles.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (H.cycles[m].ws > s) hi = m; else lo = m + 1; }
  return lo;
}
static bool is_certain(const Op& o) {
  if (o.s1 == ~0ULL) return false;
  size_t k = next_full_cycle(o.s1);
  if (k >= H.cycles.size()) return false;
  return !op_exp(o, H.cycles[k]);
}

// ---- maxima ----------------------------------------------------------------------------------------
struct MaxV { const Op* o; double v; bool certain; };
static void eval_max(const std::string& key, const std::vector<MaxV>& vs, const char* cls, bool gated) {
  g_known.insert(key);
  static const std::vector<std::pair<size_t, double>> none;
  auto it = g_meas.find(key);
  auto& ms = it == g_meas.end() ? none : it->second;
  std::map<size_t, double> at; for (auto& p : ms) at[p.first] = p.second;
  size_t n = H.cycles.size();
  std::map<double, int> uniq; for (auto& v : vs) uniq[v.v] += std::max(1, v.o->rep);
  std::map<double, int> seen;
  for (size_t k = 0; k < n; ++k) {
    const Cycle& c = H.cycles[k];
    u64 pws = k ? H.cycles[k - 1].ws : 0, ps1 = k ? H.cycles[k - 1].s1 : 0;
    bool have = at.count(k);
    double mx = have ? at[k] : 0;
    double need = -INFINITY; bool any_need = false, racing_prev = false, member = false;
    for (auto& v : vs) {
      bool certain_here = v.certain && (k == 0 || v.o->s0 > ps1) && v.o->s1 < c.ws;
      if (certain_here) { any_need = true; need = std::max(need, v.v); }
      if (k && v.o->s0 <= ps1 && v.o->s1 >= pws) racing_prev = true;
      if (!(std::fabs(v.v - mx) <= 1e-12 * std::fabs(v.v)) || v.o->s0 > c.s1) continue;
      bool may = k == 0 || v.o->s1 >= pws;
      if (!may) {   // a value no earlier report could show because its meter may have counted as expired each time
        may = true;
        for (size_t j = 0; j < k && may; ++j) if (H.cycles[j].ws > v.o->s1 && !op_exp(*v.o, H.cycles[j])) may = false;
      }
      if (may) member = true;
    }
    if (any_need && !have && !gated) fail(cls, "max-missing", "%s: %s reports nothing although %.17g was accepted in its interval", key.c_str(), cyc(k).c_str(), need);
    if (!have) continue;
    if (any_need && mx < need - 1e-12 * std::fabs(need)) fail(cls, "max-too-small", "%s: %s reports %.17g although %.17g was accepted in its interval", key.c_str(), cyc(k).c_str(), mx, need);
    if (!member && !(gated && mx == 0 && racing_prev && !any_need)) fail(cls, "max-stale-or-invented", "%s: %s reports %.17g, which was not accepted since the previous report", key.c_str(), cyc(k).c_str(), mx);
    if (member && uniq.count(mx) && uniq[mx] == 1) { if (seen.count(mx) && mx != 0) fail(cls, "max-repeated", "%s: %.17g, accepted once, is reported by %s and by %s", key.c_str(), mx, cyc(seen[mx]).c_str(), cyc(k).c_str()); seen[mx] = (int)k; }
  }
  // values that race with a measurement must surface in it or in the next one
  for (auto& v : vs) {
    if (!v.certain) continue;
    for (size_t k = 0; k + 1 < n; ++k) {
      const Cycle& c = H.cycles[k];
      if (!(v.o->s0 <= c.s1 && v.o->s1 >= c.ws)) continue;
      if (!(v.o->s1 < H.cycles[k + 1].ws)) continue;
      if (op_exp(*v.o, H.cycles[k + 1])) continue;
      bool ok = (at.count(k) && at[k] >= v.v - 1e-12 * std::fabs(v.v)) || (at.count(k + 1) && at[k + 1] >= v.v - 1e-12 * std::fabs(v.v));
      for (size_t j = k; j-- > 0 && v.o->s0 <= H.cycles[j].s1;) if (at.count(j) && at[j] >= v.v - 1e-12 * std::fabs(v.v)) ok = true;
      if (gated && v.v == 0) ok = true;
      if (!ok) {
        std::vector<i64> when; for (auto& q : vs) if (q.o->m0 <= v.o->m0) when.push_back(q.o->m0);
        fail(with_c09(cls, when, H.ttl).c_str(), "max-lost", "%s: %.17g accepted around %s is in neither it nor the next one", key.c_str(), v.v, cyc(k).c_str());
      }
      break;
    }
  }
}

// ---- monotonic sources -----------------------------------------------------------------------------------
static bool close_to(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)) + 1e-12; }
static void eval_mono(const std::string& key, const std::vector<const Op*>& ops, char type, const char* cls) {
  g_known.insert(key);
  std::map<size_t, double> at; auto it = g_meas.find(key); if (it != g_meas.end()) for (auto& p : it->second) at[p.first] = p.second;
  struct S { int prev, last; bool operator<(const S& o) const { return prev != o.prev ? prev < o.prev : last < o.last; } };
  // prev: index of the value at the previous report (-1 none); last: newest index known to be seen or forgotten
  std::set<S> st{{-1, -1}};
  int n = (int)ops.size();
  // pauses so long that the meter was certainly removed: between everything before and everything after
  std::vector<bool> sure((size_t)n, false);
  {
    i64 m1 = INT64_MIN, w1 = INT64_MIN; u64 s1 = 0, s0 = 0; i64 m0 = 0;
    std::vector<i64> nm((size_t)n + 1, INT64_MAX); for (int i = n; i-- > 0;) nm[i] = std::min(nm[i + 1], ops[i]->m0);
    for (int g = 0; g + 1 < n; ++g) {
      m1 = std::max(m1, ops[g]->m1); w1 = std::max(w1, ops[g]->w1); s1 = std::max(s1, ops[g]->s1); m0 = ops[g]->m0; s0 = ops[g]->s0;
      i64 b = nm[g + 1];
      if (s1 == ~0ULL || m1 == INT64_MAX || b <= m1) continue;
      i64 need = H.ttl + H.exp + kSec + slack(m0, b, s0, ops[g + 1]->s1);
      if (b - m1 > need && world::wall_low(std::max(m1, b - H.exp - kSec), b) - w1 > need) sure[g] = true;
    }
  }
  std::string log;
  for (size_t k = 0; k < H.cycles.size(); ++k) {
    const Cycle& c = H.cycles[k];
    bool have = at.count(k); double obs = have ? at[k] : 0;
    int lo = -1, hi = -1;
    for (int i = 0; i < n; ++i) { if (ops[i]->s1 < c.ws) lo = i; if (ops[i]->s0 <= c.s1) hi = i; }
    std::set<S> nx;
    for (auto& s : st) {
      for (int i = std::max(lo, s.last); i <= std::max(hi, s.last); ++i) {
        // possible resets between the last known point and i
        std::vector<int> floors{-2};     // -2: the meter survived
        for (int g = std::max(0, s.last); g < i; ++g) if (gap_exp(*ops[g], *ops[g + 1])) floors.push_back(g);
        int certain = -3; for (int g = std::max(0, s.last); g < i; ++g) if (sure[g]) certain = g;
        for (int f : floors) {
          if (f < certain) continue;
          int prev = s.prev, first = prev;
          if (f != -2) { prev = -1; first = -1; }
          int base = f == -2 ? s.last : f;
          double exp = 0; bool rep = false, zero_ok = false;
          int np = i;
          if (i >= 0) {
            if (type == 'X') {
              // samples in order of timestamp only
              int newest = -1, oldest = -1;
              if (prev >= 0) newest = prev;
              int start = prev >= 0 ? prev + 1 : (f == -2 ? (s.prev == -1 && s.last >= 0 ? std::max(0, s.last) : 0) : f + 1);
              // with no report so far the first sample is remembered
              if (prev < 0) { start = f == -2 ? -s.prev - 1 : f + 1; }
              for (int j = start; j <= i; ++j) { if (newest < 0 || ops[j]->extra > ops[newest]->extra) { if (oldest < 0 && prev < 0 && newest < 0) oldest = j; newest = j; } }
              int from = prev >= 0 ? prev : oldest;
              if (newest >= 0 && from >= 0 && newest != from) {
                exp = (ops[newest]->v - ops[from]->v) / ((ops[newest]->extra - ops[from]->extra) / 1e3);
                rep = exp > 0; np = newest;
              } else np = prev >= 0 ? prev : -1 - start;   // still waiting for a second sample
            } else if (prev >= 0) {
              if (type == 'C') { exp = ops[i]->v - ops[prev]->v; rep = exp > 0; }
              else { u64 d = ops[i]->u - ops[prev]->u; exp = (double)d; rep = d > 0; if (exp > 9.223372e18) { exp = 0; zero_ok = true; } }
            }
          } else np = s.prev;
          (void)base;
          bool ok = rep ? (have && close_to(exp, obs)) || (zero_ok && !have) : !have;
          if (ok) nx.insert({np, i});
        }
      }
      // the meter may count as expired at this measurement: nothing is reported, it may be gone
      if (!have && s.last < n) {
        int cur_i = std::max(hi, s.last);
        if (cur_i >= 0 && op_exp(*ops[cur_i], c)) {
          nx.insert(s);
          nx.insert(type == 'X' ? S{-1 - (cur_i + 1), cur_i} : S{-1, cur_i});
          nx.insert(S{s.prev, cur_i});
        } else if (lo >= 0 && op_exp(*ops[lo], c)) nx.insert(s);
      }
      // a meter removed before the update in progress
    }
    if (nx.empty()) {
      std::string h; for (int i = std::max(0, lo - 3); i <= hi; ++i) h += type == 'U' ? strf(" %llu", (unsigned long long)ops[i]->u) : type == 'X' ? strf(" %g@%lld", ops[i]->v, (long long)ops[i]->extra) : strf(" %.17g", ops[i]->v);
      std::string ps; for (auto& s : st) ps += strf(" %d", s.prev);
      if (have) fail(cls, "wrong-growth", "%s: %s reports growth %.17g, which no order of updates and measurements explains; values handled so far end in%s; index at previous report one of%s", key.c_str(), cyc(k).c_str(), obs, h.c_str(), ps.c_str());
      else fail(cls, "growth-lost", "%s: %s reports no growth although the source grew; values handled so far end in%s; index at previous report one of%s", key.c_str(), cyc(k).c_str(), h.c_str(), ps.c_str());
    }
    st.swap(nx);
    if (st.size() > 64) { while (st.size() > 64) st.erase(st.begin()); }
  }
}

// ---- last-value meters ------------------------------------------------------------------------------------
struct Ev { u64 s0, s1; i64 m0, m1, w0, w1; bool del; double v; i64 extra; bool maybe; };   // maybe: may have had no effect
static void eval_gauge(const std::string& key, const std::vector<Ev>& ev, const char* cls) {
  g_known.insert(key);
  std::map<size_t, double> at; auto it = g_meas.find(key); if (it != g_meas.end()) for (auto& p : it->second) at[p.first] = p.second;
  size_t n = ev.size();
  auto superseded = [&](size_t e, u64 before) { for (size_t f = 0; f < n; ++f) if (f != e && !ev[f].maybe && ev[f].s0 > ev[e].s1 && ev[f].s1 < before) return true; return false; };
  // possible ttls of each update
  std::vector<std::set<i64>> ttl(n);
  std::vector<size_t> ord(n); for (size_t i = 0; i < n; ++i) ord[i] = i;
  std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return ev[a].s0 < ev[b].s0; });
  i64 dflt = std::max<i64>(H.ttl, 5 * kSec);
  std::vector<std::set<i64>> t2;
  for (int pass = 0; pass < 3; ++pass)
    for (size_t i : ord) {
      const Ev& e = ev[i];
      if (e.del) continue;
      if (e.extra > 0) { ttl[i].insert(std::max<i64>(e.extra, 5) * kSec); for (size_t p = 0; p < n; ++p) if (p != i && ev[p].extra > 0 && ev[p].s0 <= e.s1 && ev[p].s1 >= e.s0) ttl[i].insert(std::max<i64>(ev[p].extra, 5) * kSec); continue; }
      bool any_certain = false;
      for (size_t p = 0; p < n; ++p) {
        if (p == i || ev[p].s0 > e.s1) continue;
        if (superseded(p, e.s0)) continue;
        if (ev[p].s1 < e.s0 && !ev[p].maybe) any_certain = true;
        if (ev[p].del) { ttl[i].insert(dflt); if (ev[p].maybe || ev[p].s1 >= e.s0) continue; continue; }
        for (i64 t : ttl[p]) {
          ttl[i].insert(t);
          if (std::max(e.m1 == INT64_MAX ? INT64_MAX / 2 : e.m1 - ev[p].m0, e.w1 == INT64_MAX ? 0 : std::max(e.w1, world::wall_top(ev[p].m0, e.m1)) - ev[p].w0) > t - 50 * kMs) ttl[i].insert(dflt);
        }
      }
      if (!any_certain) ttl[i].insert(dflt);
    }
  for (size_t k = 0; k < H.cycles.size(); ++k) {
    const Cycle& c = H.cycles[k];
    bool have = at.count(k); double obs = have ? at[k] : 0;
    bool init = true, ok = false; std::string cand; double last_nan = 0; i64 arriving = 0;
    // an update that brings a ttl of its own may have set that one, but not yet the value
    for (size_t e = 0; e < n; ++e) if (!ev[e].del && ev[e].extra > 0 && ev[e].s0 <= c.s1 && ev[e].s1 >= c.ws) arriving = std::max<i64>(arriving, 1);
    for (size_t e = 0; e < n; ++e) {
      if (ev[e].s1 < c.ws && !ev[e].maybe) init = false;
      if (ev[e].s0 > c.s1 || superseded(e, c.ws)) continue;
      if (!ev[e].del && std::isnan(ev[e].v)) last_nan = NAN;
      if (ev[e].del) { if (!have) ok = true; cand += " deleted"; if (ev[e].maybe) {} continue; }
      i64 dmin = std::max<i64>(0, c.m0 - std::min(ev[e].m1, c.m1)), dmax = c.m1 - ev[e].m0;
      i64 wa, wb; world::wall_range(ev[e].m0, std::min(ev[e].m1, c.m1), &wa, &wb);
      i64 wmin = c.wl - wb, wmax = std::max(c.wh, world::wall_top(ev[e].m0, c.m1)) - wa;
      for (i64 t : ttl[e]) {
        cand += strf(" %.17g(ttl %llds, age %.3fs..%.3fs)", ev[e].v, (long long)(t / kSec), dmin / 1e9, dmax / 1e9);
        if (have && obs == ev[e].v && std::min(dmin, wmin) <= t + 50 * kMs) ok = true;
        if (!have && std::max(dmax, wmax) > t - 50 * kMs) ok = true;
        if (!have && arriving && std::max(dmax, wmax) > 4 * kSec) ok = true;
      }
    }
    if (init) { cand += " never set"; if (!have) ok = true; }
    if (!have && std::isnan(last_nan)) ok = true;
    if (!ok) {
      if (have) fail(cls, "wrong-gauge", "%s: %s reports %.17g; possible:%s", key.c_str(), cyc(k).c_str(), obs, cand.c_str());
      else {
        std::vector<i64> when; for (auto& q : ev) if (q.s1 < c.ws) when.push_back(q.m0);
        fail(with_c09(cls, when, 5 * kSec).c_str(), "gauge-missing", "%s: %s reports nothing; possible:%s", key.c_str(), cyc(k).c_str(), cand.c_str());
      }
    }
  }
}
static void eval_age(const std::map<std::string, std::vector<Ev>>& all, const char* cls) {
  size_t distinct = all.size();
  for (auto& kv : all) {
    const std::string& key = kv.first; auto& ev = kv.second;
    g_known.insert(key);
    std::map<size_t, double> at; auto it = g_meas.find(key); if (it != g_meas.end()) for (auto& p : it->second) at[p.first] = p.second;
    size_t n = ev.size();
    bool sticky = false; size_t sticky_k = 0;
    for (size_t k = 0; k < H.cycles.size(); ++k) {
      const Cycle& c = H.cycles[k];
      bool have = at.count(k); double obs = have ? at[k] : 0;
      // an update refused because of the limit has no effect: it may only be refused if enough others may exist
      bool limited = (i64)distinct > H.age_limit;
      auto superseded = [&](size_t e) { for (size_t f = 0; f < n; ++f) if (f != e && (!limited || ev[f].del || sticky) && !ev[f].maybe && ev[f].s0 > ev[e].s1 && ev[f].s1 < c.ws) return true; return false; };
      bool init = true, ok = false; std::string cand;
      for (size_t e = 0; e < n; ++e) {
        if (ev[e].s1 < c.ws && !ev[e].maybe) init = false;
        if (ev[e].s0 > c.s1) continue;
        if (superseded(e)) continue;
        if (ev[e].del) { if (!have) ok = true; cand += " deleted"; continue; }
        double lo, hi;
        if (ev[e].v != 0) { double ls = ev[e].v; lo = c.wl / 1e9 - ls; hi = c.wh / 1e9 - ls; }
        else { i64 wa, wb; world::wall_range(ev[e].m0, std::min(ev[e].m1, c.m1), &wa, &wb); lo = (c.wl - wb) / 1e9; hi = (c.wh - wa) / 1e9; }
        cand += strf(" %.9g..%.9g", lo, hi);
        if (have && obs >= lo - 1e-5 && obs <= hi + 1e-5) ok = true;
        if (!have && limited && !sticky) ok = true;
      }
      if (init) { cand += " never set"; if (!have) ok = true; }
      if (!ok) fail(cls, have ? "wrong-age" : "age-missing", "%s: %s reports %s; possible:%s%s", key.c_str(), cyc(k).c_str(), have ? strf("%.12g", obs).c_str() : "nothing", cand.c_str(), sticky ? strf(" (first reported by cycle %zu)", sticky_k).c_str() : "");
      bool del_possible = false;
      for (auto& e : ev) if (e.del && e.s1 >= (k ? H.cycles[k - 1].ws : 0)) del_possible = true;
      if (have && !del_possible) { if (!sticky) sticky_k = k; sticky = true; } else if (del_possible) sticky = false;
    }
  }
  if ((i64)distinct > H.age_limit) {
    for (size_t k = 0; k < H.cycles.size(); ++k) {
      i64 cnt = 0; for (auto& kv : all) { auto it = g_meas.find(kv.first); if (it != g_meas.end()) for (auto& p : it->second) if (p.first == k) ++cnt; }
      if (cnt > H.age_limit) fail(cls, "age-limit", "%s reports %lld age gauges, the limit is %lld", cyc(k).c_str(), (long long)cnt, (long long)H.age_limit);
    }
    // a refusal needs the limit to be possibly reached
    for (auto& kv : all) {
      auto it = g_meas.find(kv.first);
      for (auto& e : kv.second) {
        if (e.del || e.s1 == ~0ULL) continue;
        size_t k = next_full_cycle(e.s1);
        if (k >= H.cycles.size()) continue;
        bool del = false; for (auto& d : kv.second) if (d.del && d.s1 >= e.s0 && d.s0 <= H.cycles[k].s1) del = true;
        if (del) continue;
        bool have = false; if (it != g_meas.end()) for (auto& p : it->second) if (p.first == k) have = true;
        if (have) continue;
        i64 others = 0;
        for (auto& o : all) {
          if (o.first == kv.first) continue;
          bool may = false;
          for (auto& x : o.second) {
            if (x.del || x.s0 > e.s1) continue;
            bool gone = false; for (auto& d : o.second) if (d.del && !d.maybe && d.s0 > x.s1 && d.s1 < e.s0) gone = true;
            if (!gone) may = true;
          }
          if (may) ++others;
        }
        if (others < H.age_limit) fail(cls, "age-refused", "%s: an update was refused although at most %lld of %lld age gauges existed", kv.first.c_str(), (long long)others, (long long)H.age_limit);
      }
    }
  }
}

// ---- all meters -----------------------------------------------------------------------------------------------
void eval_meters() {
  // an identifier that names its statistic is published like the one that gets it by default
  std::set<std::string> named, plain;
  for (auto& o : H.ops) (o.tags.count("statistic") ? named : plain).insert(o.id);
  auto both = [&](const std::string& key, const std::string& name, TagMap t) { if (!named.count(key)) return false; t.erase("statistic"); return plain.count(id_text(name, t)) > 0; };
  for (size_t k = 0; k < H.cycles.size(); ++k) {
    std::set<std::string> seen;
    for (auto& e : H.cycles[k].meas) {
      std::string key = id_text(e.name, e.tags);
      if (!is_clean(e.name)) fail("C20", "unclean-name", "%s: measured name '%s' contains characters that are not allowed", cyc(k).c_str(), e.name.c_str());
      for (auto& t : e.tags) if (!is_clean(t.first) || !is_clean(t.second)) fail("C20", "unclean-tag", "%s: measured tag %s=%s contains characters that are not allowed", cyc(k).c_str(), t.first.c_str(), t.second.c_str());
      if (std::isnan(e.v)) fail("C01,C05,C15", "nan", "%s: %s is reported as not-a-number", cyc(k).c_str(), key.c_str());
      if (!seen.insert(key).second && !H.plan.num("same_name", 0) && !both(key, e.name, e.tags)) fail("C20,C10", "duplicate", "%s reports %s twice", cyc(k).c_str(), key.c_str());
      g_meas[key].push_back({k, e.v});
    }
  }
  AddMap add_m;
  std::map<std::string, std::vector<MaxV>> mx; std::map<std::string, bool> gated; std::map<std::string, const char*> mxcls;
  std::map<std::string, std::vector<const Op*>> mono; std::map<std::string, char> mono_t;
  std::map<std::string, std::vector<Ev>> gauges, ages;
  std::vector<const Op*> dels;
  auto ev_of = [](const Op& o, bool del) { return Ev{o.s0, o.s1, o.m0, o.m1, o.w0, o.w1, del, o.v, o.extra, false}; };
  Op up; // internal operations
  bool lib = H.lib;
  std::vector<Op>& ops = H.ops;
  if (!lib && H.status) {
    Op o; o.type = 'A'; o.name = "spectatord.uptime"; o.id = o.name; o.v = 0; o.s0 = 0; o.s1 = H.cycles.empty() ? ~0ULL : 1; o.m0 = H.t0; o.m1 = H.t0 + 50 * kMs; world::wall_range(o.m0, o.m1, &o.w0, &o.w1); o.src = 4;
    { o.s1 = ~0ULL; o.m1 += slack(o.m0, o.m0 + kSec, 0, 2000); world::wall_range(o.m0, o.m1, &o.w0, &o.w1); for (auto& d : H.dgs) if (d.s_recv) { o.s1 = d.s_recv; o.m1 = d.t_recv; world::wall_range(o.m0, o.m1, &o.w0, &o.w1); break; } }
    ages[stat_key(o, "gauge", true)].push_back(ev_of(o, false));
  }
  for (auto& o : ops) {
    bool cert = is_certain(o);
    switch (o.type) {
      case 'p': case 'e': {
        if (!H.status) break;
        Op x = o; x.name = o.type == 'p' ? "spectatord.parsedCount" : "spectatord.parseErrors"; x.tags.clear();
        add(&add_m, stat_key(x, "count", true), "C15", o, 1, 1, cert);
        break;
      }
      case 'c': if (o.v > 0) add(&add_m, stat_key(o, "count", true), "C01,C15,C20", o, o.v, o.v, cert); break;
      case 't': case 'T': {
        i64 ns = o.u == 1 && o.src == 2 ? (i64)o.v : (i64)(o.v * 1e9);
        if (ns < 0) break;
        const char* cls = o.type == 't' ? "C02" : "C03,C02";
        double r = o.rep;
        add(&add_m, stat_key(o, "count", false), cls, o, r, r, cert);
        add(&add_m, stat_key(o, "totalTime", false), cls, o, r * (ns / 1e9), r * (ns / 1e9), cert);
        double sq = r * ((double)ns * (double)ns) / 1e18;
        add(&add_m, stat_key(o, "totalOfSquares", false), cls, o, sq, sq, cert);
        std::string k = stat_key(o, "max", false); mx[k].push_back({&o, ns / 1e9, cert}); gated[k] = true; mxcls[k] = "C02";
        if (ns == 0) { g_known.insert(stat_key(o, "totalTime", false)); g_known.insert(stat_key(o, "totalOfSquares", false)); }
        if (o.type == 'T') {
          Op b = o; b.tags["percentile"] = strf("T%04X", bucket_of(std::max<i64>(1, std::min<i64>(ns, 24LL * 3600 * kSec))));
          add(&add_m, stat_key(b, "percentile", false), "C03", o, 1, 1, cert);
        }
        break;
      }
      case 'd': case 'D': {
        double v = o.type == 'D' ? (double)(i64)o.v : o.v;
        if (!(v >= 0)) break;
        const char* cls = is_self(o.name) ? "C21" : o.type == 'd' ? "C02" : "C03,C02";
        double r = o.rep;
        add(&add_m, stat_key(o, "count", false), cls, o, r, r, cert);
        add(&add_m, stat_key(o, "totalAmount", false), cls, o, r * v, r * v, cert);
        add(&add_m, stat_key(o, "totalOfSquares", false), cls, o, r * v * v, r * v * v, cert);
        std::string k = stat_key(o, "max", false); mx[k].push_back({&o, v, cert}); gated[k] = true; mxcls[k] = "C02";
        if (v == 0) { g_known.insert(stat_key(o, "totalAmount", false)); g_known.insert(stat_key(o, "totalOfSquares", false)); }
        if (o.type == 'D') {
          Op b = o; b.tags["percentile"] = strf("D%04X", bucket_of((i64)v));
          add(&add_m, stat_key(b, "percentile", false), "C03", o, 1, 1, cert);
        }
        break;
      }
      case 'm': { if (std::isnan(o.v)) break; std::string k = stat_key(o, "max", false); mx[k].push_back({&o, o.v, cert}); gated[k] = false; mxcls[k] = "C06"; break; }
      case 'C': case 'U': { std::string k = stat_key(o, "count", true); mono[k].push_back(&o); mono_t[k] = o.type; break; }
      case 'X': { std::string k = stat_key(o, "count", false); mono[k].push_back(&o); mono_t[k] = 'X'; break; }
      case 'g': gauges[stat_key(o, "gauge", true)].push_back(ev_of(o, false)); break;
      case 'A': ages[stat_key(o, "gauge", true)].push_back(ev_of(o, false)); break;
      case '-': case '=': dels.push_back(&o); break;
      default: break;
    }
  }
  for (auto* d : dels) {
    auto& m = d->extra == 'A' ? ages : gauges;
    for (auto& kv : m) {
      Op tmp = *d;
      if (d->type == '=' || stat_key(*d, "gauge", true) == kv.first) { Ev e = ev_of(*d, true); e.maybe = d->rep == 0; kv.second.push_back(e); }
    }
  }
  for (auto& o : g_extra_ops) add(&add_m, o.id, o.cls, o, o.lo, o.hi, is_certain(o));
  for (auto& kv : g_meas) {   // without a contribution nothing may be reported for these
    if (kv.first.compare(0, 23, "spectator.measurements|") == 0 && kv.first.find("statistic=count") != std::string::npos) { auto& k = add_m[kv.first]; if (k.cls.empty()) k.cls = "C12"; }
    if (kv.first.compare(0, 16, "ipc.client.call#") == 0) { auto& k = add_m[kv.first]; if (k.cls.empty()) k.cls = "C21"; }
  }
  eval_add(add_m);
  for (auto& kv : mx) eval_max(kv.first, kv.second, is_self(kv.first) ? "C21" : mxcls[kv.first], gated[kv.first]);
  for (auto& kv : mono) eval_mono(kv.first, kv.second, mono_t[kv.first], is_self(kv.first) ? "C21" : mono_t[kv.first] == 'X' ? "C08" : "C04");
  for (auto& kv : gauges) eval_gauge(kv.first, kv.second, dels.empty() ? "C05" : "C05,C17");
  if (!ages.empty()) eval_age(ages, dels.empty() ? "C07" : "C07,C17");
  for (auto& kv : g_meas) {
    if (g_known.count(kv.first)) continue;
    std::string name = kv.first.substr(0, kv.first.find('|'));
    if (is_self(name)) continue;
    fail("C01,C02,C03,C15,C20", "invented", "%s reports %s = %.17g, which no accepted line or call explains", cyc(kv.second[0].first).c_str(), kv.first.c_str(), kv.second[0].second);
  }
}
static void eval_sizes();
void evaluate() {
  eval_publish();
  eval_admin();
  eval_self();
  eval_meters();
  eval_cadence();
  eval_sizes();
  if (!g_fails.empty()) rt::finish_run("violation", g_fails[0].first, g_fails[0].second);
}
static void eval_sizes() {
  if (H.lib && !H.sizes.empty()) {
    // registry size: at least the certainly live meters, at most those updated recently enough
    std::map<std::string, i64> gttl;   // the longest ttl each gauge was given
    for (auto& o : H.ops) if (o.type == 'g') { auto& g = gttl[o.id]; g = std::max<i64>(g, o.extra); }
    for (auto& so : H.sizes) {
      std::map<std::string, std::pair<bool, bool>> live;   // certain, possible
      i64 wl, wh; world::wall_range(so.m0, so.m1, &wl, &wh);
      for (auto& o : H.ops) {
        if (o.s0 > so.s1 || strchr("pe-=", o.type)) continue;
        auto one = [&](char kind, const std::string& id) {
          auto& l = live[std::string(1, kind) + id];
          bool age = kind == 'A';
          bool del = false; for (auto& d : H.ops) if ((d.type == '-' || d.type == '=') && d.extra == kind && d.s0 <= so.s1 && d.s1 >= o.s0 && (d.type == '=' || d.id == o.id)) del = true;
          i64 t = H.ttl; bool own = kind == 'g';
          i64 tmin = own ? 5 * kSec : t, tmax = own ? std::max<i64>({t, 5 * kSec, gttl[o.id] * kSec}) : t;
          bool effective = strchr("tTdD", o.type) ? o.v >= 0 : o.type == 'c' ? o.v > 0 : !std::isnan(o.v);   // ignored values may leave the meter as it was
          if (o.s1 < so.s0 && !del && effective && (age || std::max(so.m1 - o.m0, world::wall_rise(o.m0, so.m1)) < tmin - 50 * kMs)) l.first = true;
          if (age || std::min(so.m0 - o.m1, world::wall_low(std::max(o.m1, so.m0 - H.exp - kSec), so.m1) - o.w1) <= tmax + H.exp + kSec + slack(o.m0, so.m1, o.s0, so.s1)) l.second = true;
        };
        char kind = o.type;
        std::string tag;
        if (kind == 'T' || kind == 'D') { one(kind == 'T' ? 't' : 'd', o.id); if (oracle_bucket(kind, o, &tag)) one('c', o.id + "|" + tag); }
        else if (kind == 'A') { if (H.age_limit > 900) one('A', o.id); else live["A" + o.id].second = true; }
        else one(kind, o.id);
      }
      // the registry keeps one distribution of its own; the publisher makes four counters at first
      size_t lo = 0, hi = std::min(so.m0 - H.t0, world::wall_low(std::max(H.t0, so.m0 - H.exp - kSec), so.m1) - world::wall_low(H.t0, H.t0)) > H.ttl + H.exp + 2 * kSec + slack(H.t0, so.m1, 0, so.s1) ? 1 : 5;
      for (auto& kv : live) { lo += kv.second.first; hi += kv.second.second; }
      if (so.n < lo) fail("C09", "registry-too-small", "at t=%.3fs the registry holds %zu meters although at least %zu were active within their ttl", (so.m0 - H.t0) / 1e9, so.n, lo);
      if (so.n > hi) fail("C09", "registry-too-large", "at t=%.3fs the registry holds %zu meters although at most %zu were updated recently enough to be kept", (so.m0 - H.t0) / 1e9, so.n, hi);
    }
  }
}
