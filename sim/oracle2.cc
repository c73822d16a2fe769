// Oracles over the recorded history: publishing, cadence, ingestion, administration, self-metrics.
#include "oracle.h"
#include "world.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
using namespace rt;
static std::string cyc(size_t k) { return strf("cycle %zu (t=%.3fs)", k, (H.cycles[k].m1 - H.t0) / 1e9); }
static double ts(i64 t) { return (t - H.t0) / 1e9; }
struct Cyc2 { bool common_known = false; TagMap common; i64 d_end = 0; bool complete = false; std::vector<size_t> att; };
static std::vector<Cyc2> c2;
static i64 agg_lat() { return H.plan.num("lat_us", 200) * kUs; }
static bool retry_status(int s) { return s == 429 || (s >= 500 && s < 600); }
static bool timeout_kind(const std::string& b) { return b == "hang" || b == "stopread"; }

// ---- C10 C11 C12 ---------------------------------------------------------------------------------
static const char* kAdminKeys[] = {"mantisJobId", "mantisJobName", "mantisUser", "mantisWorkerIndex", "mantisWorkerNumber", "mantisWorkerStageNumber"};
static bool common_key(const std::string& k) { if (H.common.count(k)) return true; for (auto a : kAdminKeys) if (k == a) return true; return false; }
static std::string tags_text(const TagMap& t) { std::string s; for (auto& kv : t) s += (s.empty() ? "" : ",") + kv.first + "=" + kv.second; return "{" + s + "}"; }
struct Group { std::vector<size_t> a; bool fuzzy = false; const std::string* raw = nullptr; SmileDoc doc; bool visible = false; };
static int expected_op(const TagMap& t) {
  auto it = t.find("statistic");
  if (it == t.end()) return 10;
  static const std::set<std::string> add{"count", "totalAmount", "totalTime", "totalOfSquares", "percentile"};
  return add.count(it->second) ? 0 : 10;
}
static void account(const char* id, const char* error, double lo, double hi, const Attempt& first, const Attempt& last, const Cycle* next) {
  if (!H.status || hi <= 0) return;
  TagMap t{{"id", id}, {"owner", "spectatord"}, {"statistic", "count"}};
  if (error) t["error"] = error;
  Op o; o.type = 'c'; o.id = id_text("spectator.measurements", t); o.cls = "C12"; o.lo = lo; o.hi = hi;
  o.s0 = first.s_open; o.s1 = last.closed ? last.s_close : ~0ULL; o.m0 = first.t_open; o.m1 = next ? next->m1 : INT64_MAX;
  i64 x; world::wall_range(o.m0, o.m0, &o.w0, &x); if (next) world::wall_range(o.m0, o.m1, &o.w0, &o.w1);
  g_extra_ops.push_back(o);
}
static void log_attempt(const Attempt& a, int k, bool fin, int status, double lo, u64 s1, i64 m1) {
  if (!H.status) return;
  static const char* names[] = {"initial", "second", "third_up"};
  Op o; o.type = 'c'; o.id = strf("ipc.client.call#%s,%s,%d", names[std::min(k, 2)], fin ? "true" : "false", status); o.cls = "C21"; o.lo = lo; o.hi = 1;
  o.s0 = a.s_open; o.s1 = s1; o.m0 = a.t_open; o.m1 = m1; i64 x; world::wall_range(o.m0, o.m0, &o.w0, &x);
  if (m1 != INT64_MAX) world::wall_range(o.m0, m1, &o.w0, &o.w1);
  g_extra_ops.push_back(o);
}
void eval_publish() {
  c2.assign(H.cycles.size(), {});
  if (H.lib) return;
  i64 total = H.conn_to + H.read_to;
  // attempts by cycle
  size_t k = 0; bool any = false;
  for (size_t i = 0; i < H.attempts.size(); ++i) {
    while (k + 1 < H.cycles.size() && H.cycles[k + 1].s1 <= H.attempts[i].s_open) { ++k; }
    if (H.cycles.empty() || H.attempts[i].s_open < H.cycles[0].s1) { fail("C10", "unexpected-request", "a connection to the aggregator was opened at t=%.3fs before anything was measured", ts(H.attempts[i].t_open)); continue; }
    c2[k].att.push_back(i); any = true;
  }
  (void)any;
  for (k = 0; k < H.cycles.size(); ++k) {
    const Cycle& c = H.cycles[k]; Cyc2& d = c2[k];
    d.complete = H.exited || k + 1 < H.cycles.size();
    d.d_end = c.m1;
    for (size_t i : d.att) { const Attempt& a = H.attempts[i]; d.d_end = std::max(d.d_end, a.closed ? a.t_close : a.t_open); }
    // a sender stalled for about the whole timeout may give up a batch without ever reaching the aggregator
    i64 c_end = k + 1 < H.cycles.size() ? H.cycles[k + 1].m0 : std::max(d.d_end, now_ns);
    bool hidden = slack(c.m0, c_end, 0, 0) * 4 > H.conn_to;
    size_t n = c.meas.size();
    if (!c.enabled || n == 0 || !H.uri) {
      if (!d.att.empty()) fail("C10", "sent-while-disabled", "%s: %zu connections were made to the aggregator although %s", cyc(k).c_str(), d.att.size(), !c.enabled ? "publishing was disabled" : "nothing was measured");
      continue;
    }
    // batches: attempts of one sender thread, in order
    std::map<int, std::vector<size_t>> by; for (size_t i : d.att) by[H.attempts[i].tid].push_back(i);
    std::vector<Group> gs; bool fuzzy = !d.complete;
    for (auto& kv : by) {
      auto& v = kv.second; size_t p = 0;
      while (p < v.size()) {
        Group g; 
        for (;;) {
          const Attempt& a = H.attempts[v[p]]; g.a.push_back(v[p]);
          const Attempt* nx = p + 1 < v.size() ? &H.attempts[v[p + 1]] : nullptr;
          int att = (int)g.a.size();
          i64 sl = slack(a.t_open, nx ? nx->t_open : a.t_close ? a.t_close : now_ns, a.s_open, nx ? nx->s_open : a.s_close ? a.s_close : steps);
          bool r = false, t = false;    // may be tried again / may be final
          // a sender stalled for about the connect timeout may fail without ever reaching the aggregator
          if (slack(p ? std::min(H.attempts[v[p - 1]].t_open, a.t_open) : c.m0, nx ? nx->t_open : a.t_open, a.s_open, a.s_open) * 4 > H.conn_to) g.fuzzy = true;
          bool got = a.resp_sent;
          if (got && a.t_resp + agg_lat() + sl > a.t_open + total) { r = t = true; if (!retry_status(a.status)) { g.fuzzy = true; } else if (att < 3) g.fuzzy = true; else g.fuzzy = true; }
          else if (got) { r = retry_status(a.status); t = !r; }
          else if (timeout_kind(a.beh)) { t = true; if (H.plan.num("lat_us", 200) * 4 * kUs + sl > H.conn_to) r = true; }
          else {
            // a failure below HTTP; certainly within the total timeout if the next step followed soon enough
            i64 e = a.closed ? a.t_close : now_ns; if (nx) e = std::min(e, nx->t_open);
            r = true;
            if (e >= a.t_open + total - 5 * kMs) t = true;
            if (!a.closed && !nx) t = true;
          }
          if (g.fuzzy && r) t = true;
          ++p;
          if (att == 3) break;
          if (!nx) { if (r && !t && d.complete) fail("C11", "not-retried", "%s: attempt %d of a batch on connection %llu (%s, %s) failed at t=%.3fs and was not repeated", cyc(k).c_str(), att, (unsigned long long)a.conn, a.beh.c_str(), got ? strf("status %d", a.status).c_str() : "no answer", ts(a.t_close)); break; }
          bool same;
          if (r && !t) same = true;
          else if (!r && t) same = false;
          else { same = a.req && nx->req ? a.raw == nx->raw : true; if (!(a.req && nx->req)) fuzzy = true; }
          if (!r && nx->req && a.req && a.raw == nx->raw) { fail("C11", "retried-after-final", "%s: a batch answered %s was sent again %.3fs later", cyc(k).c_str(), got ? strf("with status %d", a.status).c_str() : "by a stalled server until the total timeout", (nx->t_open - a.t_open) / 1e9); same = false; }
          if (!same) break;
          if (a.req && nx->req && a.raw != nx->raw) { fail("C11", "payload-changed", "%s: attempt %d carries a payload different from attempt %d (%zu and %zu bytes), or the batch was given up after %s", cyc(k).c_str(), att + 1, att, nx->raw.size(), a.raw.size(), got ? strf("status %d", a.status).c_str() : a.beh.c_str()); break; }
          if (got && a.req && !g.fuzzy) {
            i64 w = nx->t_open - a.t_resp, need = 200 * kMs << (att - 1);
            if (w < need) fail("C11", "retry-too-soon", "%s: attempt %d followed %.3f ms after status %d, at least %lld ms are required", cyc(k).c_str(), att + 1, w / 1e6, a.status, (long long)(need / kMs));
            if (w > need + agg_lat() * 2 + 20 * kMs + sl) fail("C11,C13", "retry-too-late", "%s: attempt %d followed %.3f ms after status %d", cyc(k).c_str(), att + 1, w / 1e6, a.status);
          } else if (!got && nx->t_open - a.t_open > total + 20 * kMs + sl) fail("C11,C13", "attempt-too-long", "%s: the attempt after the one on connection %llu (%s) followed only after %.3f s; connect and read timeouts add up to %.3f s", cyc(k).c_str(), (unsigned long long)a.conn, a.beh.c_str(), (nx->t_open - a.t_open) / 1e9, total / 1e9);
        }
        const Attempt& l = H.attempts[g.a.back()];
        if (l.closed) {
          i64 sl = slack(l.t_open, l.t_close, l.s_open, l.s_close);
          if (l.t_close - l.t_open > total + 20 * kMs + sl) fail("C11,C13", "attempt-too-long", "%s: the attempt on connection %llu (%s) took %.3f s; connect and read timeouts add up to %.3f s", cyc(k).c_str(), (unsigned long long)l.conn, l.beh.c_str(), (l.t_close - l.t_open) / 1e9, total / 1e9);
        }
        for (size_t i : g.a) if (H.attempts[i].req) { g.visible = true; g.raw = &H.attempts[i].raw; }
        if (g.fuzzy) fuzzy = true;
        gs.push_back(std::move(g));
      }
    }
    // payloads against what was measured
    std::map<std::string, double> want; std::set<std::string> dup;
    for (auto& e : c.meas) { auto key = id_text(e.name, e.tags); if (!want.emplace(key, e.v).second) dup.insert(key); }
    std::map<std::string, std::pair<size_t, size_t>> seen_raw;   // payload -> group
    std::map<std::string, size_t> got; size_t visible_n = 0, short_batches = 0; bool all_vis = !hidden; if (hidden) fuzzy = true;
    for (size_t gi = 0; gi < gs.size(); ++gi) {
      Group& g = gs[gi];
      if (!g.visible) { all_vis = false; continue; }
      auto sr = seen_raw.emplace(*g.raw, std::make_pair(k, gi));
      if (!sr.second) { fail("C10,C11", "sent-again", "%s: a payload of %zu bytes already sent was sent again as a batch of its own", cyc(k).c_str(), g.raw->size()); continue; }
      std::string o, err;
      if (!gunzip(*g.raw, &o, &err) || !decode_payload(o, &g.doc, &err)) { fail("C10", "bad-payload", "%s: a request of %zu bytes is not a well-formed batch: %s", cyc(k).c_str(), g.raw->size(), err.c_str()); all_vis = false; g.visible = false; fuzzy = true; continue; }
      size_t m = g.doc.entries.size(); visible_n += m;
      if ((i64)m > H.batch) fail("C10", "batch-too-large", "%s: a batch carries %zu measurements, the limit is %lld", cyc(k).c_str(), m, (long long)H.batch);
      if (m == 0) fail("C10", "empty-batch", "%s: an empty batch was sent", cyc(k).c_str());
      if ((i64)m < H.batch) ++short_batches;
      for (auto& e : g.doc.entries) {
        TagMap own, com; for (auto& t : e.tags) (common_key(t.first) ? com : own).insert(t);
        if (!d.common_known) { d.common_known = true; d.common = com; }
        else if (d.common != com) fail("C16,C10", "mixed-common-tags", "%s: published with common tags %s and with %s", cyc(k).c_str(), tags_text(d.common).c_str(), tags_text(com).c_str());
        std::string key = id_text(e.name, own);
        auto w = want.find(key);
        if (w == want.end()) { fail("C10", "invented-entry", "%s: published %s = %.17g, which was not measured", cyc(k).c_str(), key.c_str(), e.v); continue; }
        if (memcmp(&w->second, &e.v, 8) && !(w->second == e.v) && !dup.count(key)) fail("C10", "wrong-value", "%s: published %s = %.17g, measured %.17g", cyc(k).c_str(), key.c_str(), e.v, w->second);
        if (e.op != expected_op(own)) fail("C10", "wrong-op", "%s: published %s with operation %d instead of %d", cyc(k).c_str(), key.c_str(), e.op, expected_op(own));
        if (got[key]++ && !dup.count(key)) fail("C10", "published-twice", "%s: %s is published twice", cyc(k).c_str(), key.c_str());
      }
    }
    size_t need = (n + (size_t)H.batch - 1) / (size_t)H.batch;
    if (!fuzzy) {
      if (gs.size() != need) fail(gs.size() > need ? "C10,C11" : "C10,C13", gs.size() > need ? "too-many-batches" : "batch-missing", "%s: %zu measurements in batches of %lld need %zu batches, %zu were attempted", cyc(k).c_str(), n, (long long)H.batch, need, gs.size());
      if (short_batches > 1) fail("C10", "short-batches", "%s: %zu batches are smaller than the configured size %lld", cyc(k).c_str(), short_batches, (long long)H.batch);
      if (all_vis && visible_n < n) { std::string miss; for (auto& w : want) if (!got.count(w.first)) { miss = w.first; break; } fail("C10", "not-published", "%s: %s was measured but is in none of the %zu batches", cyc(k).c_str(), miss.c_str(), gs.size()); }
    }
    // accounting
    const Cycle* next = k + 1 < H.cycles.size() ? &H.cycles[k + 1] : nullptr;
    Attempt firsta, lasta; bool have = false;
    u64 send_s1 = 0; i64 send_m1 = 0;
    for (size_t i : d.att) { const Attempt& a = H.attempts[i]; if (!have) { firsta = a; lasta = a; have = true; } if (!a.closed || a.s_close > lasta.s_close) lasta = a; if (!a.closed) { lasta = a; break; } }
    if (have && lasta.closed) { send_s1 = lasta.s_close; send_m1 = next ? next->m1 : lasta.t_close; } else { send_s1 = ~0ULL; send_m1 = INT64_MAX; }
    if (have) {
      size_t invis = n > visible_n ? n - visible_n : 0; bool some_invis = false;
      for (auto& g : gs) {
        const Attempt& a = H.attempts[g.a.back()];
        for (size_t q = 0; q < g.a.size(); ++q) {
          const Attempt& x = H.attempts[g.a[q]]; bool fin = q + 1 == g.a.size();
          if (!fuzzy) log_attempt(x, (int)q, fin, x.resp_sent ? x.status : -1, 1, send_s1, send_m1);
          else for (int st : {x.resp_sent ? x.status : -1, -1}) for (int f = 0; f < 2; ++f) for (int kk = 0; kk < 3; ++kk) log_attempt(x, kk, f, st, 0, send_s1, send_m1);
        }
        if (!g.visible) { some_invis = true; continue; }
        double m = (double)g.doc.entries.size();
        double lo = fuzzy ? 0 : 1;
        auto acc = [&](const char* id, const char* err, double x) { account(id, err, x * lo, x, firsta, lasta, next); };
        if (fuzzy) acc("dropped", "other", m);
        if (!a.resp_sent) { if (!fuzzy) acc("dropped", "other", m); }
        else if (a.status == 200) acc("sent", nullptr, m);
        else if (a.status > 200 && a.status < 500) {
          JV j; double e = -1;
          if (json_parse(a.rbody, &j) && j.t == JV::Obj) { auto* x = j.get("errorCount"); if (x && x->t == JV::Num && x->n >= 0 && x->n == std::floor(x->n)) e = std::min(m, x->n); }
          if (e >= 0) { acc("dropped", "validation", e); acc("sent", nullptr, m - e); }
          else if (!fuzzy) acc("dropped", "other", m);
        } else acc("dropped", "http-error", m);
        // an attempt that is not the last one may in truth have been the last one
        if (fuzzy) for (size_t i : g.a) { const Attempt& x = H.attempts[i]; if (x.resp_sent && x.status == 200 && &x != &a) acc("sent", nullptr, m); if (x.resp_sent && x.status >= 500 && &x != &a) acc("dropped", "http-error", m); }
      }
      if (some_invis && invis) account("dropped", "other", fuzzy ? 0 : (double)invis, (double)invis, firsta, lasta, next);
    }
    // with a healthy aggregator everything is delivered
    for (auto& g : gs) {
      const Attempt& f = H.attempts[g.a.front()], &l = H.attempts[g.a.back()];
      if (f.t_open < H.t_calm + kMs || !l.closed) continue;
      i64 sl = slack(f.t_open, l.t_close, f.s_open, l.s_close);
      if (sl + 6 * agg_lat() > H.conn_to || H.t_signal) { if (sl + 6 * agg_lat() > std::min(H.conn_to, H.read_to)) continue; }
      if (!(l.resp_sent && l.status == 200)) fail("C13,C10", "not-delivered", "%s: a batch sent after all faults had stopped was not delivered", cyc(k).c_str());
    }
  }
  // what the daemon says about its requests: fold the many tags into one key per attempt number and status
  for (size_t q = 0; q < H.cycles.size(); ++q) {
    std::map<std::string, double> sum;
    for (auto& e : H.cycles[q].meas) {
      if (e.name != "ipc.client.call") continue;
      auto s = e.tags.find("statistic"); if (s == e.tags.end() || s->second != "count") continue;
      auto tg = [&](const char* x) { auto i = e.tags.find(x); return i == e.tags.end() ? std::string("?") : i->second; };
      sum[strf("ipc.client.call#%s,%s,%s", tg("ipc.attempt").c_str(), tg("ipc.attempt.final").c_str(), tg("http.status").c_str())] += e.v;
    }
    for (auto& x : sum) g_meas[x.first].push_back({q, x.second});
  }
}

// ---- C13 C14 C19 ---------------------------------------------------------------------------------
void eval_cadence() {
  if (H.lib) return;
  i64 end = H.t_signal ? H.t_signal : H.exited ? H.t_exit : now_ns;
  u64 end_s = H.t_signal ? H.s_signal : steps;
  if (H.uri) {
    for (size_t k = 0; k <= H.cycles.size(); ++k) {
      bool last = k == H.cycles.size();
      i64 m = last ? end : H.cycles[k].m1; u64 s = last ? end_s : H.cycles[k].s1;
      if (!last && H.t_signal && m > H.t_signal) continue;
      i64 limit, from; u64 from_s;
      if (k == 0) { from = H.t0; from_s = 0; limit = H.t0 + kSec; }
      else {
        if (H.cycles[k - 1].m1 > end) continue;
        if (last && !c2[k - 1].att.empty()) { bool open = false; for (size_t i : c2[k - 1].att) if (!H.attempts[i].closed || H.attempts[i].t_close > end) open = true; if (open) continue; }
        from = H.cycles[k - 1].m1; from_s = H.cycles[k - 1].s1; limit = std::max(from + H.freq, c2[k - 1].d_end) + 20 * kMs;
        // requests that follow one another within the cycle
        if (last) limit += 500 * kMs + 4 * agg_lat();
      }
      if (m > limit + slack(from, m, from_s, s)) fail("C13", "late-cycle", "%s; the previous one %s at t=%.3fs, its deliveries ended at t=%.3fs, the period is %.3fs", last ? strf("no reporting cycle followed until t=%.3fs", ts(m)).c_str() : strf("%s was late", cyc(k).c_str()).c_str(), k ? "was" : "would be the start", ts(from), ts(k ? c2[k - 1].d_end : from), H.freq / 1e9);
      if (!last && k > 0) {
        i64 start = H.cycles[k - 1].timed ? H.cycles[k - 1].m0 : std::max(k > 1 ? c2[k - 2].d_end : H.t0, H.cycles[k - 1].m0);
        if (m < start + H.freq - 2 * kMs) fail("C13", "early-cycle", "%s was measured %.6fs after the previous one started, the period is %.3fs", cyc(k).c_str(), (m - start) / 1e9, H.freq / 1e9);
      }
    }
  } else if (!H.attempts.empty()) fail("C10", "unexpected-request", "connections were made although no aggregator is configured");
  // datagrams
  for (auto& d : H.dgs) {
    if (d.rc == 1) {
      i64 sl = slack(H.t0, d.t_sent, 0, d.s_sent);
      bool conf = d.sock == 1 ? H.plan.num("unix", 1) : d.sock == 2 ? H.plan.num("statsd", 1) : 1;
      if (conf && d.t_sent > H.t0 + kSec + sl && (!H.t_signal || d.t_sent < H.t_signal)) fail("C19,C14", "not-serving", "a datagram sent to the %s socket at t=%.3fs found no socket", d.sock == 1 ? "unix" : d.sock == 2 ? "statsd" : "udp", ts(d.t_sent));
      continue;
    }
    if (d.rc) continue;
    i64 until = d.t_done ? d.t_done : end; u64 us = d.t_done ? d.s_done : end_s;
    if (H.t_signal && until > H.t_signal) { until = H.t_signal; us = H.s_signal; }
    if (until - d.t_sent > 500 * kMs + slack(d.t_sent, until, d.s_sent, us)) fail("C14", "slow-datagram", "a datagram of %zu bytes sent to the %s socket at t=%.3fs was %s %.3fs later", d.data.size(), d.sock == 1 ? "unix" : d.sock == 2 ? "statsd" : "udp", ts(d.t_sent), d.t_done ? "completely handled only" : d.t_recv ? "received but not completely handled" : "still not received", (until - d.t_sent) / 1e9);
  }
  // shutdown
  if (H.exited) {
    if (!H.t_signal) fail("C19", "unprompted-exit", "the daemon ended by itself at t=%.3fs", ts(H.t_exit));
    else {
      if (H.exit_code != 0) fail("C19", "exit-code", "main returned %d after the termination signal", H.exit_code);
      i64 lim = H.t_signal; size_t after = 0;
      for (size_t k = 0; k < H.cycles.size(); ++k) {
        if (H.cycles[k].m0 > H.t_signal + 500 * kMs + slack(H.t_signal, H.cycles[k].m0, H.s_signal, H.cycles[k].ws)) ++after;
        else lim = std::max(lim, c2[k].d_end);
      }
      if (after) fail("C19", "cycle-after-signal", "%zu reporting cycles were started after the termination signal", after);
      if (H.t_exit > lim + kSec + slack(H.t_signal, H.t_exit, H.s_signal, steps)) fail("C19", "slow-exit", "the termination signal came at t=%.3fs, the last delivery in flight ended at t=%.3fs, the daemon ended at t=%.3fs", ts(H.t_signal), ts(lim), ts(H.t_exit));
    }
  }
}

// ---- C16 C17 -------------------------------------------------------------------------------------
static const std::set<std::string> kAllowed(std::begin(kAdminKeys), std::end(kAdminKeys));
struct LinOp { u64 s0, s1; bool read; TagMap v; bool must; std::string what; const char* cls; };   // must: took effect (answered)
static void eval_common_tags() {
  std::vector<LinOp> ops;
  for (auto& a : H.admin) {
    if (a.refused || !a.whole()) continue;
    if (a.method == "POST" && a.uri == "/config/common_tags" && a.local()) {
      JV j; bool ok = json_parse(a.body, &j) && j.t == JV::Obj; TagMap v;
      if (ok) for (auto& kv : j.o) { if (!kAllowed.count(kv.first) || kv.second.t != JV::Str) ok = false; v[kv.first] = kv.second.s; }
      if (a.complete) {
        if (ok && a.status != 200) fail("C16", "valid-refused", "POST /config/common_tags %s was answered with status %d", a.body.c_str(), a.status);
        if (!ok && a.status == 200) fail("C16", "invalid-accepted", "POST /config/common_tags %s was answered with status 200", a.body.c_str());
        if (!ok && a.status != 400 && a.status != 200) fail("C16", "wrong-status", "POST /config/common_tags %s was answered with status %d", a.body.c_str(), a.status);
      }
      if (!ok || v.empty()) continue;
      ops.push_back({a.s0, a.complete ? a.s1 : ~0ULL, false, v, a.complete, "POST " + a.body, "C16"});
    } else if (a.method == "POST" && a.uri == "/config/common_tags") {
      if (a.complete && a.status != 400) fail("C16", "nonlocal-accepted", "POST /config/common_tags with host %s was answered with status %d", a.host.c_str(), a.status);
    } else if (a.method == "GET" && a.uri == "/config" && a.complete && a.status == 200) {
      JV j;
      if (!json_parse(a.rbody, &j) || j.t != JV::Obj) { fail("C16", "bad-config", "GET /config answered with something that is not a JSON object: %.200s", a.rbody.c_str()); continue; }
      auto* ct = j.get("common_tags");
      if (!ct || ct->t != JV::Obj) { fail("C16", "bad-config", "GET /config lists no common tags: %.200s", a.rbody.c_str()); continue; }
      TagMap v; for (auto& kv : ct->o) v[kv.first] = kv.second.s;
      ops.push_back({a.s0, a.s1, true, v, true, "GET /config", "C16"});
      auto num = [&](const char* k, double w) { auto* x = j.get(k); if (!x || x->t != JV::Num || std::fabs(x->n - w) > 1e-6 * std::fabs(w)) fail("C16", "config-value", "GET /config shows a wrong %s", k); };
      num("batch_size", (double)H.batch); num("age_gauge_limit", (double)H.age_limit); num("frequency", H.freq / 1e6); num("meter_ttl", H.ttl / 1e6);
    }
  }
  for (size_t k = 0; k < c2.size(); ++k) if (c2[k].common_known) ops.push_back({H.cycles[k].ws, H.cycles[k].s1, true, c2[k].common, true, strf("published by cycle %zu", k), "C16"});
  if (ops.empty()) return;
  // breadth-first over linearisations: state = tags in force and the pending operations already done
  struct E { u64 s; bool inv; size_t i; };
  std::vector<E> ev;
  for (size_t i = 0; i < ops.size(); ++i) { ev.push_back({ops[i].s0, true, i}); if (ops[i].s1 != ~0ULL) ev.push_back({ops[i].s1, false, i}); }
  std::stable_sort(ev.begin(), ev.end(), [](const E& a, const E& b) { return a.s != b.s ? a.s < b.s : a.inv > b.inv; });
  typedef std::pair<TagMap, std::set<size_t>> S;
  std::set<S> st{{H.common, {}}};
  std::vector<size_t> pend;
  auto apply = [](TagMap m, const TagMap& d) { for (auto& kv : d) { if (kv.second.empty()) m.erase(kv.first); else m[kv.first] = kv.second; } return m; };
  auto closure = [&]() {
    std::vector<S> work(st.begin(), st.end());
    while (!work.empty()) {
      S s = work.back(); work.pop_back();
      for (size_t i : pend) {
        if (s.second.count(i)) continue;
        S n = s; n.second.insert(i);
        if (ops[i].read) { if (s.first != ops[i].v) continue; } else n.first = apply(n.first, ops[i].v);
        if (st.size() > 20000) return false;
        if (st.insert(n).second) work.push_back(n);
      }
    }
    return true;
  };
  for (auto& e : ev) {
    if (e.inv) { pend.push_back(e.i); continue; }
    if (!closure()) { count("probe.admin_search_cut"); return; }
    std::set<S> nx; std::string poss; int np = 0;
    for (auto& s : st) { if (s.second.count(e.i)) { S n = s; n.second.erase(e.i); nx.insert(n); } else if (np < 4 && ops[e.i].read) { std::string t = tags_text(s.first); if (poss.find(t) == std::string::npos) { poss += " " + t; ++np; } } }
    if (nx.empty()) { fail(ops[e.i].cls, "wrong-common-tags", "%s shows %s; possible:%s", ops[e.i].what.c_str(), tags_text(ops[e.i].v).c_str(), poss.c_str()); return; }
    st.swap(nx);
    pend.erase(std::find(pend.begin(), pend.end(), e.i));
  }
}
// could / must a meter of this kind and key exist at some / every moment of [s0,s1]
struct Life { bool may = false, must = false; };
static i64 ttl_min(char kind, const std::string& id) {
  if (kind != 'g') return H.ttl;
  for (auto& o : H.ops) if (o.type == 'g' && o.id == id && o.extra > 0) return 5 * kSec;
  return std::max<i64>(H.ttl, 5 * kSec);
}
static i64 ttl_max(char kind, const std::string& id) {
  if (kind != 'g') return H.ttl;
  i64 t = std::max<i64>(H.ttl, 5 * kSec);
  for (auto& o : H.ops) if (o.type == 'g' && o.id == id && o.extra > 0) t = std::max(t, o.extra * kSec);
  return t;
}
static Life life(char kind, const std::string& id, const std::vector<const Op*>& sets, const std::vector<const Op*>& dels, u64 s0, u64 s1, i64 m0, i64 m1, bool limited, const Op* self) {
  Life l;
  i64 tmin = ttl_min(kind, id), tmax = ttl_max(kind, id);
  for (auto* o : sets) {
    if (o->s0 > s1) continue;
    bool gone = false, maygone = false;
    for (auto* d : dels) {
      if (d == self || d->type == 'x') continue;
      if (d->type == '-' && d->id != id) continue;
      if (d->rep && d->s0 > o->s1 && d->s1 < s0) gone = true;
      if (d->s1 >= o->s0 && d->s0 <= s1) maygone = true;
    }
    bool exp_must = kind != 'A' && std::min(m0 - o->m1, world::wall_low(std::max(o->m1, m0 - H.exp - kSec), m1) - o->w1) > tmax + H.exp + kSec + slack(o->m0, m1, o->s0, s1);
    bool exp_may = kind != 'A' && std::max(m1 - o->m0, world::wall_rise(o->m0, m1)) > tmin - 50 * kMs;
    if (!gone && !exp_must) l.may = true;
    bool effective = kind == 'A' || kind == 'g' || (strchr("tTdD", o->type) ? o->v >= 0 : o->type == 'c' ? o->v > 0 : !std::isnan(o->v));
    if (o->s1 < s0 && !maygone && !exp_may && !limited && effective) l.must = true;
  }
  return l;
}
static void eval_deletes() {
  std::map<std::string, std::vector<const Op*>> sets[2]; std::vector<const Op*> dels[2];
  for (auto& o : H.ops) {
    int q = o.type == 'A' || ((o.type == '-' || o.type == '=') && o.extra == 'A');
    if (o.type == 'g' || o.type == 'A') sets[q][o.id].push_back(&o);
    else if (o.type == '-' || o.type == '=' || o.type == 'x') dels[o.extra == 'A'].push_back(&o);
  }
  Op up;
  if (!H.lib && H.status) { up.type = 'A'; up.id = "spectatord.uptime"; up.id = id_text("spectatord.uptime", {}); up.s0 = 0; up.s1 = 1; up.m0 = H.t0; up.m1 = H.t0 + 100 * kMs; for (auto& d : H.dgs) if (d.s_recv) { up.s1 = d.s_recv; up.m1 = d.t_recv; break; } sets[1][up.id].push_back(&up); }
  bool lim = (i64)sets[1].size() > H.age_limit;
  auto self_g = [](const std::string& id) { return is_self(id); };
  auto judge = [&](const Op& d, int status, const std::string& what, u64 s1, i64 m1) {
    int q = d.extra == 'A';
    if (self_g(d.id)) return;
    static const std::vector<const Op*> none;
    auto it = sets[q].find(d.id);
    Life l = life(q ? 'A' : 'g', d.id, it == sets[q].end() ? none : it->second, dels[q], d.s0, s1, d.m0, m1, q && lim, &d);
    if (status == 200 && !l.may) fail("C17", "deleted-nothing", "%s answered success although no such meter existed", what.c_str());
    if (status == 404 && l.must) fail("C17", "delete-refused", "%s answered that no such meter exists although one does", what.c_str());
  };
  for (auto& a : H.admin) {
    if (a.refused || a.method != "DELETE" || a.uri.compare(0, 9, "/metrics/") || a.uri.size() < 10 || (a.uri[9] != 'g' && a.uri[9] != 'A')) continue;
    if (!a.complete || !a.whole()) continue;
    if (!a.local()) { if (a.status < 400) fail("C17", "nonlocal-accepted", "DELETE %s with host %s was answered with status %d", a.uri.c_str(), a.host.c_str(), a.status); continue; }
    if (a.op < 0) continue;
    const Op& d = H.ops[(size_t)a.op];
    if (a.uri.size() == 10) { if (a.status != 200) fail("C17", "wrong-status", "DELETE %s was answered with status %d", a.uri.c_str(), a.status); continue; }
    if (a.status != 200 && a.status != 404) { fail("C17", "wrong-status", "DELETE %s was answered with status %d", a.uri.c_str(), a.status); continue; }
    judge(d, a.status, "DELETE " + a.uri, a.s1, a.t1);
  }
  if (H.lib) for (auto& o : H.ops) if (o.type == '-' && o.s1 != ~0ULL) judge(o, o.u ? 200 : 404, "deleting " + o.id, o.s1, o.m1);
  // two successful deletions of one meter need a re-creation between them
  for (int q = 0; q < 2; ++q)
    for (size_t i = 0; i < dels[q].size(); ++i)
      for (size_t j = 0; j < dels[q].size(); ++j) {
        const Op* x = dels[q][i], *y = dels[q][j];
        if (i == j || x->type != '-' || y->type != '-' || x->id != y->id || x->s1 > y->s0 || is_self(x->id)) continue;
        if (H.lib ? !(x->u && y->u) : !(x->rep && y->rep)) continue;
        bool set = false; for (auto* o : sets[q][x->id]) if (o->s1 >= x->s0 && o->s0 <= y->s1) set = true;
        if (!set) fail("C17", "deleted-twice", "%s was deleted twice with success without an update between", x->id.c_str());
      }
}
static const std::pair<const char*, const char*> kKinds[] = {{"age_gauges", "A"}, {"counters", "c"}, {"dist_summaries", "d"}, {"gauges", "g"}, {"max_gauges", "m"}, {"mono_counters", "C"}, {"mono_counters_uint", "U"}, {"timers", "t"}};
static void eval_listing() {
  bool any = false; for (auto& a : H.admin) if (a.method == "GET" && a.uri == "/metrics" && a.complete) any = true;
  if (!any) return;
  std::map<char, std::map<std::string, std::vector<const Op*>>> sets; std::map<char, std::vector<const Op*>> dels;
  std::deque<Op> made;
  extern int oracle_bucket(char type, const Op& o, std::string* tag);
  for (auto& o : H.ops) {
    if (o.type == '-' || o.type == '=') { dels[(char)o.extra].push_back(&o); continue; }
    char kind = o.type == 'T' ? 't' : o.type == 'D' ? 'd' : o.type;
    if (!strchr("AcdgmCUt", kind)) continue;
    sets[kind][o.id].push_back(&o);
    std::string tag;
    if ((o.type == 'T' || o.type == 'D') && oracle_bucket(o.type, o, &tag)) {
      Op b = o; b.type = 'c'; b.v = 1; b.tags["percentile"] = tag; b.tags["statistic"] = "percentile"; b.id = id_text(b.name, b.tags); made.push_back(b); sets['c'][b.id].push_back(&made.back());
    }
  }
  bool lim = (i64)sets['A'].size() + (H.status ? 1 : 0) > H.age_limit;
  for (auto& a : H.admin) {
    if (a.method != "GET" || a.uri != "/metrics" || !a.complete || !a.whole()) continue;
    if (a.status != 200) { fail("C17", "wrong-status", "GET /metrics was answered with status %d", a.status); continue; }
    JV j; if (!json_parse(a.rbody, &j) || j.t != JV::Obj) { fail("C17", "bad-listing", "GET /metrics answered with something that is not a JSON object: %.200s", a.rbody.c_str()); continue; }
    double sum = 0;
    const JV* stats = j.get("stats");
    for (auto& kk : kKinds) {
      char kind = kk.second[0];
      const JV* arr = j.get(kk.first);
      if (!arr || arr->t != JV::Arr) { fail("C17", "bad-listing", "GET /metrics has no list of %s", kk.first); continue; }
      std::map<std::string, double> listed;
      for (auto& e : arr->a) {
        auto* nm = e.get("name"); auto* tg = e.get("tags"); auto* val = e.get("value");
        if (!nm || !tg || !val) { fail("C17", "bad-listing", "GET /metrics lists one of the %s without name, tags or value", kk.first); continue; }
        TagMap t; for (auto& kv : tg->o) t[kv.first] = kv.second.s;
        std::string id = id_text(nm->s, t);
        if (!listed.emplace(id, val->t == JV::Str ? strtod(val->s.c_str(), nullptr) : val->n).second) fail("C17,C20", "listed-twice", "GET /metrics lists %s %s twice", kk.first, id.c_str());
      }
      size_t lo = 0, hi = 0, self = 0;
      for (auto& kv : listed) if (is_self(kv.first)) ++self;
      for (auto& kv : sets[kind]) {
        if (is_self(kv.first)) continue;
        Life l = life(kind, kv.first, kv.second, dels[kind], a.s0, a.s1, a.t0, a.t1, kind == 'A' && lim, nullptr);
        lo += l.must; hi += l.may;
        bool in = listed.count(kv.first);
        if (l.must && !in) fail("C17,C09", "not-listed", "GET /metrics at t=%.3fs does not list %s %s although it exists", ts(a.t0), kk.first, kv.first.c_str());
        if (!l.may && in) fail("C17,C09", "listed-dead", "GET /metrics at t=%.3fs lists %s %s, which does not exist (any more)", ts(a.t0), kk.first, kv.first.c_str());
        if (in && l.may) {
          double v = listed[kv.first];
          if (kind == 'g') {
            bool ok = false, init = true, expd = false; std::string cand;
            for (auto* o : kv.second) {
              if (o->s0 > a.s1) continue;
              bool sup = false; for (auto* f : kv.second) if (f->s0 > o->s1 && f->s1 < a.s0) sup = true;
              if (o->s1 < a.s0) init = false;
              if (sup) continue;
              cand += strf(" %.17g", o->v);
              if (v == o->v || (std::isnan(v) && std::isnan(o->v))) ok = true;
              if (std::max(a.t1 - o->m0, world::wall_rise(o->m0, a.t1)) > 5 * kSec - 50 * kMs) expd = true;
            }
            for (auto* d : dels[kind]) if (d->s0 <= a.s1) init = true;
            if (std::isnan(v) && (init || expd)) ok = true;
            if (!ok) fail("C17,C05", "listed-value", "GET /metrics at t=%.3fs shows gauge %s = %.17g; possible:%s", ts(a.t0), kv.first.c_str(), v, cand.c_str());
          } else if (kind == 'c' || kind == 't' || kind == 'd') {
            // not yet reported contributions
            double up = 0, down = 0, scale = 0; u64 last_done = 0, last_begun = 0;
            for (auto& c : H.cycles) { if (c.s1 < a.s0) last_done = std::max(last_done, c.ws); if (c.ws <= a.s1) last_begun = std::max(last_begun, c.s1); }
            for (auto* o : kv.second) {
              double x = strchr("tT", o->type) ? (double)(i64)(o->src == 2 && o->type == 't' ? o->v : o->v * 1e9) / 1e9 : o->type == 'D' ? (double)(i64)o->v : o->v;
              if (!(x > 0)) continue;
              x *= o->rep; scale += x;
              if (o->s0 <= a.s1 && o->s1 >= last_done) up += x;
              if (o->s1 < a.s0 && o->s0 > last_begun) { if (std::max(a.t1 - o->m0, world::wall_rise(o->m0, a.t1)) < H.ttl - 50 * kMs) down += x; }
            }
            double f = kind == 't' ? (v > 2e3 && scale < v / 1e5 ? 1e-9 : 1) : 1;   // either seconds or nanoseconds are shown
            double eps = 1e-6 * scale + 1e-12;
            if (v < -eps) fail("C17", "listed-value", "GET /metrics at t=%.3fs shows %s %s = %.17g", ts(a.t0), kk.first, kv.first.c_str(), v);
            else if (kind != 't') { if (v * f > up + eps || v * f < down - eps) fail("C17", "listed-value", "GET /metrics at t=%.3fs shows %s %s = %.17g, between %.17g and %.17g had not been reported yet", ts(a.t0), kk.first, kv.first.c_str(), v, down, up); }
          }
        }
      }
      for (auto& kv : listed) if (!is_self(kv.first) && !sets[kind].count(kv.first)) fail("C17,C20", "listed-unknown", "GET /metrics at t=%.3fs lists %s %s, which nothing created", ts(a.t0), kk.first, kv.first.c_str());
      if (stats) {
        auto* n = stats->get(std::string(kk.first) + ".size");
        if (!n || n->t != JV::Num) fail("C17", "bad-listing", "GET /metrics gives no size for %s", kk.first);
        else { sum += n->n; if (n->n < (double)lo || n->n > (double)(hi + self + 40)) fail("C17", "listed-size", "GET /metrics at t=%.3fs gives %g as the number of %s; it lists %zu, between %zu and %zu exist", ts(a.t0), n->n, kk.first, listed.size(), lo, hi + self); }
      } else fail("C17", "bad-listing", "GET /metrics gives no sizes");
    }
    if (stats) { auto* n = stats->get("total.size"); if (!n || n->n != sum) fail("C17", "listed-size", "GET /metrics gives a total size of %g, the parts add up to %g", n ? n->n : -1, sum); }
  }
}
void eval_admin() {
  eval_deletes();
  if (H.lib) return;
  eval_common_tags();
  eval_listing();
  for (auto& a : H.admin) {
    i64 end = H.t_signal ? H.t_signal : now_ns; u64 es = H.t_signal ? H.s_signal : steps;
    if (a.refused) {
      if (a.t0 > H.t0 + kSec + slack(H.t0, a.t0, 0, a.s0) && a.t0 < end) fail("C19,C16", "not-serving", "an administration request at t=%.3fs was refused", ts(a.t0));
      continue;
    }
    bool plain = a.beh == "ok" || a.beh == "keep" || a.beh == "frag";
    if (plain && a.method != "HEAD") {
      i64 until = a.complete ? a.t1 : end;
      // other clients may occupy the server's threads for as long as their connections may stay idle
      i64 extra = 0; for (auto& o : H.admin) if (o.beh != "ok" && o.beh != "keep" && o.t0 <= until) extra += 70 * kSec; else if (o.beh == "keep" && o.t0 <= until) extra += 16 * kSec;
      if (until < end + kMs && until - a.t0 > 2 * kSec + extra + slack(a.t0, until, a.s0, es)) fail("C17,C16", "unanswered", "%s %s at t=%.3fs was %s", a.method.c_str(), a.uri.c_str(), ts(a.t0), a.complete ? strf("answered only %.3fs later", (until - a.t0) / 1e9).c_str() : "never answered");
    }
    if (!a.complete || !a.whole()) continue;
    int want = 0;
    if (a.method == "GET" && (a.uri == "/" || a.uri == "/config" || a.uri == "/config/common_tags" || a.uri == "/metrics")) want = 200;
    else if (a.uri == "/nope" || ((a.method == "PUT" || a.method == "FOO") && a.uri[0] == '/')) want = 404;
    bool set = a.method == "POST" && a.uri == "/config/common_tags";
    if (!want && !set && a.op < 0 && a.status < 400) fail("C17,C16", "wrong-status", "%s %s from %s, which asks for nothing the server does, was answered with status %d", a.method.c_str(), a.uri.c_str(), a.host.c_str(), a.status);
    if (want && a.status != want) fail("C17,C16", "wrong-status", "%s %s was answered with status %d", a.method.c_str(), a.uri.c_str(), a.status);
  }
}

// ---- C21 -----------------------------------------------------------------------------------------
void eval_self() {   // before the meters: adds what the environment showed to the history
  if (H.lib) return;
  if (!H.status) {
    for (size_t k = 0; k < H.cycles.size(); ++k) for (auto& e : H.cycles[k].meas) if (is_self(e.name)) fail("C21", "self-metric", "%s reports %s although status metrics are disabled", cyc(k).c_str(), id_text(e.name, e.tags).c_str());
    return;
  }
  i64 end = H.t_signal ? H.t_signal : now_ns;
  // the kernel's table is sampled twice a minute
  i64 prev = H.t0; u64 ps = 0;
  for (size_t i = 0; i <= H.proc_reads.size(); ++i) {
    i64 t = i < H.proc_reads.size() ? H.proc_reads[i].t : end; u64 s = i < H.proc_reads.size() ? H.proc_reads[i].s0 : steps;
    if (t > end) break;
    i64 lim = i == 0 ? kSec : 30 * kSec + 50 * kMs;
    if (t - prev > lim + slack(prev, t, ps, s)) fail("C21", "not-sampled", "the kernel's table for the daemon's port was not read between t=%.3fs and t=%.3fs", ts(prev), ts(t));
    prev = t; ps = s;
  }
  for (auto& r : H.proc_reads) {
    if (!r.ok) continue;
    Op o; o.src = 4; o.s0 = r.s0; o.s1 = r.s1; o.m0 = r.t; o.m1 = r.t; i64 wl, wh;
    if (r.s1 == ~0ULL) o.m1 = INT64_MAX; else for (auto& c : H.cycles) if (c.s1 >= r.s1) { o.m1 = std::max(r.t, std::min(c.m1, r.t + 2 * kSec)); break; }
    if (r.s1 != ~0ULL) o.m1 = r.t + kSec + slack(r.t, r.t + kSec, r.s0, r.s1);
    world::wall_range(r.t, o.m1 == INT64_MAX ? r.t : o.m1, &wl, &wh); o.w0 = wl; o.w1 = o.m1 == INT64_MAX ? INT64_MAX : wh;
    o.type = 'C'; o.name = "spectatord.udpPacketsDropped"; o.id = id_text(o.name, {}); o.v = (double)r.drops; H.ops.push_back(o);
    o.type = 'm'; o.name = "spectatord.udpRxQueue"; o.id = id_text(o.name, {}); o.v = (double)r.rxq; H.ops.push_back(o);
  }
  // against the environment itself: whatever is reported must have been there
  double cum = 0;
  for (size_t k = 0; k < H.cycles.size(); ++k) {
    const Cycle& c = H.cycles[k];
    for (auto& e : c.meas) {
      if (e.name == "spectatord.udpPacketsDropped") {
        cum += e.v; u64 now = 0; for (auto& x : H.env) if (x.t <= c.m1) now = x.drops;
        if (cum > (double)(now - H.env[0].drops)) fail("C21", "drops-invented", "%s: %g dropped datagrams have been reported, the kernel counted %g since the start", cyc(k).c_str(), cum, (double)(now - H.env[0].drops));
      }
      if (e.name == "spectatord.udpRxQueue") {
        bool ok = false; for (auto& x : H.env) if (x.t <= c.m1 && (double)x.rxq == e.v) ok = true;
        if (!ok) fail("C21", "rxq-invented", "%s reports a receive queue of %g bytes, which it never had", cyc(k).c_str(), e.v);
      }
    }
  }
  // number of measurements of each cycle
  for (auto& c : H.cycles) {
    Op o; o.type = 'd'; o.src = 4; o.name = "spectator.registrySize"; o.tags["owner"] = "spectatord"; o.id = id_text(o.name, o.tags); o.v = (double)c.meas.size();
    o.s0 = c.ws; o.s1 = c.s1; o.m0 = c.m0; o.m1 = c.m1; o.w0 = c.wl; o.w1 = c.wh; H.ops.push_back(o);
  }
  // percentile caches
  std::map<std::string, std::vector<const Op*>> ids[2];
  for (auto& o : H.ops) if (o.type == 'T' || o.type == 'D') ids[o.type == 'D'][o.id].push_back(&o);
  for (size_t k = 0; k < H.cycles.size(); ++k) {
    const Cycle& c = H.cycles[k];
    i64 from = c.m0 - 30 * kSec - 100 * kMs; i64 sl = slack(std::max(H.t0, from), c.m1, k ? H.cycles[k - 1].s1 : 0, c.s1) + 50 * kMs; from -= sl;
    i64 since = from;   // a sample may be older only if cycles came late
    for (auto& e : c.meas) {
      if (e.name != "spectatord.percentileCacheSize") continue;
      auto it = e.tags.find("id"); if (it == e.tags.end()) continue;
      int q = it->second == "dist-summary";
      size_t lo = 0, hi = 0;
      for (auto& kv : ids[q]) {
        bool may = false, must = false;
        for (auto* o : kv.second) { if (o->m0 <= c.m1 && o->m1 >= since - 150 * kSec - 2 * sl) may = true; if (o->m1 < since && c.m1 - o->m0 < 120 * kSec - 50 * kMs) must = true; }
        lo += must; hi += may;
      }
      if (e.v < (double)lo || e.v > (double)hi) fail("C21", "cache-size", "%s reports %g cached percentile meters of kind %s; between %zu and %zu can have been there", cyc(k).c_str(), e.v, it->second.c_str(), lo, hi);
    }
  }
  for (int q = 0; q < 2; ++q) {
    double rep = 0; size_t most = 0, least = 0;
    i64 mend = H.cycles.empty() ? H.t0 : H.cycles.back().m1;
    for (auto& c : H.cycles) for (auto& e : c.meas) if (e.name == "spectatord.percentileExpired") { auto it = e.tags.find("id"); if (it != e.tags.end() && (it->second == "dist-summary") == (q == 1)) rep += e.v; }
    for (auto& kv : ids[q]) {
      auto v = kv.second; std::sort(v.begin(), v.end(), [](const Op* a, const Op* b) { return a->s0 < b->s0; });
      for (size_t i = 0; i < v.size(); ++i) {
        i64 nxt = i + 1 < v.size() ? v[i + 1]->m1 : mend, nxt0 = i + 1 < v.size() ? v[i + 1]->m0 : mend;
        if (nxt == INT64_MAX) nxt = mend;
        if (nxt - v[i]->m0 > 120 * kSec - 100 * kMs) ++most;
        if (v[i]->m1 != INT64_MAX && nxt0 - v[i]->m1 > 151 * kSec + slack(v[i]->m0, nxt0, 0, 0) + H.freq * 2 && nxt0 + 2 * H.freq + kSec < mend) ++least;
      }
    }
    if (rep > (double)most) fail("C21", "cache-expired", "%g expired percentile meters of kind %s are reported, at most %zu were idle for long enough", rep, q ? "dist-summary" : "timer", most);
    if (rep < (double)least && H.ttl > 60 * kSec) fail("C21", "cache-expired", "%g expired percentile meters of kind %s are reported, at least %zu were idle for long enough", rep, q ? "dist-summary" : "timer", least);
  }
}
