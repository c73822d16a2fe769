// The environment of the daemon: aggregator, datagram senders, admin clients, kernel counters, clock, signals.
#include "world.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include "../sim/shim/repo_registry.h"
using namespace rt;
Hist H;
int daemon_main(int argc, char** argv);
namespace world {
static bool en_now = true;
static u64 drops_now = 0, rxq_now = 0;
static u64 n_conn = 0;
static std::map<u64, std::string> agg_by_idx;
struct Win { i64 t0, t1; std::string beh; };
static std::vector<Win> agg_win;
static i64 lat_us = 200;
static Rng wrng(7);
static std::map<int, u64> last_cb_step; static std::map<int, i64> last_cb_time;
static const char* kSock = "/run/spectatord/spectatord.unix";
static bool signalled = false; static i64 usig_n = 0;

bool enabled_now() { if (!H.cycles.empty()) H.cycles.back().enabled = en_now; return en_now; }
i64 wall_at(i64 m) { i64 off = 1700000000LL * kSec; for (auto& p : H.wall_steps) if (p.first <= m) off += p.second; return m + off; }
void wall_range(i64 m0, i64 m1, i64* lo, i64* hi) {
  i64 a = wall_at(m0), b = wall_at(m1);
  *lo = std::min(a, b); *hi = std::max(a, b);
  for (auto& p : H.wall_steps) if (p.first > m0 && p.first <= m1) { i64 x = wall_at(p.first), y = x - p.second; *lo = std::min({*lo, x, y}); *hi = std::max({*hi, x, y}); }
}
i64 wall_rise(i64 m0, i64 m1) {
  i64 lo = wall_at(m0), r = 0;
  for (auto& p : H.wall_steps) if (p.first > m0 && p.first <= m1) { i64 y = wall_at(p.first), x = y - p.second; r = std::max(r, x - lo); lo = std::min(lo, x); r = std::max(r, y - lo); lo = std::min(lo, y); }
  return std::max(r, wall_at(m1) - lo);
}

// ---- aggregator -----------------------------------------------------------------------
static std::string reason(int c) { return c == 200 ? "OK" : "Status"; }
static std::string resp(int code, const std::string& body, bool chunked = false) {
  std::string s = strf("HTTP/1.1 %d %s\r\n", code, reason(code).c_str());
  if (code == 204 || code == 304) return s + "\r\n";
  if (chunked) {
    s += "Transfer-Encoding: chunked\r\n\r\n";
    size_t p = 0;
    while (p < body.size()) { size_t n = std::min<size_t>(7, body.size() - p); s += strf("%zx\r\n", n) + body.substr(p, n) + "\r\n"; p += n; }
    return s + "0\r\n\r\n";
  }
  return s + strf("Content-Type: application/json\r\nContent-Length: %zu\r\n\r\n", body.size()) + body;
}
static std::string body_of(const std::string& k, size_t n) {
  if (k == "none" || k.empty()) return "";
  if (k.compare(0, 3, "err") == 0) {
    long e = strtol(k.c_str() + 3, nullptr, 10); if (e > (long)n) e = (long)n;
    std::string m; for (long i = 0; i < e; ++i) m += strf("%s\"invalid tag %ld\"", i ? "," : "", i);
    return strf("{\"type\":\"partial\",\"message\":[%s],\"errorCount\":%ld}", m.c_str(), e);
  }
  if (k == "all") return strf("{\"type\":\"error\",\"message\":[\"bad\"],\"errorCount\":%zu}", n);
  if (k == "bad") return "{\"errorCount\": ";
  if (k == "text") return "<html>oops</html>";
  if (k == "arr") return "[1,2,3]";
  if (k == "noerr") return "{\"type\":\"error\"}";
  if (k == "neg") return "{\"message\":[],\"errorCount\":-3}";
  if (k == "big") return strf("{\"message\":[\"x\"],\"errorCount\":%zu}", n + 5);
  if (k == "huge") return "{\"message\":[\"x\"],\"errorCount\":99999999999999}";
  if (k == "float") return "{\"message\":[\"x\"],\"errorCount\":1.5}";
  if (k == "str") return "{\"message\":[\"x\"],\"errorCount\":\"1\"}";
  if (k == "null") return "null";
  if (k == "num") return "17";
  if (k == "nullec") return "{\"errorCount\":null,\"message\":null}";
  if (k == "nomsg") return "{\"errorCount\":1}";
  if (k == "msgstr") return "{\"message\":\"bad\",\"errorCount\":1}";
  if (k == "msgmix") return "{\"message\":[1,null,{\"a\":2},\"x\"],\"errorCount\":1}";
  return k;
}
struct AggPeer : net::Peer {
  size_t ai; std::string beh; bool answered = false; net::ConnP self;
  std::string buf; size_t hdr = 0; size_t clen = 0; bool cont = false;
  Attempt& at_() { return H.attempts[ai]; }
  void reply(std::string s, i64 d, bool complete, int code, const std::string& body, bool fin = false) {
    answered = true;
    std::weak_ptr<net::Conn> w = self; size_t i = ai;
    after(d, [w, s, i, complete, code, body, fin] {
      auto c = w.lock(); if (!c) return;
      if (!c->app_closed && complete) { Attempt& a = H.attempts[i]; a.status = code; a.rbody = body; a.resp_sent = true; a.t_resp = now_ns; }
      c->w_send(s);
      if (fin) c->w_fin();
    });
  }
  void on_open(net::Conn* c) override {
    if (beh == "rst_open") { auto s = self; after(lat_us * kUs, [s] { s->w_rst(); }); }
    if (beh == "stopread") { c->peer_reads = false; }
    if (beh == "garbage") reply("\x00\x01\x02 not http at all\r\n\r\n", lat_us * kUs, false, 0, "", true);
  }
  void on_data(net::Conn* c, const std::string& d) override {
    Attempt& a = at_();
    buf += d;
    if (!hdr) {
      size_t p = buf.find("\r\n\r\n");
      if (p == std::string::npos) return;
      hdr = p + 4; a.head = buf.substr(0, p);
      std::string low; for (char ch : a.head) low += (char)tolower(ch);
      size_t q = low.find("content-length:");
      if (q != std::string::npos) clen = strtoul(low.c_str() + q + 15, nullptr, 10);
      if (low.find("expect: 100-continue") != std::string::npos && !cont) { cont = true; auto s = self; after(lat_us * kUs, [s] { s->w_send("HTTP/1.1 100 Continue\r\n\r\n"); }); }
      if (beh == "rst_mid") { auto s = self; answered = true; after(lat_us * kUs / 2, [s] { s->w_rst(); }); }
    }
    if (a.req || buf.size() < hdr + clen) return;
    a.req = true; a.t_req = now_ns; a.raw = buf.substr(hdr, clen);
    if (answered) return;
    i64 l = lat_us * kUs;
    SmileDoc doc; std::string e, o; size_t n = 0;
    if (gunzip(a.raw, &o, &e) && decode_payload(o, &doc, &e)) n = doc.entries.size();
    auto s = self;
    if (beh == "ok") reply(resp(200, "{}"), l, true, 200, "{}");
    else if (beh == "chunked") reply(resp(200, "{\"type\":\"success\"}", true), l, true, 200, "");
    else if (beh == "cont") reply("HTTP/1.1 100 Continue\r\n\r\n" + resp(200, ""), l, true, 200, "");
    else if (beh.compare(0, 3, "st:") == 0) {
      int code = atoi(beh.c_str() + 3); size_t p = beh.find(':', 3);
      std::string b = p == std::string::npos ? "" : body_of(beh.substr(p + 1), n);
      if (code == 204) b = "";
      reply(resp(code, b, code % 2 == 1 && !b.empty()), l, true, code, b);
    } else if (beh.compare(0, 5, "slow:") == 0) reply(resp(200, "{}"), atoll(beh.c_str() + 5) * kMs, true, 200, "{}");
    else if (beh.compare(0, 8, "slow503:") == 0) reply(resp(503, ""), atoll(beh.c_str() + 8) * kMs, true, 503, "");
    else if (beh.compare(0, 8, "trickle:") == 0) {
      answered = true;
      std::string r = resp(200, "{\"type\":\"ok\"}"); i64 step = atoll(beh.c_str() + 8) * kMs;
      for (size_t i = 0, k = 0; i < r.size(); i += 9, ++k) { bool last = i + 9 >= r.size(); reply(r.substr(i, 9), l + (i64)k * step, last, 200, ""); }
    } else if (beh == "close_req") { answered = true; after(l, [s] { s->w_fin(); }); }
    else if (beh == "rst_req") { answered = true; after(l, [s] { s->w_rst(); }); }
    else if (beh == "partial") reply("HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n{\"a\":", l, false, 0, "", true);
    else if (beh == "badchunk") reply("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nxx", l, false, 0, "", true);
    else if (beh == "bigbody") reply(resp(200, std::string(300000, 'x')), l, true, 200, "");
    (void)c;
    // hang, stopread: never answered
  }
  void on_app_closed(net::Conn*) override {
    Attempt& a = at_();
    if (a.closed) return;
    a.closed = true; a.t_close = now_ns; a.s_close = steps;
    trace("agg conn %llu closed by the application", (unsigned long long)a.conn);
  }
};
static std::string beh_of(u64 idx) {
  std::string beh = "ok";
  bool calm = H.t_calm && now_ns >= H.t_calm;
  if (!calm) {
    auto it = agg_by_idx.find(idx);
    if (it != agg_by_idx.end()) beh = it->second;
    else for (auto& w : agg_win) if (now_ns >= w.t0 && now_ns < w.t1) beh = w.beh;
  }
  return beh;
}
// an attempt that ends before there is a connection: the process has no descriptor left
static bool on_socket() {
  if (beh_of(n_conn) != "nosock") return false;
  count("fault.agg.nosock");
  Attempt a; a.conn = n_conn++; a.tid = cur->id; a.idx = (int)H.attempts.size(); a.beh = "nosock"; a.s_open = a.s_close = steps; a.t_open = a.t_close = now_ns; a.closed = true;
  H.attempts.push_back(a);
  trace("no descriptor for agg connection %llu of t%d", (unsigned long long)a.conn, a.tid);
  return true;
}
static void on_connect(net::ConnP c) {
  u64 idx = n_conn++;
  std::string beh = beh_of(idx);
  if (beh != "ok") { std::string k = beh.substr(0, beh.find(':', beh.compare(0, 3, "st:") == 0 ? 3 : 0)); count(("fault.agg." + k).c_str()); }
  Attempt a; a.conn = idx; a.tid = c->opener ? c->opener->id : cur->id; a.idx = (int)H.attempts.size(); a.beh = beh; a.s_open = steps; a.t_open = now_ns;
  size_t ai = H.attempts.size();
  H.attempts.push_back(a);
  auto p = std::make_shared<AggPeer>(); p->ai = ai; p->beh = beh; p->self = c;
  c->peer = p; c->lat = lat_us * kUs / 2 + 1;
  if (beh == "stopread") c->window = 600;
  trace("agg connection %llu from t%d: %s", (unsigned long long)idx, a.tid, beh.c_str());
  if (beh == "blackhole") return;
  if (beh == "refuse") { after(lat_us * kUs, [c] { net::conn_failed(c, ECONNREFUSED); }); return; }
  if (beh == "noport") { net::conn_failed(c, EADDRNOTAVAIL); return; }
  if (beh == "unreach") { after(lat_us * kUs, [c] { net::conn_failed(c, ENETUNREACH); }); return; }
  i64 d = lat_us * kUs;
  if (beh.compare(0, 8, "slowcon:") == 0) { d = atoll(beh.c_str() + 8) * kMs; p->beh = "ok"; }
  after(d, [c] { net::conn_accepted(c); });
}

// ---- datagrams ---------------------------------------------------------------------------
static std::vector<u64> line_ops;   // scratch
static void inject(int sock, const std::string& data) {
  DgRec d; d.tag = H.dgs.size() + 1; d.sock = sock; d.data = data; d.t_sent = now_ns; d.s_sent = steps;
  int rc = sock == 1 ? net::world_unix(kSock, data, d.tag) : net::world_udp(sock == 2 ? 8125 : 1234, data, d.tag);
  d.delivered = rc == 0; d.rc = rc;
  if (rc == 2) count("fault.dgram_dropped_by_kernel");
  if (rc == 1) count("probe.dgram_no_socket");
  H.dgs.push_back(std::move(d));
}
static void on_dgram(net::File*, u64 tag, size_t n) {
  if (!tag || tag > H.dgs.size()) return;
  DgRec& d = H.dgs[tag - 1];
  d.t_recv = now_ns; d.s_recv = steps; d.n = n;
  auto lines = ref_parse(d.sock == 2 ? 1 : 0, d.data.substr(0, n));
  hot(60);
  i64 wl, wh; wall_range(now_ns, now_ns, &wl, &wh);
  size_t li = 0;
  for (auto& l : lines) {
    Op c; c.type = l.ok ? 'p' : 'e'; c.src = 4; c.s0 = steps; c.m0 = now_ns; c.w0 = wl; c.v = 1;
    d.ops.push_back(H.ops.size());
    H.ops.push_back(c);
    if (!l.has_op) { ++li; continue; }
    Op o = l.op; o.s0 = steps; o.m0 = now_ns; o.w0 = wl; o.src = d.sock;
    d.ops.push_back(H.ops.size());
    H.ops.push_back(std::move(o));
    ++li;
  }
  trace("dgram %llu received: %zu lines", (unsigned long long)tag, lines.size());
}
static void on_done(net::File*, u64 tag) {
  if (!tag || tag > H.dgs.size()) return;
  DgRec& d = H.dgs[tag - 1];
  if (d.t_done) return;
  d.t_done = now_ns; d.s_done = steps;
  for (size_t i : d.ops) { Op& o = H.ops[i]; o.s1 = steps; o.m1 = now_ns; i64 lo; wall_range(o.m0, now_ns, &lo, &o.w1); o.w0 = lo; }
}

// ---- admin clients ------------------------------------------------------------------------
struct AdminPeer : net::Peer {
  size_t i; net::ConnP c;
  AdminRec& r() { return H.admin[i]; }
  bool finish(bool eof) {
    AdminRec& a = r();
    size_t p = a.raw.find("\r\n\r\n");
    if (p == std::string::npos) return false;
    int st = 0; sscanf(a.raw.c_str(), "HTTP/1.%*d %d", &st);
    if (st == 100) { a.raw.erase(0, p + 4); return finish(eof); }
    std::string h; for (char ch : a.raw.substr(0, p)) h += (char)tolower(ch);
    std::string b = a.raw.substr(p + 4);
    if (h.find("transfer-encoding: chunked") != std::string::npos) {
      std::string o; size_t q = 0;
      for (;;) {
        size_t e = b.find("\r\n", q);
        if (e == std::string::npos) return false;
        size_t n = strtoul(b.c_str() + q, nullptr, 16);
        if (n == 0) { if (b.size() < e + 4) return false; break; }
        if (b.size() < e + 2 + n + 2) return false;
        o += b.substr(e + 2, n); q = e + 2 + n + 2;
      }
      a.rbody = o;
    } else {
      size_t q = h.find("content-length:");
      if (q != std::string::npos) { size_t n = strtoul(h.c_str() + q + 15, nullptr, 10); if (b.size() < n) return false; a.rbody = b.substr(0, n); }
      else if (!eof) return false;
      else a.rbody = b;
    }
    a.status = st; a.complete = true; a.t1 = now_ns; a.s1 = steps;
    trace("admin response %d to %s %s", st, a.method.c_str(), a.uri.c_str());
    if (a.op >= 0) {
      Op& o = H.ops[(size_t)a.op];
      o.s1 = steps; o.m1 = now_ns; i64 lo; wall_range(o.m0, now_ns, &lo, &o.w1); o.w0 = lo;
      if (st == 200) o.rep = 1; else o.type = 'x';
    }
    return true;
  }
  void on_data(net::Conn*, const std::string& d) override {
    AdminRec& a = r();
    if (a.complete || a.closed) return;
    a.raw += d;
    if (finish(false) && a.beh != "keep") { auto k = c; after(100 * kUs, [k] { k->w_fin(); }); }
  }
  void on_fin(net::Conn*) override {
    AdminRec& a = r();
    if (!a.complete && !a.closed) finish(true);
    a.closed = true;
    auto k = c; after(100 * kUs, [k] { k->w_fin(); });
  }
};
static void admin(const std::vector<std::string>& a) {
  // method uri host body beh
  AdminRec rec; rec.idx = (int)H.admin.size(); rec.method = a[0]; rec.uri = a[1]; rec.host = a[2]; rec.body = a[3]; rec.beh = a[4]; rec.t0 = now_ns; rec.s0 = steps;
  size_t i = H.admin.size();
  H.admin.push_back(rec);
  auto p = std::make_shared<AdminPeer>(); p->i = i;
  net::ConnP c = net::world_connect(1234, p);
  if (!c) { H.admin[i].refused = true; H.admin[i].closed = true; return; }
  if (a[0] == "DELETE" && rec.local() && (a[1].compare(0, 10, "/metrics/g") == 0 || a[1].compare(0, 10, "/metrics/A") == 0) && (a[1].size() == 10 || a[1][10] == '/')) {
    Op o; o.extra = a[1][9]; o.rep = 0; o.src = 5; o.s0 = steps; o.m0 = now_ns; i64 x; wall_range(now_ns, now_ns, &o.w0, &x);
    if (a[1].size() == 10) o.type = '=';
    else {
      o.type = '-';
      std::string id = a[1].substr(11); size_t k = id.find(','); o.name = id.substr(0, k);
      while (k != std::string::npos) {
        size_t e = id.find(',', k + 1); std::string t = id.substr(k + 1, e == std::string::npos ? e : e - k - 1); size_t q = t.find('=');
        if (q != std::string::npos) o.tags[t.substr(0, q)] = t.substr(q + 1);
        k = e;
      }
      o.id = id_text(o.name, o.tags);
    }
    H.admin[i].op = (long)H.ops.size();
    H.ops.push_back(o);
  }
  p->c = c;
  std::string q = a[0] + " " + a[1] + " HTTP/1.1\r\nHost: " + a[2] + "\r\n";
  if (!a[3].empty() || a[0] == "POST") q += strf("Content-Type: application/json\r\nContent-Length: %zu\r\n", a[3].size());
  q += a[4] == "keep" ? "\r\n" : "Connection: close\r\n\r\n";
  q += a[3];
  const std::string& b = a[4];
  if (b != "ok" && b != "keep") count(("fault.admin." + b).c_str());
  hot(200);
  auto sent = [i] { H.admin[i].sent = true; H.admin[i].s0 = H.admin[i].s0; };
  if (b == "ok" || b == "keep") { c->w_send(q); sent(); }
  else if (b == "frag") {
    i64 d = 0;
    for (size_t p0 = 0; p0 < q.size();) { size_t n = 1 + wrng.below(40); std::string s = q.substr(p0, n); p0 += n; bool last = p0 >= q.size(); after(d, [c, s, last, sent] { c->w_send(s); if (last) sent(); }); d += (i64)wrng.below(3000) * kUs; }
  } else if (b == "rst_mid") { c->w_send(q.substr(0, q.size() / 2)); after(3 * kMs, [c] { c->w_rst(); }); }
  else if (b == "rst_after") { c->w_send(q); sent(); after((i64)wrng.below(300) * kUs, [c, i] { H.admin[i].closed = true; c->w_rst(); }); }   // from here on it hears nothing more
  else if (b == "fin_after") { c->w_send(q); sent(); after((i64)wrng.below(300) * kUs, [c] { c->w_fin(); }); }
  else if (b == "fin_mid") { c->w_send(q.substr(0, q.size() - 3)); after(2 * kMs, [c] { c->w_fin(); }); }
  else if (b == "idle") { after(20 * kSec, [c] { c->w_fin(); }); }
  else if (b == "slow") { i64 d = 0; for (size_t k = 0; k < q.size(); k += 16) { std::string s = q.substr(k, 16); bool last = k + 16 >= q.size(); after(d, [c, s, last, sent] { c->w_send(s); if (last) sent(); }); d += 300 * kMs; } }
  else if (b == "noread") { c->peer_reads = false; c->window = 300; c->w_send(q); sent(); after(8 * kSec, [c] { c->w_resume(); }); }
  else if (b == "garbage") { std::string g; for (int k = 0; k < 200; ++k) g += (char)wrng.below(256); c->w_send(g); after(5 * kMs, [c] { c->w_fin(); }); }
  else { c->w_send(q); sent(); }
}

// ---- items -----------------------------------------------------------------------------------
static void do_signal(int s) {
  if (!signal_registered(s)) { count("probe.signal_before_handler"); return; }
  if (!H.t_signal) { H.t_signal = now_ns; H.s_signal = steps; }
  count("fault.signal");
  signalled = true;
  deliver_signal(s);
}
static std::string own_tags() { return H.plan.str("common_tags", "nf.app=sim,nf.node=n1"); }
static std::map<std::string, std::string> tags_of(const std::string& ct) {
  std::map<std::string, std::string> m;
  for (size_t q = 0; q < ct.size();) { size_t e = std::min(ct.find(',', q), ct.size()); std::string one = ct.substr(q, e - q); size_t k = one.find('='); if (k != std::string::npos) m[sanitize(one.substr(0, k))] = sanitize(one.substr(k + 1)); q = e + 1; }
  return m;
}
static int sock_of(const std::string& s) { return s == "unix" ? 1 : s == "statsd" ? 2 : 0; }
struct CycItem { u64 cyc; i64 off; std::function<void()> fn; };
static std::vector<CycItem> cyc_items;   // items placed relative to the start of a reporting cycle
void schedule_item(const Item& it) {
  i64 t = H.t0 + it.t * kUs;
  const auto& a = it.a;
  if (it.kind == "dg") at(t, [a] { inject(sock_of(a[0]), a[1]); });
  else if (it.kind == "bulk") at(t, [a] {   // very many counters at once: socket, how many, length of the name, salt
    size_t n = strtoull(a[1].c_str(), nullptr, 10), len = strtoull(a[2].c_str(), nullptr, 10); Rng br(strtoull(a[3].c_str(), nullptr, 10) * 31 + 7);
    std::string d; i64 w = 0; int so = sock_of(a[0]);   // a few at a time: more would not fit the socket's buffer
    auto put = [&] { auto x = d; after(w, [so, x] { inject(so, x); }); w += 5 * kMs; d.clear(); };
    for (size_t i = 0; i < n; ++i) {
      std::string l = strf("c:bulk.%s.%zu", a[3].c_str(), i);
      while (l.size() < len + 2) l += "abcdefghijklmnopqrstuvwxyz0123456789"[br.below(36)];
      l += ":1";
      if (d.size() + l.size() + 1 > 60000) put();
      if (!d.empty()) d += "\n";
      d += l;
    }
    if (!d.empty()) put();
    count("probe.bulk");
  });
  else if (it.kind == "sig") at(t, [a] { do_signal(atoi(a[0].c_str())); });
  else if (it.kind == "wall") at(t, [a] { i64 d = atoll(a[0].c_str()) * kUs; wall_off += d; H.wall_steps.push_back({now_ns, d}); notice_new_deadline(); count(d < 0 ? "fault.wall_back" : "fault.wall_forward"); });
  else if (it.kind == "enable") at(t, [a] { en_now = a[0] == "1"; H.enable.push_back({now_ns, en_now}); if (!en_now) count("fault.publish_disabled"); });
  else if (it.kind == "rerr") at(t, [a] { int s = sock_of(a[0]); if (net::inject_recv_error(s == 1 ? 0 : s == 2 ? 8125 : 1234, s == 1 ? kSock : "", atoi(a[1].c_str()))) {} });
  else if (it.kind == "drops") at(t, [a] { drops_now += strtoull(a[0].c_str(), nullptr, 10); H.env.push_back({now_ns, drops_now, rxq_now}); count("fault.kernel_drops"); });
  else if (it.kind == "rxq") at(t, [a] { rxq_now = strtoull(a[0].c_str(), nullptr, 10); H.env.push_back({now_ns, drops_now, rxq_now}); });
  else if (it.kind == "http") at(t, [a] { admin(a); });
  else if (it.kind == "cdg") cyc_items.push_back({strtoull(a[0].c_str(), nullptr, 10), atoll(a[1].c_str()) * kUs, [a] { inject(sock_of(a[2]), a[3]); }});
  else if (it.kind == "xdg") {   // a datagram together with the next thing that is waited for
    i64 late = atoll(a[0].c_str()) * kUs, off = atoll(a[1].c_str()) * kUs;
    at(t, [late, off, a] { i64 d = next_timeout(now_ns + late); if (d == kNever) d = now_ns + late; at(std::max(now_ns, d + off), [a] { hot(300); inject(sock_of(a[2]), a[3]); }); });
  }
  else if (it.kind == "chttp") cyc_items.push_back({strtoull(a[0].c_str(), nullptr, 10), atoll(a[1].c_str()) * kUs, [a] { admin({a.begin() + 2, a.end()}); }});
  else if (it.kind == "agg") agg_by_idx[strtoull(a[0].c_str(), nullptr, 10)] = a[1];
  else if (it.kind == "aggw") agg_win.push_back({t, t + atoll(a[0].c_str()) * kUs, a[1]});
}
static void watch_exit(i64 limit) {
  at(now_ns + limit, [limit] { if (!H.exited) { fail("C19", "no-exit", "still running %lld s after the termination signal", (long long)(limit / kSec)); evaluate(); } });
}
static void director() {
  if (H.exited) return;
  if (signalled) { watch_exit(180 * kSec); return; }
  i64 settle = H.plan.num("settle", 3);
  u64 cyc = 0;
  for (auto& c : H.cycles) if (c.m0 >= H.t_calm) ++cyc;
  bool quiet = true;
  for (auto& a : H.attempts) if (!a.closed && a.t_open < H.t_calm) quiet = false;
  for (auto& d : H.dgs) if (d.delivered && !d.t_done && d.t_recv) quiet = false;
  if ((i64)cyc >= settle && quiet) {
    H.s_final = steps; H.t_final = now_ns; H.final_cycles = H.cycles.size();
    trace("workload settled");
    i64 off = H.plan.num("sig_off_us", 10000) * kUs;
    at(now_ns + off, [] { do_signal(H.plan.num("sigint", 0) ? SIGINT : SIGTERM); watch_exit(180 * kSec); });
    if (H.plan.num("sig2_us", -1) >= 0) at(now_ns + off + H.plan.num("sig2_us") * kUs, [] { if (!H.exited && signal_registered(SIGTERM)) { count("fault.second_signal"); deliver_signal(SIGTERM); } });
    return;
  }
  size_t most = 0; for (auto& c : H.cycles) most = std::max(most, c.meas.size());
  i64 per = std::max(H.freq, (i64)(most / (size_t)std::max<i64>(1, H.batch) + 2) * (6 * lat_us * kUs + 2 * kMs));   // what one cycle with its deliveries may take
  if (now_ns > H.t_calm + 40 * kSec + 12 * per + slack(H.t_calm, now_ns, 0, 0)) { fail("C13,C14", "no-recovery", "faults stopped %lld s ago but only %llu reporting cycles followed%s", (long long)((now_ns - H.t_calm) / kSec), (unsigned long long)cyc, quiet ? "" : " and requests are still open"); evaluate(); }
  after(50 * kMs, director);
}
void setup() {
  const Plan& p = H.plan;
  H.t0 = now_ns;
  H.freq = p.num("freq_ms", 5000) * kMs; H.ttl = p.num("ttl_ms", 900000) * kMs; H.exp = p.num("exp_ms", 60000) * kMs;
  H.conn_to = p.num("conn_to_ms", 0) * kMs; if (!H.conn_to) H.conn_to = 2 * kSec;
  H.read_to = p.num("read_to_ms", 0) * kMs; if (!H.read_to) H.read_to = 3 * kSec;
  H.batch = p.num("batch", 10000); H.age_limit = p.num("age_limit", 1000);
  H.status = p.num("status", 1) && !p.num("no_common_tags", 0); H.lib = p.str("mode") == "lib";
  H.t_calm = H.t0 + p.num("t_calm_us", 10000000) * kUs;
  H.common = tags_of(p.num("no_common_tags", 0) ? "" : p.str("ct_flag").empty() ? own_tags() : p.str("ct_flag"));
  lat_us = p.num("lat_us", 200);
  wrng.reseed((u64)p.num("seed", 1) * 77 + 5);
  drops_now = p.num("drops0", 0); H.env.push_back({H.t0, drops_now, 0});
  net::p_short_read = p.dbl("p_short_read"); net::p_partial_send = p.dbl("p_partial_send"); net::p_eintr = p.dbl("p_eintr");
  net::hooks.on_connect = on_connect; net::hooks.on_socket = on_socket; net::hooks.on_dgram = on_dgram; net::hooks.on_dgram_done = on_done;
  net::add_dir("/run"); if (p.num("sockdir", 1)) net::add_dir("/run/spectatord");
  if (p.num("stale", 0)) { net::add_dir("/run/spectatord"); net::make_stale_socket(kSock); count("fault.stale_socket"); }
  for (auto& it : p.items) schedule_item(it);
  at(H.t_calm, [] {
    en_now = true;
    for (size_t k = 0; k < H.enable.size() + 1 && k < 1; ++k) H.enable.push_back({now_ns, true});
    count("probe.calm");
  });
  if (!H.lib) at(H.t_calm + kMs, director);
}
void note_exit(int rc) { H.exited = true; H.exit_code = rc; H.t_exit = now_ns; trace("main returned %d", rc); }

static void cycle_cb(const std::vector<spectator::Measurement>& ms) { on_cycle(&ms, 0, false); }
static i64 lib_m0;
void on_cycle_lib(const void* mv, u64 ws, i64 m0) { lib_m0 = m0; on_cycle(mv, ws, true); }
void on_cycle(const void* mv, u64 ews, bool explicit_ws) {
  Scope sc;
  const auto& ms = *(const std::vector<spectator::Measurement>*)mv;
  Cycle c;
  Thr* t = cur;
  c.tid = t->id;
  u64 prev = last_cb_step.count(t->id) ? last_cb_step[t->id] : 0; i64 prevt = last_cb_time.count(t->id) ? last_cb_time[t->id] : H.t0;
  c.ws = prev; c.m0 = prevt;
  if (t->last_timed_wake_step > c.ws) { c.ws = t->last_timed_wake_step; c.m0 = t->last_timed_wake_time; c.timed = true; }
  if (explicit_ws) { c.ws = ews; c.m0 = lib_m0; }
  c.s1 = steps; c.m1 = now_ns;
  wall_range(c.m0, c.m1, &c.wl, &c.wh);
  last_cb_step[t->id] = steps; last_cb_time[t->id] = now_ns;
  c.meas.reserve(ms.size());
  for (auto& m : ms) {
    Entry e; e.name = m.id.Name().Get(); e.v = m.value;
    for (auto& tg : m.id.GetTags()) if (!e.tags.emplace(tg.key.Get(), tg.value.Get()).second) fail("C20", "dup-tag", "measured identifier %s carries tag key %s twice", e.name.c_str(), tg.key.Get());
    c.meas.push_back(std::move(e));
  }
  u64 h = 0; for (auto& e : c.meas) { h += std::hash<std::string>()(id_text(e.name, e.tags)); u64 b; memcpy(&b, &e.v, 8); h ^= b * 31; }
  hash_in(h);
  for (auto& pr : H.proc_reads) if (pr.s1 == ~0ULL && thrs[pr.tid]->last_cond_wait_begin_step > pr.s0) pr.s1 = thrs[pr.tid]->last_cond_wait_begin_step;
  trace("cycle %zu: %zu measurements ws=%llu", H.cycles.size(), ms.size(), (unsigned long long)c.ws);
  if (g_trace) for (auto& e : c.meas) trace("   %s = %.17g", id_text(e.name, e.tags).c_str(), e.v);
  if (!explicit_ws)
    for (auto& ci : cyc_items) if (ci.cyc == H.cycles.size()) { i64 t = std::max(now_ns, c.m0 + H.freq + ci.off); auto fn = ci.fn; if (!signalled) at(t, [fn] { hot(300); fn(); }); }
  H.cycles.push_back(std::move(c));
}

static std::vector<std::string> args;
int run_daemon() {
  const Plan& p = H.plan;
  {
    Scope s;
    args = {"spectatord_main"};
    if (p.num("uri", 1)) args.push_back("--uri=http://10.0.0.1:7101/api/v4/update");
    if (p.num("ipv4", 0)) args.push_back("--ipv4_only");
    if (p.num("statsd", 1)) args.push_back("--enable_statsd");
    if (!p.num("unix", 1)) args.push_back("--enable_socket=false");
    if (p.num("no_common_tags", 0)) args.push_back("--no_common_tags");
    if (p.num("verbose", 0)) args.push_back("--verbose");
    if (!p.str("ct_flag").empty()) args.push_back("--common_tags=" + p.str("ct_flag"));
    args.push_back(strf("--meter_ttl=%lldms", (long long)(H.ttl / kMs)));
    args.push_back(strf("--age_gauge_limit=%lld", (long long)H.age_limit));
  }
  std::vector<char*> av;
  { Scope s; for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr); }
  int rc = daemon_main((int)args.size(), av.data());
  Scope s;
  av.clear(); av.shrink_to_fit();
  note_exit(rc);
  return rc;
}

struct SimConfig : spectator::Config { bool is_enabled() const override { Scope s; sched_hint(); return enabled_now(); } static void sched_hint() {} };
}  // namespace world

extern "C" void __real__ZN9spectator8Registry5StartEv(spectator::Registry*) __attribute__((weak));
extern "C" void __wrap__ZN9spectator8Registry5StartEv(spectator::Registry* r) {
  if (!H.lib) r->OnMeasurements(world::cycle_cb);
  __real__ZN9spectator8Registry5StartEv(r);
}
auto make_config() -> std::unique_ptr<spectator::Config> {
  auto c = std::make_unique<world::SimConfig>();
  const Plan& p = H.plan;
  c->read_timeout = absl::Milliseconds(p.num("read_to_ms", 0));
  c->connect_timeout = absl::Milliseconds(p.num("conn_to_ms", 0));
  c->batch_size = (int)H.batch;
  c->frequency = absl::Nanoseconds(H.freq);
  c->expiration_frequency = absl::Nanoseconds(H.exp);
  c->meter_ttl = absl::Nanoseconds(H.ttl);
  c->age_gauge_limit = (size_t)H.age_limit;
  c->status_metrics_enabled = p.num("status", 1);
  for (auto& kv : world::tags_of(H.lib && H.plan.num("no_common_tags", 0) ? "" : world::own_tags())) c->common_tags.emplace(kv.first, kv.second);   // the flags may change them
  return c;
}
auto GetSpectatorConfig() -> std::unique_ptr<spectator::Config> { return make_config(); }

namespace rt {
std::string virtual_file(const std::string& path, bool* ex) {
  using namespace world;
  *ex = true;
  if (path == "/proc/net/udp" || path == "/proc/net/udp6") {
    // the signal meets the daemon's upkeep
    if (H.plan.num("usig", -1) == usig_n++ && !signalled) after(H.plan.num("usig_off_us", 0) * kUs, [] { hot(300); if (!signalled) do_signal(H.plan.num("sigint", 0) ? 2 : 15); });
    bool v6 = path.back() == '6';
    std::string s = "  sl  local_address rem_address   st tx_queue rx_queue tr tm->when retrnsmt   uid  timeout inode ref pointer drops\n";
    bool mine6 = !H.plan.num("ipv4", 0);
    s += strf("  %s: %s:14E9 %s:0000 07 00000000:00000000 00:00000000 00000000   102        0 12001 2 0000000000000000 7\n", "101", v6 ? "00000000000000000000000000000000" : "00000000", v6 ? "00000000000000000000000000000000" : "00000000");
    int bad = 0;
    if (v6 == mine6) {
      std::string pb = H.plan.str("proc_bad"); size_t n = H.proc_reads.size(); bad = n < pb.size() ? pb[n] - '0' : 0;
      if (bad) { static const char* names[] = {"", "missing", "header", "no_line", "cut_line", "long_line", "empty"}; count(strf("fault.proc.%s", names[bad]).c_str()); }
      if (bad && bad != 5) H.proc_reads.push_back({steps, now_ns, drops_now, rxq_now, cur->id, ~0ULL, false});
      if (bad == 1) { *ex = false; return ""; }
      if (bad == 2) return s;
      if (bad == 6) return "";
      if (bad == 5) s += strf("  100: %s:0035 ", v6 ? "00000000000000000000000000000000" : "00000000") + std::string(5000, '7') + "\n   \n";
      if (bad == 4) { s += "  102: 00000000:04D2 00000000:0000 07 00000000:00\n"; return s; }
    }
    if (v6 == mine6 && (!bad || bad == 5)) {
      s += strf("  102: %s:04D2 %s:0000 07 00000000:%08llX 00:00000000 00000000     0        0 12002 2 0000000000000000 %llu\n", v6 ? "00000000000000000000000000000000" : "00000000", v6 ? "00000000000000000000000000000000" : "00000000", (unsigned long long)rxq_now, (unsigned long long)drops_now);
      H.proc_reads.push_back({steps, now_ns, drops_now, rxq_now, cur->id, ~0ULL, true});
    }
    s += strf("  103: %s:0044 %s:0000 07 00000000:000000AA 00:00000000 00000000     0        0 12003 2 0000000000000000 99\n", v6 ? "00000000000000000000000000000000" : "00000000", v6 ? "00000000000000000000000000000000" : "00000000");
    return s;
  }
  if (path == "/proc/sys/net/core/rmem_max") return "212992\n";
  *ex = false;
  return "";
}
}  // namespace rt
