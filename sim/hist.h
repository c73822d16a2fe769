// The recorded history of one run and the reference reading of the line protocols.
#pragma once
#include "codec.h"
#include "plan.h"
#include "rt.h"
#include <deque>
#include <set>
using rt::i64; using rt::u64; using rt::u32;

struct Op {               // one accepted update (a line, or a direct call in library mode)
  char type = 0;          // A c C d D g m t T U X; '-' delete of one meter, '=' delete of a kind
  std::string name; TagMap tags; std::string id;
  double v = 0; u64 u = 0; i64 extra = 0; int rep = 1;
  u64 s0 = 0, s1 = ~0ULL;            // scheduling-step window of the update
  i64 m0 = 0, m1 = INT64_MAX;        // monotonic time window
  i64 w0 = 0, w1 = INT64_MAX;        // wall time window (min, max seen)
  int src = 0;                       // 0 udp 1 unix 2 statsd 3 direct 4 internal
  const char* cls = nullptr;         // property that judges it (internal ops)
  double lo = 0, hi = 0; bool ranged = false;   // uncertain contribution
};
struct RefLine { bool ok = false; bool has_op = false; Op op; std::string text; };
// proto: 0 spectatord, 1 statsd
std::vector<RefLine> ref_parse(int proto, const std::string& payload);

struct Cycle {
  u64 ws = 0, s1 = 0;                // window: no later than ws nothing of this cycle happened; s1 = callback
  i64 m0 = 0, m1 = 0, wl = 0, wh = 0;// times at window start / callback; wall range within
  bool timed = false;                // window start is a timed wake of the thread
  bool enabled = true;
  int tid = 0;
  std::vector<Entry> meas;
};
struct Attempt {
  u64 conn = 0; int tid = 0, idx = 0; std::string beh;
  u64 s_open = 0, s_close = 0; i64 t_open = 0, t_req = 0, t_resp = 0, t_close = 0;
  std::string raw, body, head; bool req = false, closed = false; int status = 0; std::string rbody;
  bool resp_sent = false;            // complete answer handed to the application in order
  bool visible() const { return req; }
};
struct DgRec { u64 tag = 0; int sock = 0; std::string data; i64 t_sent = 0, t_recv = 0, t_done = 0; u64 s_sent = 0, s_recv = 0, s_done = 0; int delivered = 0; int rc = 0; size_t n = 0; std::vector<size_t> ops; };
struct AdminRec {
  int idx = 0; std::string method, uri, host, body, beh;
  i64 t0 = 0, t1 = 0; u64 s0 = 0, s1 = 0; bool sent = false, complete = false, refused = false, closed = false;
  std::string raw; int status = 0; std::string rbody;
  long op = -1;                      // the deletion it asks for, in ops
  bool whole() const { return beh != "garbage" && beh != "idle" && beh != "rst_mid" && beh != "fin_mid"; }   // the request was sent completely
  bool local() const { for (std::string n : {"localhost", "127.0.0.1", "[::1]"}) if (host == n || host.compare(0, n.size() + 1, n + ":") == 0) return true; return false; }
};
struct Hist {
  Plan plan;
  std::vector<Op> ops;
  std::vector<Cycle> cycles;
  std::vector<Attempt> attempts;
  std::deque<DgRec> dgs;
  std::deque<AdminRec> admin;
  std::vector<std::pair<i64, i64>> wall_steps;   // (mono time, delta)
  std::vector<std::pair<i64, bool>> enable;      // publishing switched
  i64 t0 = 0;                       // simulated start
  i64 t_calm = 0;                   // faults stop
  u64 s_final = 0; i64 t_final = 0; // workload finished and everything measured (0 = not reached)
  u64 final_cycles = 0;             // cycles completed at that point
  i64 t_signal = 0, t_exit = 0; u64 s_signal = 0; int exit_code = -1; bool exited = false;
  i64 stall_ns = 0;                 // total injected stalls
  i64 freq = 0, ttl = 0, exp = 0, conn_to = 0, read_to = 0; i64 batch = 0, age_limit = 0;
  bool status = true, lib = false, uri = true;
  TagMap common;
  struct SizeObs { u64 s0, s1; i64 m0, m1; size_t n; };
  std::vector<SizeObs> sizes;       // library mode: Registry::Size observations
  // self-metric ground truth
  struct ProcRead { u64 s0; i64 t; u64 drops, rxq; int tid; u64 s1; bool ok; };   // ok: the line of the daemon's socket was there
  std::vector<ProcRead> proc_reads;
  struct EnvAt { i64 t; u64 drops, rxq; };
  std::vector<EnvAt> env;            // every state of the kernel's counters, with the time it began
};
extern Hist H;
i64 slack(i64 m_from, i64 m_to, u64 s_from, u64 s_to);   // time that scheduling and injected stalls may explain
void evaluate();                    // runs every oracle; reports the first violation
void fail(const char* props, const char* kind, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
