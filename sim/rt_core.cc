// Scheduler, clock, event queue, decisions, outcome reporting.
#include <sys/mman.h>
#include "rt.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <queue>
#include <sys/syscall.h>
#include <unistd.h>
#include <dlfcn.h>

namespace rt {
Opts opts;
bool g_on = false;
int g_in_rt = 0;
Thr* cur = nullptr;
std::vector<Thr*> thrs;
i64 now_ns = 1000 * kSec;
i64 wall_off = 1700000000LL * kSec;
u64 steps = 0, run_hash = 0xcbf29ce484222325ULL, sched_hash = 0xcbf29ce484222325ULL;
u64 n_switches = 0, n_accesses = 0, n_atomics = 0;
std::vector<std::pair<i64, i64>> stalls;
std::function<void(std::string*)> on_result;
bool g_trace = false;

static i64 next_due = 0;
static u64 hot_until = 0;
static std::vector<u64> pct_points;
static size_t pct_i = 0;
static u32 pct_low = 1000;
static Thr* pending_reap = nullptr;

long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

i64 wall_now() { return now_ns + wall_off; }

// ---- decisions -----------------------------------------------------------------
static Rng dec_rng(1);
static bool dec_replay = false;
static u64 dec_idx = 0;
static std::unordered_map<u64, u32> dec_map;
std::vector<Decision> dec_log;

void set_decisions_random(u64 seed) { dec_rng.reseed(seed); dec_replay = false; }
void set_decisions_replay(const std::vector<Decision>& d) {
  dec_replay = true;
  for (auto& x : d) dec_map[x.idx] = x.val;
}
static u32 dec_record(u64 idx, u32 v) {
  if (v) { dec_log.push_back({idx, v}); hash_in(idx * 31 + v); }
  return v;
}
static u32 replay_val(u64 idx) {
  auto it = dec_map.find(idx);
  return it == dec_map.end() ? 0 : it->second;
}
u32 decide(Dk, u32 n) {
  u64 idx = dec_idx++;
  if (n <= 1) return 0;
  if (dec_replay) { u32 v = replay_val(idx); return dec_record(idx, v < n ? v : 0); }
  return dec_record(idx, (u32)dec_rng.below(n));
}
bool decide_p(Dk, double p) {
  u64 idx = dec_idx++;
  if (dec_replay) return dec_record(idx, replay_val(idx) ? 1 : 0);
  if (p <= 0) return false;
  return dec_record(idx, dec_rng.p(p) ? 1 : 0);
}

// ---- outcome ---------------------------------------------------------------------
static char* res_buf; static size_t res_cap;
void set_result_buf(char* p, size_t n) { res_buf = p; res_cap = n; }

std::string strf(const char* fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  return std::string(b, n < 0 ? 0 : std::min<size_t>(n, sizeof b - 1));
}
static std::map<std::string, i64>* counters;
void count(const char* key, i64 d) {
  Scope s;
  if (!counters) counters = new std::map<std::string, i64>();
  (*counters)[key] += d;
}
i64 counter(const char* key) {
  Scope s;
  if (!counters) return 0;
  auto it = counters->find(key);
  return it == counters->end() ? 0 : it->second;
}
void trace(const char* fmt, ...) {
  if (!g_trace) return;
  char b[2048]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 2, fmt, ap); va_end(ap);
  if (n < 0) n = 0;
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  char h[64]; int m = snprintf(h, sizeof h, "[%lld.%09lld s%llu t%d] ", (long long)(now_ns / kSec), (long long)(now_ns % kSec), (unsigned long long)steps, cur ? cur->id : -1);
  raw_syscall(SYS_write, 2, (long)h, m);
  raw_syscall(SYS_write, 2, (long)b, n);
}

void dump_stack(std::string* out, Thr* t, u64 pc) {
  char b[32];
  if (pc) { snprintf(b, sizeof b, " %llx", (unsigned long long)pc); *out += b; }
  if (!t) return;
  int k = 0;
  for (auto it = t->stack.rbegin(); it != t->stack.rend() && k < 14; ++it, ++k) {
    snprintf(b, sizeof b, " %llx", (unsigned long long)*it); *out += b;
  }
}

void finish_run(const char* status, const std::string& klass, const std::string& msg) {
  ++g_in_rt;
  static bool once = false;
  if (once) raw_syscall(SYS_exit_group, 3);
  once = true;
  std::string o;
  o += strf("status=%s\n", status);
  if (!klass.empty()) {
    o += "class=" + klass + "\n";
    std::string m = msg; for (auto& ch : m) if (ch == '\n') ch = ' ';
    o += "msg=" + m + "\n";
    std::string st; dump_stack(&st, cur, 0);
    o += "stack=" + st + "\n";
  }
  o += strf("steps=%llu\nsim_ns=%lld\nhash=%016llx\nsched=%016llx\nswitches=%llu\naccesses=%llu\natomics=%llu\nthreads=%zu\ndecisions=%zu\nallocs=%llu\n",
            (unsigned long long)steps, (long long)(now_ns - 1000 * kSec), (unsigned long long)run_hash, (unsigned long long)sched_hash,
            (unsigned long long)n_switches, (unsigned long long)n_accesses, (unsigned long long)n_atomics, thrs.size(), dec_log.size(), (unsigned long long)n_allocs);
  if (counters) for (auto& kv : *counters) o += strf("c.%s=%lld\n", kv.first.c_str(), (long long)kv.second);
  if (on_result) on_result(&o);
  if (res_buf) {
    size_t n = std::min(o.size(), res_cap - 1);
    memcpy(res_buf, o.data(), n); res_buf[n] = 0;
  } else {
    raw_syscall(SYS_write, 1, (long)o.data(), o.size());
  }
  raw_syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}
void violation(const char* klass, const char* fmt, ...) {
  ++g_in_rt;
  char b[6000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  trace("VIOLATION %s: %s", klass, b);
  finish_run("violation", klass, b);
}

// ---- events -----------------------------------------------------------------------
struct Ev { i64 t; u64 seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev* a, const Ev* b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev*, std::vector<Ev*>, EvCmp>* evq;
static u64 ev_seq;
void at(i64 t, std::function<void()> fn) {
  Scope s;
  if (!evq) evq = new std::priority_queue<Ev*, std::vector<Ev*>, EvCmp>();
  evq->push(new Ev{t < now_ns ? now_ns : t, ev_seq++, std::move(fn)});
  next_due = 0;
}
void notice_new_deadline() { next_due = 0; }
void hot(u64 n) { if (steps + n > hot_until) hot_until = steps + n; }

static i64 eff_deadline(const Thr* t) {
  if (t->deadline == kNever) return kNever;
  return t->dl_real ? t->deadline - wall_off : t->deadline;
}

static void make_runnable(Thr* t, bool woken) {
  t->st = St::Runnable; t->woken = woken; t->obj = nullptr;
}

// run events due, release timed-out threads; recompute next_due
static void process_due() {
  for (;;) {
    i64 nd = kNever;
    bool again = false;
    for (Thr* t : thrs) {
      if (t->st == St::Blocked) {
        i64 d = eff_deadline(t);
        if (d <= now_ns) {
          if (t->wk == WaitKind::Cond) hot(400);
          make_runnable(t, false);
        } else nd = std::min(nd, d);
      } else if (t->st == St::Runnable && t->stall_until > now_ns) nd = std::min(nd, t->stall_until);
    }
    while (evq && !evq->empty() && evq->top()->t <= now_ns) {
      Ev* e = evq->top(); evq->pop();
      e->fn();
      delete e;
      again = true;
    }
    if (again) continue;
    if (evq && !evq->empty()) nd = std::min(nd, evq->top()->t);
    next_due = nd;
    return;
  }
}

// ---- thread hand-over ------------------------------------------------------------------
static void futex_wait(int* w, int v) { raw_syscall(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, v, 0); }
static void futex_wake(int* w) { raw_syscall(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1); }

static int (*real_join)(pthread_t, void**);

static void after_resume(Thr* me) {
  (void)me;
  if (pending_reap) {
    Thr* r = pending_reap; pending_reap = nullptr;
    if (!real_join) real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
    real_join(r->pt, nullptr);   // wait until its thread-local destructors have run
    r->reaped = true;
  }
}
static void park(Thr* me) {
  while (__atomic_load_n(&me->go, __ATOMIC_ACQUIRE) == 0) futex_wait(&me->go, 0);
  __atomic_store_n(&me->go, 0, __ATOMIC_RELAXED);
}
static void transfer(Thr* me, Thr* next) {
  if (next == me) return;
  ++n_switches;
  sched_hash = (sched_hash ^ (u64)(next->id + 1)) * 0x100000001b3ULL;
  hash_in(steps * 131 + next->id);
  cur = next;
  int save = g_in_rt;
  __atomic_store_n(&next->go, 1, __ATOMIC_RELEASE);
  futex_wake(&next->go);
  if (me->exiting) return;
  park(me);
  g_in_rt = save;
  after_resume(me);
}

static void collect(std::vector<Thr*>* out) {
  out->clear();
  for (Thr* t : thrs) if (t->st == St::Runnable && t->stall_until <= now_ns) out->push_back(t);
}
static std::vector<Thr*>* rv;

static void deadlock_report() {
  std::string m = "no thread can ever run again:";
  for (Thr* t : thrs) if (t->st == St::Blocked) { m += strf(" [t%d wait=%d obj=%p stack:", t->id, (int)t->wk, t->obj); dump_stack(&m, t, 0); m += "]"; }
  violation("generic:deadlock", "%s", m.c_str());
}

// choose the next thread when `me` cannot continue (blocked / done)
static Thr* pick_next(Thr* me) {
  for (;;) {
    if (now_ns >= next_due) process_due();
    collect(rv);
    if (!rv->empty()) break;
    if (next_due == kNever) deadlock_report();
    if (next_due > now_ns) now_ns = next_due;
    process_due();
  }
  auto& v = *rv;
  u64 idx = dec_idx++;
  Thr* dflt = nullptr;
  for (Thr* t : v) if (t->id > me->id) { dflt = t; break; }
  if (!dflt) dflt = v[0];
  Thr* pick = dflt;
  if (dec_replay) {
    u32 val = replay_val(idx);
    if (val) for (Thr* t : v) if (t->id + 1 == (int)val) pick = t;
  } else if (opts.policy == 1) {
    for (Thr* t : v) if (t->prio > pick->prio) pick = t;
  } else if (v.size() > 1) {
    pick = v[dec_rng.below(v.size())];
  }
  if (pick != dflt) dec_record(idx, pick->id + 1);
  return pick;
}

static void switch_away(Thr* me) {
  Thr* n = pick_next(me);
  transfer(me, n);
}

void sched_point(int kind, const void* obj) {
  if (g_in_rt || !g_on) return;
  Scope s;
  Thr* me = cur;
  ++steps;
  now_ns += opts.tick;
  if (steps > opts.max_steps) {
    std::string m; dump_stack(&m, me, 0);
    violation("generic:no-progress", "step limit of the run exceeded without completing the workload; running thread t%d stack:%s", me->id, m.c_str());
  }
  if (now_ns >= next_due) process_due();
  u64 idx = dec_idx++;
  Thr* pick = me;
  if (dec_replay) {
    u32 val = replay_val(idx);
    if (val == 0xffff) {
      dec_record(idx, 0xffff);
      me->stall_until = now_ns + 1 + (i64)decide(D_Stall, 0xffffffu) * (opts.stall_max / 0xffffff + 1);
      next_due = 0;
      stalls.push_back({now_ns, me->stall_until}); count("fault.stall");
      hash_in(0x57a11);
      switch_away(me);
      return;
    } else if (val) {
      collect(rv);
      for (Thr* t : *rv) if (t->id + 1 == (int)val) pick = t;
    }
  } else if (opts.policy == 1) {
    while (pct_i < pct_points.size() && steps >= pct_points[pct_i]) { ++pct_i; me->prio = pct_low > 0 ? --pct_low : 0; }
    collect(rv);
    for (Thr* t : *rv) if (t->prio > pick->prio) pick = t;
  } else if (opts.policy != 3) {
    double p = steps < hot_until ? opts.p_switch_hot : opts.p_switch;
    if (dec_rng.p(p)) {
      collect(rv);
      if (rv->size() > 1) pick = (*rv)[dec_rng.below(rv->size())];
    }
    if (opts.p_stall > 0 && dec_rng.p(opts.p_stall)) {
      dec_record(idx, 0xffff);
      me->stall_until = now_ns + 1 + (i64)decide(D_Stall, 0xffffffu) * (opts.stall_max / 0xffffff + 1);
      next_due = 0;
      stalls.push_back({now_ns, me->stall_until}); count("fault.stall");
      hash_in(0x57a11);
      switch_away(me);
      return;
    }
  }
  if (pick != me) {
    dec_record(idx, pick->id + 1);
    hash_in((u64)kind);
    (void)obj;
    transfer(me, pick);
  }
}

bool block_on(WaitKind wk, const void* obj, i64 deadline, bool dl_real) {
  Scope s;
  Thr* me = cur;
  ++steps;
  now_ns += opts.tick;
  me->st = St::Blocked; me->wk = wk; me->obj = obj; me->deadline = deadline; me->dl_real = dl_real;
  me->woken = false; me->blocked_since = now_ns;
  next_due = 0;
  switch_away(me);
  if (deadline != kNever && (wk == WaitKind::Cond || wk == WaitKind::Sleep || wk == WaitKind::Futex)) { me->last_timed_wake_step = steps; me->last_timed_wake_time = now_ns; }
  me->wk = WaitKind::None; me->deadline = kNever;
  return me->woken;
}
void wake_all(const void* obj) {
  for (Thr* t : thrs) if (t->st == St::Blocked && t->obj == obj) make_runnable(t, true);
}
bool wake_one(const void* obj) {
  Thr* w[kMaxThr]; u32 n = 0;
  for (Thr* t : thrs) if (t->st == St::Blocked && t->obj == obj) w[n++] = t;
  if (!n) return false;
  make_runnable(w[n > 1 ? decide(D_Wake, n) : 0], true);
  return true;
}
i64 next_timeout(i64 to) {
  i64 best = kNever, since = kNever;
  for (auto* t : thrs) {
    if (!t || t->st != St::Blocked || (t->wk != WaitKind::Cond && t->wk != WaitKind::Futex)) continue;
    i64 d = eff_deadline(t);
    if (d <= now_ns || d > to) continue;
    if (t->blocked_since < since) { since = t->blocked_since; best = d; }
  }
  return best;
}
void sleep_until(i64 t) {
  while (now_ns < t) block_on(WaitKind::Sleep, nullptr, t, false);
}

// ---- thread creation / exit ------------------------------------------------------------
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

static void thread_exit(Thr* me) {
  // final action of a simulated thread; caller returns from the real thread function right after
  sched_point(1, me);
  ++g_in_rt;
  me->st = St::Done;
  hb_release(me);
  wake_all(me);
  me->exiting = true;
  pending_reap = me;
  Thr* n = pick_next(me);
  transfer(me, n);   // does not park; g_in_rt stays raised for our thread-local destructors
}

static void* trampoline(void* a) {
  Thr* me = (Thr*)a;
  park(me);
  g_in_rt = 1;
  after_resume(me);
  hb_acquire(me);
  {
    // the stack may have belonged to an earlier, joined thread
    pthread_attr_t at; void* lo = nullptr; size_t n = 0;
    if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &n); pthread_attr_destroy(&at); u64 sp = (u64)__builtin_frame_address(0); if (lo && sp > (u64)lo) race_reset((u64)lo, sp - (u64)lo); }
  }
  g_in_rt = 0;
  void* r = me->fn(me->arg);
  me->ret = r;
  thread_exit(me);
  return r;
}

static Thr* last_new;
static Thr* new_thr() {
  Thr* t = new Thr();
  t->id = (int)thrs.size();
  Thr* old = nullptr;
  if (t->id >= kMaxThr) {   // take over the number of a thread that has gone (its clock goes on)
    for (int i = 1; i < kMaxThr && !old; ++i) { Thr* c = thrs[i]; if (c->st == St::Done && (c->joined || c->detached) && c->reaped && !c->harness) old = c; }
    if (!old) violation("generic:too-many-threads", "thread limit exceeded");
    t->id = old->id;
  }
  t->prio = dec_replay ? 0 : 10000 + (u32)(dec_rng.next() % 100000);
  t->stack.reserve(256);
  t->vc.set(t->id, old ? old->vc.get(t->id) + 1 : 1);
  if (old) thrs[t->id] = t; else thrs.push_back(t);
  last_new = t;
  return t;
}

// stacks lie at fixed addresses, so that nothing outside the plan can influence a run
void* fixed_stack(int id) {
  char* want = (char*)0x700000000000ULL + (u64)id * (kStack + (1 << 20)) + (1 << 20);
  void* p = mmap(want, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) violation("generic:thread-create", "no stack");
  return p;
}

int create_thread(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  Scope s;
  if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
  Thr* t = new_thr();
  t->fn = fn; t->arg = arg;
  hb_release(t);
  pthread_attr_t a;
  bool own = false;
  if (!attr) { pthread_attr_init(&a); own = true; }
  else { a = *attr; int ds; pthread_attr_getdetachstate(&a, &ds); if (ds == PTHREAD_CREATE_DETACHED) { t->detached = true; pthread_attr_setdetachstate(&a, PTHREAD_CREATE_JOINABLE); } }
  pthread_attr_setstack(&a, fixed_stack(t->id), kStack);
  int rc = real_create(&t->pt, &a, trampoline, t);
  if (own) pthread_attr_destroy(&a);
  if (rc) violation("generic:thread-create", "real pthread_create failed: %d", rc);
  *out = t->pt;
  t->start_pc = (u64)fn;
  trace("create thread t%d", t->id);
  return 0;
}

void sim_begin() {
  Scope s;
  real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
  rv = new std::vector<Thr*>(); rv->reserve(kMaxThr);
  Thr* t = new_thr();
  t->pt = pthread_self();
  cur = t;
  if (opts.policy == 1) {
    for (int i = 0; i < opts.pct_depth; ++i) pct_points.push_back(dec_rng.below(opts.pct_len) + 1);
    std::sort(pct_points.begin(), pct_points.end());
  }
  g_on = true;
}

struct HArg { std::function<void()> fn; };
static void* harness_main(void* p) {
  HArg* h = (HArg*)p;
  h->fn();
  { Scope s; delete h; }
  return nullptr;
}
Thr* spawn_harness(std::function<void()> fn, const char* name) {
  Scope s;
  (void)name;
  HArg* h = new HArg{std::move(fn)};
  pthread_t p;
  create_thread(&p, nullptr, harness_main, h);
  last_new->harness = true;
  return last_new;
}
}  // namespace rt
