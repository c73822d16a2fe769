// Deterministic simulation runtime: threads, clocks, decisions, memory, violations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <functional>
#include <pthread.h>
#include <time.h>

namespace rt {

using i64 = int64_t;
using u64 = uint64_t;
using u32 = uint32_t;
using u16 = uint16_t;
using u8 = uint8_t;

constexpr i64 kUs = 1000, kMs = 1000000, kSec = 1000000000;
constexpr i64 kNever = INT64_MAX;
constexpr int kMaxThr = 250;

// ---- PRNG ---------------------------------------------------------------
struct Rng {
  u64 s[2];
  explicit Rng(u64 seed = 1) { reseed(seed); }
  static u64 mix(u64& x) {
    u64 z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  void reseed(u64 seed) { s[0] = mix(seed); s[1] = mix(seed); }
  u64 next() {
    u64 a = s[0], b = s[1];
    s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
  }
  u64 below(u64 n) { return n <= 1 ? 0 : next() % n; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool p(double x) { return unit() < x; }
};

// ---- vector clocks --------------------------------------------------------
struct VC {
  std::vector<u32> c;
  u32 get(int t) const { return t < (int)c.size() ? c[t] : 0; }
  void set(int t, u32 v) { if (t >= (int)c.size()) c.resize(t + 1, 0); c[t] = v; }
  void join(const VC& o) {
    if (o.c.size() > c.size()) c.resize(o.c.size(), 0);
    for (size_t i = 0; i < o.c.size(); ++i) if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

// ---- threads ---------------------------------------------------------------
enum class St : u8 { Runnable, Blocked, Done };
enum class WaitKind : u8 { None, Mutex, Cond, Join, Fd, Sleep, Futex, Once, Other };

struct Thr {
  int id = 0;
  pthread_t pt{};
  int go = 0;  // futex word
  St st = St::Runnable;
  WaitKind wk = WaitKind::None;
  const void* obj = nullptr;
  i64 deadline = kNever;   // in its own clock
  bool dl_real = false;    // deadline in wall-clock time
  bool woken = false;
  i64 stall_until = 0;
  i64 blocked_since = 0;
  u32 prio = 0;
  VC vc;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  bool detached = false, joined = false, reaped = false, harness = false;
  bool exiting = false;
  u64 start_pc = 0;
  // application call stack (from function entry/exit instrumentation)
  std::vector<u64> stack;
  // periodic wait bookkeeping: step at which it last left a timed condition wait
  u64 last_timed_wake_step = 0;
  i64 last_timed_wake_time = 0;
  u64 last_cond_wait_begin_step = 0;
  int user = 0;
};

// ---- run-time state ----------------------------------------------------------
struct Opts {
  // schedule policy
  int policy = 0;          // 0 random walk, 1 PCT, 2 burst, 3 cooperative
  double p_switch = 0.1;   // random walk switch probability at a scheduling point
  double p_switch_hot = 0.3;
  double p_func = 0;       // treat function entries as scheduling points with this probability
  double p_plain = 0;      // same for plain accesses
  int pct_depth = 3;
  u64 pct_len = 20000;
  i64 tick = 200;          // ns per scheduling point
  double p_cas_fail = 0;   // weak CAS spurious failure
  double p_spurious = 0;   // spurious condition wake-up
  double p_stall = 0;      // stall the running thread
  i64 stall_max = 50 * kMs;
  u64 max_steps = 6000000;
  int hwc = 4;             // hardware_concurrency
  bool races = true;
};
extern Opts opts;

extern bool g_on;          // simulation active
extern int g_in_rt;        // >0 while in runtime / world code
extern Thr* cur;
extern std::vector<Thr*> thrs;
extern i64 now_ns;         // simulated monotonic time
extern i64 wall_off;       // wall = now_ns + wall_off
extern u64 steps;          // scheduling points so far
extern u64 run_hash;       // rolling hash of everything observable
extern u64 sched_hash;     // hash of the sequence of context switches
extern u64 n_switches, n_accesses, n_atomics;
static const size_t kStack = 8u << 20;
void* fixed_stack(int id);
extern std::vector<std::pair<i64, i64>> stalls;   // injected stalls

#define RT_PLAIN __attribute__((no_sanitize_thread, noinline))
struct Scope { RT_PLAIN Scope() { ++g_in_rt; } RT_PLAIN ~Scope() { --g_in_rt; } };
struct AppScope { int s; RT_PLAIN AppScope() : s(g_in_rt) { g_in_rt = 0; } RT_PLAIN ~AppScope() { g_in_rt = s; } };

inline void hash_in(u64 v) { run_hash = (run_hash ^ v) * 0x100000001b3ULL; run_hash ^= run_hash >> 29; }

i64 wall_now();

// decisions: 0 is always the default outcome
enum Dk : u8 { D_Switch = 1, D_Pick, D_Cas, D_Spur, D_Stall, D_Wake, D_Net, D_World, D_MAX };
u32 decide(Dk kind, u32 n);                    // uniform in [0,n)
bool decide_p(Dk kind, double p);              // true with probability p
struct Decision { u64 idx; u32 val; };
extern std::vector<Decision> dec_log;
void set_decisions_random(u64 seed);
void set_decisions_replay(const std::vector<Decision>& d);

void sim_begin();                               // main thread becomes thread 0
void sched_point(int kind, const void* obj);    // a point where another thread may run
bool block_on(WaitKind wk, const void* obj, i64 deadline, bool dl_real);  // true if woken
void wake_all(const void* obj);
bool wake_one(const void* obj);
Thr* spawn_harness(std::function<void()> fn, const char* name);  // harness thread
void sleep_until(i64 t);
i64 next_timeout(i64 to);   // when the next timed wait on a condition ends, if that is not after `to`
void notice_new_deadline();

// world events
void at(i64 t, std::function<void()> fn);
inline void after(i64 d, std::function<void()> fn) { at(now_ns + (d > 0 ? d : 0), std::move(fn)); }
void hot(u64 n);   // raise switch probability for n steps

// memory
void app_mem_init();
void app_mem_fresh();
void* rt_alloc(size_t n);
enum class Mem : u8 { Ok, Redzone, Freed, Unalloc, NotHeap };
Mem mem_check(u64 addr, size_t n);
extern u64 n_allocs, n_frees, heap_bytes;

// happens-before
void hb_release(const void* obj);
void hb_acquire(const void* obj);
void race_reset(u64 addr, size_t n);
void on_access(u64 addr, size_t n, bool write, bool atomic, u64 pc);
void dump_stack(std::string* out, Thr* t, u64 pc);

// outcome
[[noreturn]] void violation(const char* klass, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_run(const char* status, const std::string& klass, const std::string& msg);
extern std::function<void(std::string*)> on_result;   // appends key=value lines to the result
void set_result_buf(char* p, size_t n);
void count(const char* key, i64 d = 1);               // named counters (fault kinds, probes)
i64 counter(const char* key);
extern bool g_trace;
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);

}  // namespace rt
namespace rt {
int create_thread(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg);
void hb_atomic_release(const void* a);
void m_forget(const void* a);
// simulated signals: deliver to the handler the application registered; false if none
bool deliver_signal(int signo);
bool signal_registered(int signo);
void install_crash_handlers();
// descriptors
void net_init();
std::string virtual_file(const std::string& path, bool* exists);   // defined by the world
}
