// Interposed synchronisation, time, process and miscellaneous functions.
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <mutex>
#include <type_traits>
#include <utility>
#define private public
#include <absl/synchronization/mutex.h>
#include <absl/synchronization/blocking_counter.h>
#include <absl/synchronization/notification.h>
#undef private
#include "rt.h"
#include <dlfcn.h>
#include <linux/futex.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/sysinfo.h>
#include <unistd.h>

namespace rt {

template <class F> static F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

// ---- mutexes ------------------------------------------------------------------------
struct MState { int owner = -1; int depth = 0; int readers = 0; };
static std::unordered_map<const void*, MState>* mtab;
static MState& ms(const void* a) { if (!mtab) mtab = new std::unordered_map<const void*, MState>(); return (*mtab)[a]; }
void m_forget(const void* a) { if (mtab) mtab->erase(a); }

static void check_cycle(const void* a) {
  const void* o = a;
  for (int n = 0; n < kMaxThr; ++n) {
    MState& s = ms(o);
    if (s.owner < 0) return;
    if (s.owner == cur->id) {
      std::string m = "lock cycle:";
      const void* q = a;
      for (int k = 0; k < kMaxThr; ++k) {
        int ow = ms(q).owner;
        m += strf(" mutex %p held by t%d stack:", q, ow); dump_stack(&m, thrs[ow], 0);
        if (ow == cur->id || thrs[ow]->st != St::Blocked) break;
        q = thrs[ow]->obj;
      }
      violation("generic:deadlock", "%s", m.c_str());
    }
    Thr* t = thrs[s.owner];
    if (t->st != St::Blocked || t->wk != WaitKind::Mutex) return;
    o = t->obj;
  }
}

// returns 0, EBUSY, ETIMEDOUT
static int m_lock(const void* a, bool recursive, bool try_only, i64 deadline = kNever, bool dl_real = false) {
  if (!g_on) return 0;
  sched_point(20, a);
  Scope sc;
  {
    MState& s = ms(a);
    if (s.owner == cur->id && recursive) { ++s.depth; return 0; }
    if (s.owner == cur->id && !try_only && g_in_rt == 1) {
      std::string m; dump_stack(&m, cur, 0);
      violation("generic:deadlock", "thread t%d locks a mutex it already holds; stack:%s", cur->id, m.c_str());
    }
  }
  for (;;) {
    MState& s = ms(a);
    if (s.owner < 0 && s.readers == 0) { s.owner = cur->id; s.depth = 1; break; }
    if (try_only) return EBUSY;
    if (g_in_rt > 1) break;  // thread-local destructor of an exiting thread: cannot wait
    check_cycle(a);
    bool w = block_on(WaitKind::Mutex, a, deadline, dl_real);
    if (!w && deadline != kNever) {
      MState& s2 = ms(a);
      if (s2.owner < 0 && s2.readers == 0) continue;
      return ETIMEDOUT;
    }
  }
  hb_acquire(a);
  return 0;
}
static void m_unlock(const void* a) {
  if (!g_on) return;
  {
    Scope sc;
    MState& s = ms(a);
    if (s.depth > 1) { --s.depth; return; }
    s.owner = -1; s.depth = 0;
    hb_release(a);
    wake_all(a);
  }
  sched_point(21, a);
}
static int m_rdlock(const void* a, bool try_only, i64 deadline = kNever, bool dl_real = false) {
  if (!g_on) return 0;
  sched_point(22, a);
  Scope sc;
  for (;;) {
    MState& s = ms(a);
    if (s.owner < 0) { ++s.readers; break; }
    if (try_only) return EBUSY;
    check_cycle(a);
    bool w = block_on(WaitKind::Mutex, a, deadline, dl_real);
    if (!w && deadline != kNever) return ETIMEDOUT;
  }
  hb_acquire(a);
  return 0;
}
static void m_rdunlock(const void* a) {
  if (!g_on) return;
  {
    Scope sc;
    MState& s = ms(a);
    if (s.readers > 0) --s.readers;
    hb_release(a);
    if (!s.readers) wake_all(a);
  }
  sched_point(23, a);
}

// ---- condition variables ----------------------------------------------------------------
// returns 0 or ETIMEDOUT
static int c_wait(const void* c, const void* m, i64 deadline, bool dl_real, bool recursive) {
  if (!g_on) return 0;
  sched_point(24, c);
  Scope sc;
  Thr* me = cur;
  me->last_cond_wait_begin_step = steps;
  i64 dl = deadline; bool dr = dl_real; bool spurious = false;
  if (opts.p_spurious > 0 && decide_p(D_Spur, opts.p_spurious)) {
    i64 t = now_ns + (i64)decide(D_Spur, 2000) * kMs;
    i64 eff = deadline == kNever ? kNever : dl_real ? deadline - wall_off : deadline;
    if (t < eff) { dl = t; dr = false; spurious = true; }
  }
  int depth;
  {
    MState& s = ms(m);
    depth = s.depth;
    s.owner = -1; s.depth = 0;
    hb_release(m);
    wake_all(m);
  }
  bool woken = block_on(WaitKind::Cond, c, dl, dr);
  if (!woken && spurious) count("fault.spurious_wakeup");
  if (deadline != kNever) { me->last_timed_wake_step = steps; me->last_timed_wake_time = now_ns; }
  for (;;) {
    MState& s = ms(m);
    if (s.owner < 0 && s.readers == 0) { s.owner = cur->id; s.depth = depth ? depth : 1; break; }
    check_cycle(m);
    block_on(WaitKind::Mutex, m, kNever, false);
  }
  (void)recursive;
  hb_acquire(m);
  return woken || spurious ? 0 : ETIMEDOUT;
}
static void c_signal(const void* c, bool all) {
  if (!g_on) return;
  sched_point(25, c);
  Scope sc;
  if (all) wake_all(c); else wake_one(c);
}

static i64 ts_ns(const timespec* t) {
  if (t->tv_sec > 9000000000LL) return kNever;
  return t->tv_sec * kSec + t->tv_nsec;
}

// ---- signals -------------------------------------------------------------------------------
static struct sigaction* sigtab;
bool signal_registered(int s) { return sigtab && sigtab[s].sa_handler != SIG_DFL && sigtab[s].sa_handler != SIG_IGN; }
bool deliver_signal(int s) {
  if (!signal_registered(s)) return false;
  if (sigtab[s].sa_flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s; sigtab[s].sa_sigaction(s, &si, nullptr); }
  else sigtab[s].sa_handler(s);
  return true;
}
static void crash(int s, siginfo_t* si, void*) {
  if (!g_on) { raw_syscall(SYS_exit_group, 70 + s); }
  ++g_in_rt;
  std::string m; dump_stack(&m, cur, 0);
  if (s == SIGPROF || s == SIGXCPU) violation("generic:runaway", "a thread computes without end; running t%d stack:%s", cur->id, m.c_str());
  violation("generic:crash", "signal %d at address %p in t%d stack:%s", s, si->si_addr, cur->id, m.c_str());
}
void install_crash_handlers() {
  auto ra = real<int (*)(int, const struct sigaction*, struct sigaction*)>("sigaction");
  static char alt[65536];
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGPROF, SIGXCPU}) {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = crash; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
    ra(s, &sa, nullptr);
  }
}
}  // namespace rt

using namespace rt;

extern "C" {
// ---- pthread mutex -----------------------------------------------------------------
static bool is_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t* m) { return m_lock(m, is_rec(m), false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return m_lock(m, is_rec(m), true); }
int pthread_mutex_unlock(pthread_mutex_t* m) { m_unlock(m); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return m_lock(m, is_rec(m), false, ts_ns(t), true); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) { return m_lock(m, is_rec(m), false, ts_ns(t), c == CLOCK_REALTIME); }
int pthread_mutex_destroy(pthread_mutex_t* m) { Scope s; m_forget(m); return 0; }

int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return m_rdlock(m, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return m_rdlock(m, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return m_lock(m, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return m_lock(m, false, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const timespec* t) { return m_rdlock(m, false, ts_ns(t), true); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const timespec* t) { return m_lock(m, false, false, ts_ns(t), true); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t c, const timespec* t) { return m_rdlock(m, false, ts_ns(t), c == CLOCK_REALTIME); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t c, const timespec* t) { return m_lock(m, false, false, ts_ns(t), c == CLOCK_REALTIME); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!g_on) return 0;
  bool w; { Scope s; w = ms(m).owner == cur->id; }
  if (w) m_unlock(m); else m_rdunlock(m);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* m) { Scope s; m_forget(m); return 0; }

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return c_wait(c, m, kNever, false, is_rec(m)); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  bool mono = (c->__data.__wrefs & 2) != 0;
  return c_wait(c, m, ts_ns(t), !mono, is_rec(m));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { return c_wait(c, m, ts_ns(t), k == CLOCK_REALTIME, is_rec(m)); }
int pthread_cond_signal(pthread_cond_t* c) { c_signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { c_signal(c, true); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }

// ---- once / guards ---------------------------------------------------------------------
struct OnceState { int owner = -1; bool done = false; };
static std::unordered_map<const void*, OnceState>* oncetab;
static OnceState& os_(const void* a) { if (!oncetab) oncetab = new std::unordered_map<const void*, OnceState>(); return (*oncetab)[a]; }
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!g_on) {
    if (*o & 2) return 0;
    fn(); *o |= 2; return 0;
  }
  sched_point(26, o);
  {
    Scope s;
    for (;;) {
      if (*o & 2) { hb_acquire(o); return 0; }
      OnceState& st = os_(o);
      if (st.owner < 0) { st.owner = cur->id; break; }
      if (st.owner == cur->id) violation("generic:deadlock", "recursive pthread_once");
      block_on(WaitKind::Once, o, kNever, false);
    }
  }
  try { fn(); } catch (...) {
    Scope s; os_(o).owner = -1; wake_all(o);
    throw;
  }
  Scope s;
  *o |= 2; os_(o).owner = -1; hb_release(o); wake_all(o);
  return 0;
}
int __cxa_guard_acquire(u64* g) {
  if (*(volatile u8*)g & 1) { if (g_on) hb_acquire(g); return 0; }
  if (!g_on) return 1;
  sched_point(27, g);
  Scope s;
  for (;;) {
    if (*(volatile u8*)g & 1) { hb_acquire(g); return 0; }
    OnceState& st = os_(g);
    if (st.owner < 0) { st.owner = cur->id; return 1; }
    if (st.owner == cur->id) violation("generic:deadlock", "recursive static initialisation");
    block_on(WaitKind::Once, g, kNever, false);
  }
}
void __cxa_guard_release(u64* g) {
  *(volatile u8*)g = 1;
  if (!g_on) return;
  { Scope s; os_(g).owner = -1; hb_release(g); hb_atomic_release(g); wake_all(g); }
  sched_point(28, g);
}
void __cxa_guard_abort(u64* g) {
  *(volatile u8*)g = 0;
  if (!g_on) return;
  Scope s; os_(g).owner = -1; wake_all(g);
}

// ---- threads ---------------------------------------------------------------------------
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!g_on) return real<decltype(&pthread_create)>("pthread_create")(t, a, fn, arg);
  int r = create_thread(t, a, fn, arg);
  sched_point(29, nullptr);
  return r;
}
int pthread_join(pthread_t p, void** ret) {
  if (!g_on) return real<decltype(&pthread_join)>("pthread_join")(p, ret);
  sched_point(30, nullptr);
  Scope s;
  Thr* t = nullptr;
  for (auto it = thrs.rbegin(); it != thrs.rend(); ++it)
    if (pthread_equal((*it)->pt, p) && !(*it)->joined && !(*it)->detached) { t = *it; break; }
  if (!t) return ESRCH;
  if (t == cur) return EDEADLK;
  while (t->st != St::Done) block_on(WaitKind::Join, t, kNever, false);
  hb_acquire(t);
  t->joined = true;
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!g_on) return real<decltype(&pthread_detach)>("pthread_detach")(p);
  Scope s;
  for (auto it = thrs.rbegin(); it != thrs.rend(); ++it)
    if (pthread_equal((*it)->pt, p) && !(*it)->joined && !(*it)->detached) { (*it)->detached = true; return 0; }
  return ESRCH;
}
int sched_yield(void) { if (g_on) sched_point(31, nullptr); return 0; }

// ---- semaphores -----------------------------------------------------------------------------
struct SemState { i64 v = 0; };
static std::unordered_map<const void*, SemState>* semtab;
static SemState& sem_(sem_t* s) {
  if (!semtab) semtab = new std::unordered_map<const void*, SemState>();
  auto it = semtab->find(s);
  if (it == semtab->end()) { it = semtab->emplace(s, SemState{(i64)*(unsigned*)s}).first; }
  return it->second;
}
int sem_init(sem_t* s, int, unsigned v) { memset(s, 0, sizeof *s); *(unsigned*)s = v; Scope sc; sem_(s).v = v; return 0; }
int sem_destroy(sem_t* s) { Scope sc; if (semtab) semtab->erase(s); return 0; }
int sem_post(sem_t* s) { { Scope sc; ++sem_(s).v; if (g_on) { hb_release(s); wake_one(s); } } sched_point(32, s); return 0; }
static int sem_wait_(sem_t* s, i64 dl, bool real_, bool try_only) {
  sched_point(33, s);
  Scope sc;
  for (;;) {
    SemState& st = sem_(s);
    if (st.v > 0) { --st.v; if (g_on) hb_acquire(s); return 0; }
    if (try_only || !g_on) { errno = EAGAIN; return -1; }
    bool w = block_on(WaitKind::Other, s, dl, real_);
    if (!w && dl != kNever && sem_(s).v <= 0) { errno = ETIMEDOUT; return -1; }
  }
}
int sem_wait(sem_t* s) { return sem_wait_(s, kNever, false, false); }
int sem_trywait(sem_t* s) { return sem_wait_(s, kNever, false, true); }
int sem_timedwait(sem_t* s, const timespec* t) { return sem_wait_(s, ts_ns(t), true, false); }
int sem_clockwait(sem_t* s, clockid_t c, const timespec* t) { return sem_wait_(s, ts_ns(t), c == CLOCK_REALTIME, false); }

// ---- raw futex ---------------------------------------------------------------------------------
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (g_on && n == SYS_futex) {
    int op = (int)b & 127 & ~FUTEX_PRIVATE_FLAG & ~FUTEX_CLOCK_REALTIME;
    bool rt_clock = b & FUTEX_CLOCK_REALTIME;
    int* w = (int*)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sched_point(34, w);
      Scope s;
      if (__atomic_load_n(w, __ATOMIC_SEQ_CST) != (int)c) { errno = EAGAIN; return -1; }
      i64 dl = kNever; bool dr = false;
      if (d) {
        i64 t = ts_ns((const timespec*)d);
        if (op == FUTEX_WAIT) dl = t == kNever ? kNever : now_ns + t; else { dl = t; dr = rt_clock; }
      }
      bool wk = block_on(WaitKind::Futex, w, dl, dr);
      hb_acquire(w);
      if (!wk) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long k = 0;
      { Scope s; hb_release(w); while (k < c && wake_one(w)) ++k; }
      sched_point(35, w);
      return k;
    }
  }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---- time ---------------------------------------------------------------------------------------
int clock_gettime(clockid_t c, timespec* ts) {
  if (!g_on) { long r = raw_syscall(SYS_clock_gettime, c, (long)ts); return r < 0 ? -1 : 0; }
  if (!g_in_rt) { sched_point(36, nullptr); }
  i64 v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? wall_now() : now_ns;
  ts->tv_sec = v / kSec; ts->tv_nsec = v % kSec;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* out) {
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (out) *out = ts.tv_sec;
  return ts.tv_sec;
}
int timespec_get(timespec* ts, int base) { clock_gettime(CLOCK_REALTIME, ts); return base; }
static int do_sleep(i64 d) {
  if (!g_on) { timespec t{d / kSec, d % kSec}; raw_syscall(SYS_nanosleep, (long)&t, 0); return 0; }
  sched_point(37, nullptr);
  Scope s;
  sleep_until(now_ns + (d > 0 ? d : 0));
  return 0;
}
int nanosleep(const timespec* t, timespec* rem) { i64 d = ts_ns(t); if (rem) rem->tv_sec = rem->tv_nsec = 0; return do_sleep(d); }   // t and rem may be the same object
int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec*) {
  i64 v = ts_ns(t);
  if (flags & TIMER_ABSTIME) {
    if (!g_on) return 0;
    sched_point(37, nullptr);
    Scope s;
    bool dr = c == CLOCK_REALTIME;
    while ((dr ? wall_now() : now_ns) < v) block_on(WaitKind::Sleep, nullptr, v, dr);
    return 0;
  }
  return do_sleep(v);
}
int usleep(useconds_t us) { return do_sleep((i64)us * 1000); }
unsigned sleep(unsigned s) { do_sleep((i64)s * kSec); return 0; }

// ---- machine / process ---------------------------------------------------------------------------
pid_t getpid(void) noexcept { return 4242; }
int get_nprocs(void) noexcept { return opts.hwc; }
int get_nprocs_conf(void) noexcept { return opts.hwc; }
long sysconf(int n) noexcept {
  if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return opts.hwc;
  static long (*r)(int);
  if (!r) r = real<long (*)(int)>("sysconf");
  return r(n);
}
ssize_t getrandom(void* p, size_t n, unsigned) {
  static u64 st = 88172645463325252ULL;
  for (size_t i = 0; i < n; ++i) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; ((u8*)p)[i] = (u8)st; }
  return (ssize_t)n;
}
int getentropy(void* p, size_t n) { getrandom(p, n, 0); return 0; }

int sigaction(int s, const struct sigaction* n, struct sigaction* o) noexcept {
  Scope sc;
  if (!sigtab) { sigtab = new struct sigaction[65]; memset(sigtab, 0, 65 * sizeof(struct sigaction)); }
  if (s < 1 || s > 64) { errno = EINVAL; return -1; }
  if (o) *o = sigtab[s];
  if (n) sigtab[s] = *n;
  return 0;
}
sighandler_t signal(int s, sighandler_t h) noexcept {
  struct sigaction n, o; memset(&n, 0, sizeof n); n.sa_handler = h;
  sigaction(s, &n, &o);
  return o.sa_handler;
}
void abort(void) noexcept {
  if (!g_on) { raw_syscall(SYS_exit_group, 134); __builtin_unreachable(); }
  Scope s;
  std::string m; dump_stack(&m, cur, (u64)__builtin_return_address(0));
  violation("generic:abort", "abort called in t%d stack:%s", cur->id, m.c_str());
}
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept {
  if (!g_on) { fprintf(stderr, "assert %s %s:%u\n", e, f, l); raw_syscall(SYS_exit_group, 134); __builtin_unreachable(); }
  Scope s;
  const char* b = strrchr(f, '/');
  std::string m; dump_stack(&m, cur, (u64)__builtin_return_address(0));
  violation("generic:assert", "assertion %s failed at %s in %s; t%d stack:%s", e, b ? b + 1 : f, fn, cur->id, m.c_str());
}
}  // extern "C"

// ---- absl ------------------------------------------------------------------------------------------
namespace absl {
ABSL_NAMESPACE_BEGIN
int64_t GetCurrentTimeNanos() {   // the library's own version extrapolates from the cycle counter
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  return ts_ns(&ts);
}
absl::Time Now() { return absl::FromUnixNanos(GetCurrentTimeNanos()); }
void Mutex::Lock() { m_lock(this, false, false); }
void Mutex::Unlock() { m_unlock(this); }
bool Mutex::TryLock() { return m_lock(this, false, true) == 0; }
void Mutex::ReaderLock() { m_rdlock(this, false); }
void Mutex::ReaderUnlock() { m_rdunlock(this); }
bool Mutex::ReaderTryLock() { return m_rdlock(this, true) == 0; }
void Mutex::AssertHeld() const {}
void Mutex::AssertReaderHeld() const {}
static bool eval_cond(const Condition& c) { return c.Eval(); }
void Mutex::Await(const Condition& cond) {
  while (!eval_cond(cond)) {
    c_wait((const char*)this + 1, this, g_on ? now_ns + 1 * kMs : 0, false, false);  // re-evaluated when other threads have run
    if (!g_on) return;
  }
}
void Mutex::LockWhen(const Condition& cond) { Lock(); Await(cond); }
CondVar::~CondVar() {}
void CondVar::Wait(Mutex* mu) { c_wait(this, mu, kNever, false, false); }
bool CondVar::WaitWithTimeout(Mutex* mu, absl::Duration t) {
  return c_wait(this, mu, t >= absl::Hours(24 * 365) ? kNever : now_ns + absl::ToInt64Nanoseconds(t), false, false) != 0;
}
bool CondVar::WaitWithDeadline(Mutex* mu, absl::Time t) {
  return c_wait(this, mu, t == absl::InfiniteFuture() ? kNever : absl::ToUnixNanos(t), true, false) != 0;
}
void CondVar::Signal() { c_signal(this, false); }
void CondVar::SignalAll() { c_signal(this, true); }
bool BlockingCounter::DecrementCount() {
  sched_point(38, this);
  Scope s;
  int c = count_.fetch_sub(1) - 1;
  hb_release(this);
  if (c == 0) { done_ = true; wake_all(this); return true; }
  return false;
}
void BlockingCounter::Wait() {
  sched_point(39, this);
  Scope s;
  while (count_.load() > 0) block_on(WaitKind::Other, this, kNever, false);
  hb_acquire(this);
}
ABSL_NAMESPACE_END
}  // namespace absl
