// Our implementation of the -fsanitize=thread callbacks: scheduling points, heap state checks,
// happens-before race detection.
#include "rt.h"
#include <cstring>

namespace rt {

// ---- access shadow -------------------------------------------------------------------
struct Slot { u32 epoch; u8 tid; u8 mask; u8 flags; u8 seq; u32 pc; u32 pc2; };  // flags: 1 write, 2 atomic, 4 valid
struct Gran { Slot s[4]; u32 rr; u32 pad; };
struct Page { Gran g[512]; u32 nsync; };
static std::unordered_map<u64, Page*>* pages;
static u64 last_pn = ~0ULL; static Page* last_pg;

static Page* page_of(u64 a, bool create) {
  u64 pn = a >> 12;
  if (pn == last_pn) return last_pg;
  if (!pages) pages = new std::unordered_map<u64, Page*>();
  auto it = pages->find(pn);
  if (it == pages->end()) {
    if (!create) return nullptr;
    Page* p = new Page();
    memset((void*)p, 0, sizeof *p);
    it = pages->emplace(pn, p).first;
  }
  last_pn = pn; last_pg = it->second;
  return last_pg;
}
// ---- sync objects -----------------------------------------------------------------
static std::unordered_map<u64, VC>* sync_vc;
static VC& sv(u64 k) { if (!sync_vc) sync_vc = new std::unordered_map<u64, VC>(); return (*sync_vc)[k]; }
static VC* sv_find(u64 k) {
  if (!sync_vc) return nullptr;
  auto it = sync_vc->find(k);
  return it == sync_vc->end() ? nullptr : &it->second;
}
static void mark_sync(u64 a) { Page* p = page_of(a, true); Gran& g = p->g[(a & 4095) >> 3]; if (!g.pad) { g.pad = 1; ++p->nsync; } }
void hb_release(const void* obj) {
  if (!cur) return;
  Scope s;
  mark_sync((u64)obj);
  VC& v = sv((u64)obj * 2 + 1);
  v.join(cur->vc);
  cur->vc.set(cur->id, cur->vc.get(cur->id) + 1);
}
void hb_acquire(const void* obj) {
  if (!cur) return;
  Scope s;
  if (VC* v = sv_find((u64)obj * 2 + 1)) cur->vc.join(*v);
}
// atomics: keyed by 8-byte granule
static void at_release(u64 a) {
  mark_sync(a);
  VC& v = sv((a & ~7ULL) * 2);
  v.join(cur->vc);
  cur->vc.set(cur->id, cur->vc.get(cur->id) + 1);
}
void hb_atomic_release(const void* a) { if (!cur) return; Scope s; at_release((u64)a); }
static void at_acquire(u64 a) { if (VC* v = sv_find((a & ~7ULL) * 2)) cur->vc.join(*v); }

void race_reset(u64 addr, size_t n) {
  u64 a = addr & ~7ULL, end = addr + n;
  while (a < end) {
    Page* p = page_of(a, false);
    u64 pend = (a | 4095) + 1;
    u64 stop = end < pend ? end : pend;
    if (p) {
      u64 i0 = (a & 4095) >> 3, cnt = (((stop + 7) & ~7ULL) - a) / 8;
      if (p->nsync)
        for (u64 i = i0; i < i0 + cnt; ++i) if (p->g[i].pad) {
          u64 g = (a & ~4095ULL) + i * 8;
          for (u64 b = 0; b < 8; ++b) sync_vc->erase((g + b) * 2 + 1);
          sync_vc->erase(g * 2);
          --p->nsync;
        }
      memset((void*)&p->g[i0], 0, cnt * sizeof(Gran));
    }
    a = pend;
  }
}

static const char* mem_name(Mem m) {
  switch (m) { case Mem::Redzone: return "out-of-bounds"; case Mem::Freed: return "use-after-free"; case Mem::Unalloc: return "wild"; default: return "ok"; }
}

static void race_report(u64 addr, const Slot& o, bool write, bool atomic, u64 pc) {
  std::string m, m2;
  dump_stack(&m, cur, pc);
  violation("generic:race", "%s%s by t%d conflicts with earlier %s%s by t%d at address %llx; now:%s; earlier: %x %x",
            atomic ? "atomic " : "", write ? "write" : "read", cur->id, (o.flags & 2) ? "atomic " : "", (o.flags & 1) ? "write" : "read",
            o.tid, (unsigned long long)addr, m.c_str(), o.pc, o.pc2);
}

static inline bool on_stack_of_cur(u64 a) {
  u64 sp = (u64)__builtin_frame_address(0);
  return a > sp - 65536 && a < sp + (8u << 20) && (a >> 44) == (sp >> 44);
}

static void gran_access(u64 g, u8 mask, bool write, bool atomic, u64 pc) {
  Page* p = page_of(g, true);
  Gran& gr = p->g[(g & 4095) >> 3];
  u8 fl = 4 | (write ? 1 : 0) | (atomic ? 2 : 0);
  int me = cur->id;
  u32 ep = cur->vc.get(me);
  int same = -1, freeslot = -1;
  for (int i = 0; i < 4; ++i) {
    Slot& s = gr.s[i];
    if (!(s.flags & 4)) { if (freeslot < 0) freeslot = i; continue; }
    if (s.tid == me) {
      if (s.mask == mask && (s.flags & 3) == (fl & 3)) same = i;
      else if ((s.mask & mask) == s.mask && (s.flags & 1) <= (fl & 1) && (s.flags & 2) >= (fl & 2)) same = i;
      continue;
    }
    if (!(s.mask & mask)) continue;
    if (!((s.flags | fl) & 1)) continue;
    if ((s.flags & fl) & 2) continue;
    if (cur->vc.get(s.tid) >= s.epoch) continue;
    race_report(g, s, write, atomic, pc);
  }
  int i = same >= 0 ? same : freeslot >= 0 ? freeslot : (int)(gr.rr++ & 3);
  Slot& s = gr.s[i];
  s.epoch = ep; s.tid = (u8)me; s.mask = mask; s.flags = fl; s.pc = (u32)pc;
  s.pc2 = cur->stack.size() > 0 ? (u32)cur->stack.back() : 0;
}

void on_access(u64 addr, size_t n, bool write, bool atomic, u64 pc) {
  ++n_accesses;
  Mem m = mem_check(addr, n);
  if (m != Mem::Ok && m != Mem::NotHeap) {
    std::string st; dump_stack(&st, cur, pc);
    violation(m == Mem::Freed ? "generic:uaf" : "generic:oob", "%s %s of %zu bytes at %llx by t%d stack:%s", mem_name(m), write ? "write" : "read", n, (unsigned long long)addr, cur->id, st.c_str());
  }
  if (!opts.races || thrs.size() < 2) return;
  if (m == Mem::NotHeap && on_stack_of_cur(addr)) return;
  u64 end = addr + n;
  int budget = 512;
  for (u64 g = addr & ~7ULL; g < end && budget-- > 0; g += 8) {
    u8 mask = 0xff;
    if (g < addr) mask &= (u8)(0xff << (addr - g));
    if (g + 8 > end) mask &= (u8)(0xff >> (g + 8 - end));
    gran_access(g, mask, write, atomic, pc);
  }
}

static inline void plain(u64 a, size_t n, bool w, u64 pc) {
  if (g_in_rt || !g_on) return;
  if (opts.p_plain > 0 && !on_stack_of_cur(a)) {
    static u32 ctr = 0;
    static u32 lcg = 12345;
    // cheap deterministic thinning before asking for a decision
    if (++ctr >= 16) { ctr = 0; lcg = lcg * 1664525u + 1013904223u; if ((lcg >> 8) * (1.0 / 16777216.0) < opts.p_plain * 16) sched_point(40, (void*)a); }
  }
  ++g_in_rt;
  on_access(a, n, w, false, pc);
  --g_in_rt;
}
}  // namespace rt

using namespace rt;
#define PC ((u64)__builtin_return_address(0))
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long long a64;
__extension__ typedef __int128 a128;

extern "C" {
void __tsan_init() {}
#define RW(N) \
  void __tsan_read##N(void* a) { plain((u64)a, N, false, PC); } \
  void __tsan_write##N(void* a) { plain((u64)a, N, true, PC); } \
  void __tsan_unaligned_read##N(void* a) { plain((u64)a, N, false, PC); } \
  void __tsan_unaligned_write##N(void* a) { plain((u64)a, N, true, PC); } \
  void __tsan_volatile_read##N(void* a) { plain((u64)a, N, false, PC); } \
  void __tsan_volatile_write##N(void* a) { plain((u64)a, N, true, PC); } \
  void __tsan_unaligned_volatile_read##N(void* a) { plain((u64)a, N, false, PC); } \
  void __tsan_unaligned_volatile_write##N(void* a) { plain((u64)a, N, true, PC); } \
  void __tsan_read_write##N(void* a) { plain((u64)a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if (n) plain((u64)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { if (n) plain((u64)a, n, true, PC); }
// The virtual-table pointer of an object is written by constructors and destructors only.
void __tsan_vptr_update(void** a, void* nv) { if (*a != nv) plain((u64)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { plain((u64)a, 8, false, PC); }

void __tsan_func_entry(void* pc) {
  if (!g_on || g_in_rt) return;
  if (cur->stack.size() < 4000) { ++g_in_rt; cur->stack.push_back((u64)pc); --g_in_rt; }
  if (opts.p_func > 0) {
    static u32 lcg = 777;
    lcg = lcg * 1664525u + 1013904223u;
    if ((lcg >> 8) * (1.0 / 16777216.0) < opts.p_func) sched_point(41, pc);
  }
}
void __tsan_func_exit() {
  if (!g_on || g_in_rt) return;
  if (!cur->stack.empty()) cur->stack.pop_back();
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define PRE(a, n, w) if (g_on && !g_in_rt) { ++n_atomics; sched_point(10, (void*)(a)); ++g_in_rt; on_access((u64)(a), n, w, true, PC); --g_in_rt; }
#define ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) == 4 || (mo) == 5)
#define REL(mo) ((mo) == 3 || (mo) == 4 || (mo) == 5)
#define HB_ACQ(a, mo) if (g_on && !g_in_rt && ACQ(mo)) { ++g_in_rt; at_acquire((u64)(a)); --g_in_rt; }
#define HB_REL(a, mo) if (g_on && !g_in_rt && REL(mo)) { ++g_in_rt; at_release((u64)(a)); --g_in_rt; }

#define ATOMICS(B, T, N) \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { PRE(a, N, false) T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); HB_ACQ(a, mo) return v; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { PRE(a, N, true) HB_REL(a, mo) __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { PRE(a, N, true) HB_ACQ(a, mo) HB_REL(a, mo) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { PRE(a, N, true) HB_ACQ(a, mo) HB_REL(a, mo) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { PRE(a, N, true) HB_ACQ(a, mo) HB_REL(a, mo) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { PRE(a, N, true) HB_ACQ(a, mo) HB_REL(a, mo) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { PRE(a, N, true) HB_ACQ(a, mo) HB_REL(a, mo) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { PRE(a, N, true) HB_ACQ(a, mo) HB_REL(a, mo) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { PRE(a, N, true) HB_ACQ(a, mo) HB_REL(a, mo) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    PRE(a, N, true) T e = *c; bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) { HB_ACQ(a, mo) HB_REL(a, mo) } else { HB_ACQ(a, fmo) *c = e; } return ok; } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { \
    PRE(a, N, true) \
    if (g_on && !g_in_rt && opts.p_cas_fail > 0) { ++g_in_rt; bool f = decide_p(D_Cas, opts.p_cas_fail); if (f) count("fault.cas_spurious"); --g_in_rt; \
      if (f) { *c = __atomic_load_n(a, __ATOMIC_SEQ_CST); return false; } } \
    T e = *c; bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) { HB_ACQ(a, mo) HB_REL(a, mo) } else { HB_ACQ(a, fmo) *c = e; } return ok; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { \
    T e = c; __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOMICS(8, a8, 1) ATOMICS(16, a16, 2) ATOMICS(32, a32, 4) ATOMICS(64, a64, 8)
void __tsan_atomic_thread_fence(int) {
  if (g_on && !g_in_rt) { static int fence_obj; sched_point(11, nullptr); hb_acquire(&fence_obj); hb_release(&fence_obj); }
}
void __tsan_atomic_signal_fence(int) {}

// memory functions called from instrumented objects (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
static inline void rng(const void* p, size_t n, bool w, u64 pc) {
  if (!n || !g_on || g_in_rt) return;
  ++g_in_rt; on_access((u64)p, n, w, false, pc); --g_in_rt;
}
void* __wrap_memcpy(void* d, const void* s, size_t n) { rng(s, n, false, PC); rng(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { rng(s, n, false, PC); rng(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { rng(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { rng(a, n, false, PC); rng(b, n, false, PC); return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); rng(s, n + 1, false, PC); return n; }
}
