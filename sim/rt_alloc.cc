// Deterministic allocator: application heap with red zones and quarantine at a fixed address,
// and a separate heap for the simulator itself so that its bookkeeping never moves app objects.
#include "rt.h"
#include <cerrno>
#include <cstring>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace rt {
u64 n_allocs, n_frees, heap_bytes;
constexpr u64 kApp = 0x100000000000ULL, kAppSize = 3ULL << 30;
constexpr u64 kShadow = 0x110000000000ULL;  // one byte per 8
constexpr u64 kRt = 0x120000000000ULL, kRtSize = 8ULL << 30;

enum : u8 { SH_UNALLOC = 0xF0, SH_RED = 0xFA, SH_FREED = 0xFD };

struct Hdr { u32 cls; u32 magic; u64 size; u64 base; u64 pad; };  // 32 bytes before user pointer
static_assert(sizeof(Hdr) == 32);
constexpr u32 kMagicLive = 0xA110C8ED, kMagicFree = 0xDEADF4EE, kMagicRt = 0x51AA110C;

static bool g_init;
static u64 app_top, rt_top;

constexpr int kClasses = 128;
static u64 cls_size(int c) {
  if (c < 64) return (u64)(c + 1) * 16;             // 16..1024
  int k = c - 64;                                    // then x1.25 steps (4 per doubling)
  u64 base = 1024ULL << (k / 4 );
  return base + base / 4 * (k % 4 + 1);
}
static int cls_of(u64 n) {
  if (n == 0) n = 1;
  if (n <= 1024) return (int)((n + 15) / 16 - 1);
  int c = 64;
  while (cls_size(c) < n) ++c;
  return c;
}

struct FreeNode { u64 next; };
struct Cls { u64 head = 0, tail = 0; u64 n = 0; };
static Cls app_free[kClasses];
static u64 rt_free_[kClasses];

static void* mm(u64 addr, u64 n) {
  register long r10 __asm__("r10") = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE;
  register long r8 __asm__("r8") = -1;
  register long r9 __asm__("r9") = 0;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_mmap), "D"(addr), "S"(n), "d"(PROT_READ | PROT_WRITE), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return (void*)ret;
}
void app_mem_init() {
  if (g_init) return;
  g_init = true;
  if ((u64)mm(kApp, kAppSize) != kApp || (u64)mm(kShadow, kAppSize / 8) != kShadow || (u64)mm(kRt, kRtSize) != kRt) {
    static const char m[] = "sim: cannot map arenas\n";
    raw_syscall(SYS_write, 2, (long)m, sizeof m - 1);
    raw_syscall(SYS_exit_group, 2);
  }
  app_top = kApp + 4096;
  rt_top = kRt + 4096;
}

// What was allocated before the run must not influence its addresses.
static u64 app_run_base;
void app_mem_fresh() {
  app_run_base = kApp + (512ULL << 20);
  if (app_top > app_run_base) { static const char m[] = "sim: too much memory in use before the run\n"; raw_syscall(SYS_write, 2, (long)m, sizeof m - 1); raw_syscall(SYS_exit_group, 2); }
  app_top = app_run_base;
  for (auto& f : app_free) f.head = f.tail = f.n = 0;
  n_allocs = n_frees = heap_bytes = 0;
}

static inline bool in_app(u64 a) { return a >= kApp && a < kApp + kAppSize; }
static inline bool in_rt_heap(u64 a) { return a >= kRt && a < kRt + kRtSize; }
static inline u8* sh(u64 a) { return (u8*)(kShadow + ((a - kApp) >> 3)); }

static void poison(u64 a, u64 n, u8 v) { if (n >= 8) memset(sh(a), v, n >> 3); }
static void unpoison(u64 a, u64 n) {
  u64 full = n >> 3;
  memset(sh(a), 0, full);
  if (n & 7) sh(a)[full] = (u8)(n & 7);
}
// unallocated app memory has shadow 0 from mmap; treat "above app_top" as unallocated.

static constexpr u64 kRed = 16;

static void* app_alloc(u64 n, u64 align) {
  u64 extra = align > 16 ? align : 0;
  int c = cls_of(n + extra + kRed);
  u64 body = cls_size(c);
  u64 base;
  Cls& f = app_free[c];
  u64 quarantine = body <= 256 ? 512 : body <= 4096 ? 128 : body <= 65536 ? 16 : 4;
  if (f.n > quarantine) {
    base = f.head;
    f.head = ((FreeNode*)(base + sizeof(Hdr)))->next;
    if (!f.head) f.tail = 0;
    --f.n;
  } else {
    base = app_top;
    app_top += sizeof(Hdr) + body;
    if (app_top > kApp + kAppSize) violation("generic:oom", "simulated heap exhausted (%llu bytes live)", (unsigned long long)heap_bytes);
  }
  u64 user = base + sizeof(Hdr);
  if (extra) user = (user + align - 1) & ~(align - 1);
  poison(base, sizeof(Hdr) + body, SH_RED);
  unpoison(user, n);
  Hdr* h = (Hdr*)(user - sizeof(Hdr));
  h->cls = (u32)c; h->magic = kMagicLive; h->size = n; h->base = base;
  ++n_allocs; heap_bytes += n;
  return (void*)user;
}

static void app_release(u64 user) {
  Hdr* h = (Hdr*)(user - sizeof(Hdr));
  if (h->magic != kMagicLive) {
    if (h->magic == kMagicFree) violation("generic:double-free", "block of %llu bytes freed twice", (unsigned long long)h->size);
    violation("generic:bad-free", "free of a pointer that is not a live block");
  }
  h->magic = kMagicFree;
  ++n_frees; heap_bytes -= h->size;
  u64 base = h->base; u32 c = h->cls;
  if (g_on) { ++g_in_rt; race_reset(user, h->size); --g_in_rt; }
  // keep header readable for double-free detection; poison body
  poison(base, sizeof(Hdr) + cls_size((int)c), SH_FREED);
  // fill so that stale uninstrumented readers misbehave deterministically (small blocks only)
  u64 fill = h->size < 256 ? h->size : 256;
  if (user == base + sizeof(Hdr)) { if (fill > 8) memset((void*)(user + 8), 0xDD, fill - 8); }
  if (base < app_run_base) return;
  Cls& f = app_free[c];
  FreeNode* nd = (FreeNode*)(base + sizeof(Hdr));
  nd->next = 0;
  if (f.tail) ((FreeNode*)(f.tail + sizeof(Hdr)))->next = base; else f.head = base;
  f.tail = base; ++f.n;
}

void* rt_alloc(size_t n) {
  int c = cls_of(n + sizeof(Hdr));
  u64 base = rt_free_[c];
  if (base) rt_free_[c] = ((FreeNode*)(base + sizeof(Hdr)))->next;
  else {
    base = rt_top; rt_top += cls_size(c) + sizeof(Hdr);
    if (rt_top > kRt + kRtSize) { raw_syscall(SYS_exit_group, 77); }
  }
  Hdr* h = (Hdr*)base;
  h->cls = (u32)c; h->magic = kMagicRt; h->size = n; h->base = base;
  return (void*)(base + sizeof(Hdr));
}
static void* rt_alloc_aligned(size_t n, size_t al) {
  if (al <= 16) return rt_alloc(n);
  u64 p = (u64)rt_alloc(n + al + sizeof(Hdr));
  u64 base = p - sizeof(Hdr);
  u64 user = (p + sizeof(Hdr) + al - 1) & ~(u64)(al - 1);
  Hdr* h = (Hdr*)(user - sizeof(Hdr));
  u32 c = ((Hdr*)base)->cls;
  h->cls = c; h->magic = kMagicRt; h->size = n; h->base = base;
  return (void*)user;
}

Mem mem_check(u64 a, size_t n) {
  if (!in_app(a)) return Mem::NotHeap;
  u64 end = a + n;
  for (u64 g = a & ~7ULL; g < end; g += 8) {
    u8 s = *sh(g);
    if (s == 0) { if (g >= app_top) return Mem::Unalloc; continue; }
    if (s < 8) { u64 lim = g + s; if (end > lim && (end - 1) >= lim) return Mem::Redzone; continue; }
    return s == SH_FREED ? Mem::Freed : Mem::Redzone;
  }
  return Mem::Ok;
}

static void* do_alloc(size_t n, size_t al) {
  if (!g_init) app_mem_init();
  if (g_in_rt) return rt_alloc_aligned(n, al);
  ++g_in_rt;
  void* p = app_alloc(n, al);
  --g_in_rt;
  return p;
}
static size_t usable(void* p) {
  return ((Hdr*)((u64)p - sizeof(Hdr)))->size;
}
static void do_free(void* p) {
  if (!p) return;
  u64 a = (u64)p;
  if (in_app(a)) { ++g_in_rt; app_release(a); --g_in_rt; return; }
  if (in_rt_heap(a)) {
    Hdr* h = (Hdr*)(a - sizeof(Hdr));
    if (h->magic != kMagicRt) raw_syscall(SYS_exit_group, 78);
    h->magic = 0;
    u64 base = h->base; u32 c = ((Hdr*)h)->cls;
    ((FreeNode*)(base + sizeof(Hdr)))->next = rt_free_[c];
    ((Hdr*)base)->cls = c;
    rt_free_[c] = base;
    return;
  }
  // memory from the early dynamic loader: ignore
}
}  // namespace rt

using namespace rt;
extern "C" {
void* malloc(size_t n) { return do_alloc(n, 16); }
void free(void* p) { do_free(p); }
void cfree(void* p) { do_free(p); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = do_alloc(n, 16);
  ++g_in_rt; memset(p, 0, n); --g_in_rt;
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return do_alloc(n, 16);
  if (n == 0) { do_free(p); return nullptr; }
  size_t old = usable(p);
  // stay in the heap the block came from
  int save = g_in_rt;
  if (in_app((u64)p)) g_in_rt = 0; else if (!g_in_rt) g_in_rt = 1;
  void* q = do_alloc(n, 16);
  ++g_in_rt; memcpy(q, p, old < n ? old : n); --g_in_rt;
  do_free(p);
  g_in_rt = save;
  return q;
}
void* reallocarray(void* p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return realloc(p, n);
}
void* memalign(size_t al, size_t n) { return do_alloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al); }
void* valloc(size_t n) { return do_alloc(n, 4096); }
void* pvalloc(size_t n) { return do_alloc((n + 4095) & ~4095ULL, 4096); }
int posix_memalign(void** out, size_t al, size_t n) { *out = do_alloc(n, al); return 0; }
size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }
}
