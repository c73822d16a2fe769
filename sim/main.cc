#include "world.h"
#include "oracle.h"
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <ucontext.h>
#include <curl/curl.h>
#include <sys/syscall.h>
using namespace rt;
static void final_check() {
  Scope s;
  H.t_exit = now_ns;
  if (!H.exited) fail("C19", "exit", "the process ended by exit() before its main function returned");
  evaluate();
  finish_run("ok", "", "");
}
static void apply_opts(const Plan& p) {
  opts.policy = (int)p.num("policy", 0);
  opts.p_switch = p.dbl("p_switch", 0.05); opts.p_switch_hot = p.dbl("p_hot", 0.2);
  opts.p_func = p.dbl("p_func", 0); opts.p_plain = p.dbl("p_plain", 0);
  opts.pct_depth = (int)p.num("pct_depth", 3); opts.pct_len = (u64)p.num("pct_len", 30000);
  opts.tick = p.num("tick", 200); opts.p_cas_fail = p.dbl("p_cas", 0); opts.p_spurious = p.dbl("p_spurious", 0);
  opts.p_stall = p.dbl("p_stall", 0); opts.stall_max = p.num("stall_ms", 50) * kMs;
  opts.max_steps = (u64)p.num("max_steps", 6000000); opts.hwc = (int)p.num("hwc", 4); opts.races = p.num("races", 1);
}
static const Plan* g_plan;
static void run_on_fixed_stack() {
  sim_begin();
  { Scope s; H.plan = *g_plan; world::setup(); }
  atexit(final_check);
#ifndef SIM_NO_LIB
  if (H.lib) { world::run_lib(); exit(0); }
#endif
  exit(world::run_daemon());
}
[[noreturn]] static void run_one(const Plan& p, char* res, size_t cap) {
  set_result_buf(res, cap);
  install_crash_handlers();
  itimerval tv{}; tv.it_value.tv_sec = p.num("cpu_s", 25); setitimer(ITIMER_PROF, &tv, nullptr);
  if (!getenv("SIM_STDOUT")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); if (!g_trace && !getenv("SIM_STDERR")) dup2(n, 2); close(n); }
  apply_opts(p);
  if (p.replay) set_decisions_replay(p.decs); else set_decisions_random((u64)p.num("seed", 1) * 0x9e3779b97f4a7c15ULL + 99);
  app_mem_init(); app_mem_fresh();
  on_result = [](std::string* o) {
    for (size_t k = 1; k < g_fails.size(); ++k) *o += "class=" + g_fails[k].first + "\nmsg=" + g_fails[k].second + "\n";
    *o += strf("cycles=%zu\nops=%zu\nattempts=%zu\ndgrams=%zu\nadmin=%zu\nfinal=%d\n", H.cycles.size(), H.ops.size(), H.attempts.size(), H.dgs.size(), H.admin.size(), H.t_final ? 1 : 0);
    if (getenv("SIM_DUMP_DECS")) { *o += "decs="; for (auto& d : dec_log) *o += strf("%llu:%u ", (unsigned long long)d.idx, d.val); *o += "\n"; }
  };
  static ucontext_t here, there;
  g_plan = &p;
  getcontext(&there); there.uc_stack.ss_sp = fixed_stack(0); there.uc_stack.ss_size = kStack; there.uc_link = nullptr;
  makecontext(&there, run_on_fixed_stack, 0);
  swapcontext(&here, &there);
  abort();
}
static std::string slurp(const char* f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static const size_t kCap = 24 << 20;
static char* shared_buf() { char* b = (char*)mmap(nullptr, kCap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return b; }
static std::string run_child(const Plan& p, char* buf) {
  buf[0] = 0;
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) run_one(p, buf, kCap);
  int st = 0; waitpid(c, &st, 0);
  std::string r(buf);
  if (r.empty() || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    r += strf("status=died\nclass=generic:died\nmsg=child ended with wait status %x\n", st);
  }
  return r;
}
int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR")) {
    personality(ADDR_NO_RANDOMIZE);
    // a fixed environment: the application sees nothing of the caller's
    static char *env[8], e0[] = "SIM_NOASLR=1", e1[] = "PATH=/usr/bin:/bin"; int n = 0;
    env[n++] = e0; env[n++] = e1;
    for (const char* k : {"SIM_STDERR", "SIM_STDOUT", "SIM_DUMP_DECS"}) if (getenv(k)) { static char b[3][40]; snprintf(b[n - 2], 40, "%s=1", k); env[n] = b[n - 2]; ++n; }
    env[n] = nullptr;
    execve("/proc/self/exe", argv, env);
  }
  if (argc < 2 || (argc < 3 && strcmp(argv[1], "serve"))) { fprintf(stderr, "usage: sim run PLAN [--trace] | gen PROP SEED | batch PROP SEED0 STRIDE SECONDS MAXRUNS\n"); return 2; }
  static char outbuf[1 << 16]; setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);   // the application must not find its buffer allocated or not
  std::string cmd = argv[1];
  rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
  if (cmd == "gen") { fputs(plan_text(plan_generate(argv[2], strtoull(argv[3], nullptr, 10))).c_str(), stdout); return 0; }
  curl_global_init(CURL_GLOBAL_ALL);
  char* buf = shared_buf();
  if (cmd == "run") {
    Plan p; std::string e;
    if (!plan_parse(slurp(argv[2]), &p, &e)) { fprintf(stderr, "bad plan: %s\n", e.c_str()); return 2; }
    if (argc > 3 && !strcmp(argv[3], "--trace")) g_trace = true;
    if (argc > 3 && !strcmp(argv[3], "--decs")) setenv("SIM_DUMP_DECS", "1", 1);
    std::string r = run_child(p, buf);
    fputs(r.c_str(), stdout);
    return 0;
  }
  if (cmd == "serve") {   // read plan file names on stdin, answer with results
    std::string line;
    while (std::getline(std::cin, line)) {
      Plan p; std::string e;
      if (!plan_parse(slurp(line.c_str()), &p, &e)) { printf("status=badplan\n\n"); fflush(stdout); continue; }
      std::string r = run_child(p, buf);
      fputs(r.c_str(), stdout); fputs("\n", stdout); fflush(stdout);
    }
    return 0;
  }
  if (cmd == "batch") {
    u64 seed0 = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10);
    double secs = strtod(argv[5], nullptr); u64 maxn = argc > 6 ? strtoull(argv[6], nullptr, 10) : ~0ULL;
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (u64 k = 0; k < maxn; ++k) {
      timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
      if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
      u64 seed = seed0 + k * stride;
      Plan p; std::string e; if (!plan_parse(plan_text(plan_generate(argv[2], seed)), &p, &e)) return 2;   // as "run" would read it
      std::string r = run_child(p, buf);
      printf("seed=%llu\n%s\n", (unsigned long long)seed, r.c_str());
      fflush(stdout);
    }
    return 0;
  }
  return 2;
}
