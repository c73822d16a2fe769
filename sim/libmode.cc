// Library mode: several writer threads use the registry directly while another measures it and the real
// expirer thread runs. Reaches the interleavings between writers that one receive thread cannot produce.
#include "world.h"
#include "../sim/shim/repo_registry.h"
#include "server/expiring_cache.h"
#include "spectator/percentile_distribution_summary.h"
#include "spectator/percentile_timer.h"
#include "util/logger.h"
#include <algorithm>
#include <memory>
#include <thread>
using namespace rt;
auto make_config() -> std::unique_ptr<spectator::Config>;
namespace world {
struct LOp { i64 t; char type; std::string name; std::vector<std::pair<std::string, std::string>> tags; double v; u64 u; i64 extra; i64 late = 0, off = 0; };
using PT = spectator::PercentileTimer;
using PD = spectator::PercentileDistributionSummary;
static std::unique_ptr<PT> mk_pt(spectator::Registry* r, spectator::Id id) { return std::make_unique<PT>(r, std::move(id), absl::Nanoseconds(1), absl::Hours(24)); }
static std::unique_ptr<PD> mk_pd(spectator::Registry* r, spectator::Id id) { return std::make_unique<PD>(r, std::move(id), std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()); }
struct Lib {
  std::unique_ptr<spectator::Registry> reg;
  spectatord::expiring_cache<PT> pts{mk_pt};
  spectatord::expiring_cache<PD> pds{mk_pd};
};
static Lib* L;
static u64 g_ws; static i64 g_wm;

static void run_op(const LOp& o) {
  size_t hi;
  {
    Scope s;
    Op h; h.type = o.type; h.name = sanitize(o.name); for (auto& t : o.tags) h.tags[sanitize(t.first)] = sanitize(t.second);
    h.id = id_text(h.name, h.tags); h.v = o.v; h.u = o.u; h.extra = o.extra; h.src = 3;
    h.s0 = steps; h.m0 = now_ns; i64 x; wall_range(now_ns, now_ns, &h.w0, &x);
    hi = H.ops.size(); H.ops.push_back(h);
    hot(40);
  }
  auto& reg = *L->reg;
  bool res = false;
  if (o.type == '=') {
    reg.DeleteAllMeters(o.extra == 'A' ? "A" : "g");
  } else {
    spectator::Tags tags;
    for (auto& t : o.tags) tags.add(std::string_view(t.first), std::string_view(t.second));
    spectator::Id id = spectator::Id::Of(o.name, std::move(tags));
    switch (o.type) {
      case 'c': reg.GetCounter(std::move(id))->Add(o.v); break;
      case 't': reg.GetTimer(std::move(id))->Record(std::chrono::nanoseconds((i64)(o.v * 1e9))); break;
      case 'd': reg.GetDistributionSummary(std::move(id))->Record(o.v); break;
      case 'T': L->pts.get_or_create(&reg, id)->Record(std::chrono::nanoseconds((i64)(o.v * 1e9))); break;
      case 'D': L->pds.get_or_create(&reg, id)->Record((i64)o.v); break;
      case 'g': if (o.extra > 0) reg.GetGauge(std::move(id), absl::Seconds(o.extra))->Set(o.v); else reg.GetGauge(std::move(id))->Set(o.v); break;
      case 'm': reg.GetMaxGauge(std::move(id))->Update(o.v); break;
      case 'C': reg.GetMonotonicCounter(std::move(id))->Set(o.v); break;
      case 'U': reg.GetMonotonicCounterUint(std::move(id))->Set(o.u); break;
      case 'X': reg.GetMonotonicSampled(std::move(id))->Set(o.v, o.extra * 1000000); break;
      case 'A': if (o.v == 0) reg.GetAgeGauge(std::move(id))->UpdateLastSuccess(); else reg.GetAgeGauge(std::move(id))->UpdateLastSuccess((i64)(o.v * 1e9)); break;
      case '-': res = reg.DeleteMeter(o.extra == 'A' ? "A" : "g", id); break;
      default: break;
    }
  }
  Scope s;
  Op& h = H.ops[hi];
  if (o.type == '-') h.u = res;
  h.s1 = steps; h.m1 = now_ns; wall_range(h.m0, now_ns, &h.w0, &h.w1);
}
static void lib_cb(const std::vector<spectator::Measurement>& ms) { on_cycle_lib(&ms, g_ws, g_wm); }
static void measure() {
  { Scope s; hot(400); g_ws = steps; g_wm = now_ns; }
  auto v = L->reg->Measurements();
}
void run_lib() {
  std::vector<std::vector<LOp>> th;
  std::vector<std::pair<i64, int>> ctl;   // measure / size / cache expiry
  i64 last = 0;
  {
    Scope s;
    const Plan& p = H.plan;
    for (auto& it : p.items) {
      i64 t = H.t0 + it.t * kUs;
      if (it.kind == "op") {
        size_t k = strtoul(it.a[0].c_str(), nullptr, 10);
        if (th.size() <= k) th.resize(k + 1);
        LOp o; o.t = t; o.type = it.a[1][0];
        std::string id = it.a[2]; size_t b = id.find('|');
        o.name = id.substr(0, b);
        while (b != std::string::npos) { size_t e = id.find(',', b + 1); std::string kv = id.substr(b + 1, e == std::string::npos ? e : e - b - 1); size_t q = kv.find('='); if (q != std::string::npos) o.tags.push_back({kv.substr(0, q), kv.substr(q + 1)}); b = e; }
        o.v = strtod(it.a[3].c_str(), nullptr); o.u = strtoull(it.a[3].c_str(), nullptr, 10); o.extra = atoll(it.a[4].c_str());
        if (it.a.size() > 6) { o.late = atoll(it.a[5].c_str()) * kUs; o.off = atoll(it.a[6].c_str()) * kUs; }
        th[k].push_back(std::move(o));
      } else if (it.kind == "measure") ctl.push_back({t, 0});
      else if (it.kind == "size") ctl.push_back({t, 1});
      else if (it.kind == "cexp") ctl.push_back({t, 2});
      else continue;
      last = std::max(last, t);
    }
    for (auto& v : th) std::stable_sort(v.begin(), v.end(), [](const LOp& a, const LOp& b) { return a.t < b.t; });
    std::stable_sort(ctl.begin(), ctl.end(), [](auto& a, auto& b) { return a.first < b.first; });
  }
  L = new Lib();
  auto logger = spectatord::GetLogger("spectator");
  L->reg = std::make_unique<spectator::Registry>(make_config(), logger);
  L->reg->OnMeasurements(lib_cb);
  L->reg->Start();
  std::vector<std::thread> ts;
  for (size_t k = 0; k < th.size(); ++k)
    ts.emplace_back([k, &th] {
      for (auto& o : th[k]) {
        {
          Scope s; sleep_until(o.t);
          // together with the next thing that is waited for, in practice the expirer's period
          if (o.late) { i64 d = next_timeout(now_ns + o.late); sleep_until((d == kNever ? o.t + o.late : d) + o.off); }
        }
        run_op(o);
      }
    });
  for (auto& c : ctl) {
    { Scope s; sleep_until(c.first); }
    if (c.second == 0) measure();
    else if (c.second == 1) {
      Hist::SizeObs so; { Scope s; so.s0 = steps; so.m0 = now_ns; }
      so.n = L->reg->Size();
      { Scope s; so.s1 = steps; so.m1 = now_ns; H.sizes.push_back(so); }
    } else { L->pts.expire(); L->pds.expire(); }
  }
  for (auto& t : ts) t.join();
  measure();
  { Scope s; sleep_until(now_ns + 100 * kMs); }
  measure();
  { Scope s; H.s_final = steps; H.t_final = now_ns; H.final_cycles = H.cycles.size(); }
  // shut down: the expirer must stop promptly even when it is about to start waiting
  { Scope s; sleep_until(now_ns + H.plan.num("sig_off_us", 100) * kUs); H.t_signal = now_ns; H.s_signal = steps; }
  L->reg.reset();
  { Scope s; note_exit(0); }
  delete L;
}
}  // namespace world
