#pragma once
#include "hist.h"
#include "net.h"
namespace world {
void setup();                 // hooks, items, director; call after sim_begin
int run_daemon();             // runs the real main
void run_lib();               // runs the library workload
void on_cycle(const void* measurements_vector, u64 ws, bool explicit_ws);
void on_cycle_lib(const void* measurements_vector, u64 ws, i64 m0);
void note_exit(int rc);
bool enabled_now();
i64 wall_at(i64 mono);
void wall_range(i64 m0, i64 m1, i64* lo, i64* hi);
i64 wall_rise(i64 m0, i64 m1);   // the largest advance the clock shows from one moment to a later one
inline i64 wall_top(i64 m0, i64 m1) { i64 a, b; wall_range(m0, m1, &a, &b); return b; }   // the highest reading of the clock in between
inline i64 wall_low(i64 m0, i64 m1) { i64 a, b; wall_range(m0, m1, &a, &b); return a; }
void schedule_item(const Item& it);
void lib_done();
}
