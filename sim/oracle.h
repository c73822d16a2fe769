#pragma once
#include "hist.h"
struct Contrib { u64 s0, s1; double lo, hi; bool certain; i64 m0 = 0; };
struct AddKey { std::vector<Contrib> c; std::string cls; };
using AddMap = std::map<std::string, AddKey>;
bool maybe_expired(i64 m0, i64 w0a, i64 w0b, i64 m1, i64 wl, i64 wh);   // could the time between exceed the meter ttl?
std::string stat_key(const Op& o, const char* stat, bool dflt);
bool is_self(const std::string& name);
void eval_meters();
void eval_publish();      // C10 C11 C12
void eval_cadence();      // C13 C14 C19
void eval_admin();        // C16 C17
void eval_self();         // C21
extern std::vector<Op> g_extra_ops;   // accounting contributions produced by eval_publish
struct CumKey { std::map<size_t, double> at; };
extern std::map<std::string, std::vector<std::pair<size_t, double>>> g_meas;   // measured values by key: (cycle, value)
extern std::vector<std::pair<std::string, std::string>> g_fails;
extern std::set<std::string> g_known;   // keys some oracle accounts for
