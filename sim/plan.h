// A run is described completely by a plan: configuration, timed items, seed or recorded decisions.
#pragma once
#include "rt.h"
struct Item { rt::i64 t = 0; std::string kind; std::vector<std::string> a; };   // t in microseconds
struct Plan {
  std::map<std::string, std::string> cfg;
  std::vector<Item> items;
  bool replay = false;
  std::vector<rt::Decision> decs;
  rt::i64 num(const char* k, rt::i64 d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : strtoll(i->second.c_str(), nullptr, 10); }
  double dbl(const char* k, double d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : strtod(i->second.c_str(), nullptr); }
  std::string str(const char* k, const char* d = "") const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
  void set(const char* k, const std::string& v) { cfg[k] = v; }
  void set(const char* k, rt::i64 v) { cfg[k] = std::to_string(v); }
  void setd(const char* k, double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); cfg[k] = b; }
  void add(rt::i64 t_us, const std::string& kind, std::vector<std::string> a) { items.push_back({t_us, kind, std::move(a)}); }
};
std::string pct_enc(const std::string& s);
std::string pct_dec(const std::string& s);
bool plan_parse(const std::string& text, Plan* out, std::string* err);
std::string plan_text(const Plan& p);
Plan plan_generate(const std::string& prop, rt::u64 seed);
