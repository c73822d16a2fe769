// Independent decoders used by the oracles: gzip, smile, JSON; identifier text.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
using TagMap = std::map<std::string, std::string>;
struct Entry { TagMap tags; std::string name; int op = 0; double v = 0; };   // a decoded measurement ("name" removed from tags)
bool gunzip(const std::string& in, std::string* out, std::string* err);
struct SmileDoc { std::vector<std::string> strings; std::vector<Entry> entries; };
bool decode_payload(const std::string& smile, SmileDoc* out, std::string* err);
std::string sanitize(const std::string& s);
std::string id_text(const std::string& name, const TagMap& tags);   // name|k=v,k=v
bool is_clean(const std::string& s);                                // only allowed characters
struct JV {
  enum T { Null, Bool, Num, Str, Arr, Obj } t = Null;
  double n = 0; bool b = false; std::string s;
  std::vector<JV> a; std::vector<std::pair<std::string, JV>> o;
  const JV* get(const std::string& k) const { for (auto& p : o) if (p.first == k) return &p.second; return nullptr; }
};
bool json_parse(const std::string& s, JV* out);
