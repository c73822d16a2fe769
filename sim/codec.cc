#include "codec.h"
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <zlib.h>
bool gunzip(const std::string& in, std::string* out, std::string* err) {
  z_stream z; memset(&z, 0, sizeof z);
  if (inflateInit2(&z, 15 + 16) != Z_OK) { *err = "inflateInit"; return false; }
  z.next_in = (Bytef*)in.data(); z.avail_in = (uInt)in.size();
  char buf[65536]; int rc = Z_OK;
  while (rc == Z_OK) {
    z.next_out = (Bytef*)buf; z.avail_out = sizeof buf;
    rc = inflate(&z, Z_NO_FLUSH);
    out->append(buf, sizeof buf - z.avail_out);
    if (rc == Z_BUF_ERROR) break;
  }
  bool ok = rc == Z_STREAM_END && z.avail_in == 0;
  if (!ok) *err = "gzip stream invalid, rc=" + std::to_string(rc) + " trailing=" + std::to_string(z.avail_in);
  inflateEnd(&z);
  return ok;
}
namespace {
struct Sm {
  const uint8_t* p; const uint8_t* e; std::string err;
  bool fail(const char* m) { if (err.empty()) err = m; return false; }
  bool integer(int64_t* v) {
    if (p >= e) return fail("truncated");
    uint8_t c = *p;
    if (c >= 0xC0 && c <= 0xDF) { ++p; int z = c & 0x1f; *v = (z >> 1) ^ -(z & 1); return true; }
    if (c == 0x24 || c == 0x25) {
      ++p; uint64_t u = 0; int n = 0;
      for (;;) {
        if (p >= e || ++n > 10) return fail("bad integer");
        uint8_t b = *p++;
        if (b & 0x80) { u = (u << 6) | (b & 0x3f); break; }
        u = (u << 7) | b;
      }
      *v = (int64_t)(u >> 1) ^ -(int64_t)(u & 1);
      return true;
    }
    return fail("integer expected");
  }
  bool dbl(double* d) {
    if (p >= e) return fail("truncated");
    if (*p != 0x29) { int64_t i; if (*p >= 0xC0 && *p <= 0xDF) { if (!integer(&i)) return false; *d = (double)i; return true; } return fail("double expected"); }
    ++p;
    if (e - p < 10) return fail("truncated double");
    uint64_t u = 0;
    for (int i = 0; i < 10; ++i) { if (p[i] & 0x80) return fail("bad double byte"); u = (u << 7) | p[i]; }
    p += 10;
    memcpy(d, &u, 8);
    return true;
  }
  bool str(std::string* s) {
    if (p >= e) return fail("truncated");
    uint8_t c = *p;
    if (c == 0x20) { ++p; s->clear(); return true; }
    if (c >= 0x40 && c <= 0x7F) { size_t n = c - 0x40 + 1; ++p; if ((size_t)(e - p) < n) return fail("truncated string"); s->assign((const char*)p, n); p += n; return true; }
    if (c == 0xE0) { ++p; const uint8_t* q = p; while (q < e && *q != 0xFC) ++q; if (q == e) return fail("unterminated string"); s->assign((const char*)p, q - p); p = q + 1; return true; }
    return fail("string expected");
  }
};
}  // namespace
bool decode_payload(const std::string& d, SmileDoc* out, std::string* err) {
  Sm s{(const uint8_t*)d.data(), (const uint8_t*)d.data() + d.size(), {}};
  auto bad = [&](const std::string& m) { *err = m + (s.err.empty() ? "" : ": " + s.err) + " at offset " + std::to_string((const char*)s.p - d.data()); return false; };
  if (d.size() < 6 || memcmp(d.data(), ":)\n", 3) || (d[3] & 0xf0)) return bad("bad smile header");
  s.p += 4;
  if (*s.p++ != 0xF8) return bad("array start expected");
  int64_t n;
  if (!s.integer(&n) || n < 0 || n > 10000000) return bad("string count");
  for (int64_t i = 0; i < n; ++i) { std::string x; if (!s.str(&x)) return bad("string table"); out->strings.push_back(x); }
  while (s.p < s.e && *s.p != 0xF9) {
    Entry en; int64_t nt;
    if (!s.integer(&nt) || nt < 1 || nt > 10000) return bad("tag count");
    for (int64_t i = 0; i < nt; ++i) {
      int64_t k, v;
      if (!s.integer(&k) || !s.integer(&v)) return bad("tag index");
      if (k < 0 || k >= n || v < 0 || v >= n) return bad("tag index out of range");
      if (!en.tags.emplace(out->strings[k], out->strings[v]).second) return bad("duplicate tag key " + out->strings[k]);
    }
    int64_t op;
    if (!s.integer(&op)) return bad("operation");
    en.op = (int)op;
    if (!s.dbl(&en.v)) return bad("value");
    auto it = en.tags.find("name");
    if (it == en.tags.end()) return bad("entry without name");
    en.name = it->second; en.tags.erase(it);
    out->entries.push_back(std::move(en));
  }
  if (s.p >= s.e) return bad("array end missing");
  ++s.p;
  if (s.p != s.e) return bad("bytes after the end of the document");
  return true;
}
static bool okc(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~' || c == '^'; }
std::string sanitize(const std::string& s) { std::string o = s; for (auto& c : o) if (!okc((unsigned char)c)) c = '_'; return o; }
bool is_clean(const std::string& s) { for (unsigned char c : s) if (!okc(c)) return false; return true; }
std::string id_text(const std::string& name, const TagMap& tags) {
  std::string o = name; char sep = '|';
  for (auto& kv : tags) { o += sep; o += kv.first; o += '='; o += kv.second; sep = ','; }
  return o;
}
namespace {
struct Jp {
  const char* p; const char* e; int depth = 0;
  void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
  bool str(std::string* s) {
    if (p >= e || *p != '"') return false;
    ++p;
    while (p < e && *p != '"') {
      if (*p == '\\') {
        if (++p >= e) return false;
        switch (*p) {
          case 'n': *s += '\n'; break; case 't': *s += '\t'; break; case 'r': *s += '\r'; break; case 'b': *s += '\b'; break; case 'f': *s += '\f'; break;
          case 'u': { if (e - p < 5) return false; int c = (int)strtol(std::string(p + 1, 4).c_str(), nullptr, 16); if (c < 128) *s += (char)c; else *s += '?'; p += 4; break; }
          default: *s += *p;
        }
        ++p;
      } else *s += *p++;
    }
    if (p >= e) return false;
    ++p;
    return true;
  }
  bool val(JV* v) {
    if (++depth > 60) return false;
    ws();
    if (p >= e) return false;
    bool ok = false;
    if (*p == '{') {
      v->t = JV::Obj; ++p; ws();
      if (p < e && *p == '}') { ++p; ok = true; }
      else for (;;) {
        ws(); std::pair<std::string, JV> kv;
        if (!str(&kv.first)) break;
        ws(); if (p >= e || *p != ':') break;
        ++p; if (!val(&kv.second)) break;
        v->o.push_back(std::move(kv)); ws();
        if (p < e && *p == ',') { ++p; continue; }
        if (p < e && *p == '}') { ++p; ok = true; }
        break;
      }
    } else if (*p == '[') {
      v->t = JV::Arr; ++p; ws();
      if (p < e && *p == ']') { ++p; ok = true; }
      else for (;;) {
        JV x; if (!val(&x)) break;
        v->a.push_back(std::move(x)); ws();
        if (p < e && *p == ',') { ++p; continue; }
        if (p < e && *p == ']') { ++p; ok = true; }
        break;
      }
    } else if (*p == '"') { v->t = JV::Str; ok = str(&v->s); }
    else if (e - p >= 4 && !strncmp(p, "true", 4)) { v->t = JV::Bool; v->b = true; p += 4; ok = true; }
    else if (e - p >= 5 && !strncmp(p, "false", 5)) { v->t = JV::Bool; p += 5; ok = true; }
    else if (e - p >= 4 && !strncmp(p, "null", 4)) { p += 4; ok = true; }
    else { std::string t; while (p < e && (strchr("+-.eE", *p) || (*p >= '0' && *p <= '9'))) t += *p++; char* q; v->n = strtod(t.c_str(), &q); v->t = JV::Num; ok = !t.empty() && !*q; }
    --depth;
    return ok;
  }
};
}  // namespace
bool json_parse(const std::string& s, JV* out) { Jp j{s.data(), s.data() + s.size()}; if (!j.val(out)) return false; j.ws(); return j.p == j.e; }
