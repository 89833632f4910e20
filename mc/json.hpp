// a strict RFC 8259 parser, used as an independent judge of JSON texts
#pragma once
#include "gen.hpp"
#include <cmath>
namespace js {
struct J {
  enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
  bool b = false; bool integral = false; std::string s; // NUM: the literal
  std::vector<std::string> names; std::vector<J> kids;
};
struct P {
  const char *p, *e;
  void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; }
  bool lit(const char *w) { size_t n = strlen(w); if ((size_t)(e - p) < n || memcmp(p, w, n)) return false; p += n; return true; }
  static void utf8(std::string &o, unsigned c) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  }
  bool hex4(unsigned &v) {
    v = 0;
    for (int i = 0; i < 4; i++, p++) {
      if (p >= e || !isxdigit((unsigned char)*p)) return false;
      v = v * 16 + (*p <= '9' ? *p - '0' : (*p | 32) - 'a' + 10);
    }
    return true;
  }
  bool str(std::string &o) {
    if (p >= e || *p != '"') return false;
    for (p++; p < e; ) {
      unsigned char c = *p;
      if (c == '"') { p++; return true; }
      if (c < 0x20) return false;
      if (c != '\\') { o += (char)c; p++; continue; }
      if (++p >= e) return false;
      switch (*p++) {
      case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
      case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
      case 'r': o += '\r'; break; case 't': o += '\t'; break;
      case 'u': {
        unsigned v, w; if (!hex4(v)) return false;
        if (v >= 0xDC00 && v < 0xE000) return false;
        if (v >= 0xD800 && v < 0xDC00) { if (!lit("\\u") || !hex4(w) || w < 0xDC00 || w >= 0xE000) return false; v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); }
        utf8(o, v); break;
      }
      default: return false;
      }
    }
    return false;
  }
  bool val(J &j) {
    ws();
    if (p >= e) return false;
    if (*p == '{') {
      j.k = J::OBJ; p++; ws();
      if (p < e && *p == '}') { p++; return true; }
      for (;;) {
        ws(); std::string n; if (!str(n)) return false;
        ws(); if (p >= e || *p++ != ':') return false;
        j.names.push_back(n); j.kids.emplace_back();
        if (!val(j.kids.back())) return false;
        ws(); if (p >= e) return false;
        if (*p == ',') { p++; continue; }
        if (*p++ == '}') return true;
        return false;
      }
    }
    if (*p == '[') {
      j.k = J::ARR; p++; ws();
      if (p < e && *p == ']') { p++; return true; }
      for (;;) {
        j.kids.emplace_back(); if (!val(j.kids.back())) return false;
        ws(); if (p >= e) return false;
        if (*p == ',') { p++; continue; }
        if (*p++ == ']') return true;
        return false;
      }
    }
    if (*p == '"') { j.k = J::STR; return str(j.s); }
    if (lit("true")) { j.k = J::BOOL; j.b = true; return true; }
    if (lit("false")) { j.k = J::BOOL; return true; }
    if (lit("null")) { j.k = J::NUL; return true; }
    const char *b = p; j.k = J::NUM; j.integral = true;
    if (*p == '-') p++;
    if (p >= e || !isdigit((unsigned char)*p)) return false;
    if (*p == '0') p++; else while (p < e && isdigit((unsigned char)*p)) p++;
    if (p < e && *p == '.') { j.integral = false; p++; if (p >= e || !isdigit((unsigned char)*p)) return false; while (p < e && isdigit((unsigned char)*p)) p++; }
    if (p < e && (*p == 'e' || *p == 'E')) { j.integral = false; p++; if (p < e && (*p == '+' || *p == '-')) p++; if (p >= e || !isdigit((unsigned char)*p)) return false; while (p < e && isdigit((unsigned char)*p)) p++; }
    j.s.assign(b, p);
    return true;
  }
};
inline bool parse(const std::string &t, J &j) { P p{t.data(), t.data() + t.size()}; if (!p.val(j)) return false; p.ws(); return p.p == p.e; }

inline bool special(const std::string &s) { // the spellings of non-finite numbers
  size_t i = s.size() && (s[0] == '-' || s[0] == '+'); std::string r = s.substr(i);
  for (auto &c : r) c = (char)tolower((unsigned char)c);
  return r == "nan" || r == "inf" || r == "infinity";
}
// how a number of a text is stored: signed if it fits, else unsigned if it fits, else a double
struct Num { int kind = -1; int64_t i = 0; uint64_t u = 0; double d = 0; };
inline Num number(const J &j) {
  Num n;
  if (j.k == J::STR && special(j.s)) { n.kind = 2; n.d = strtod(j.s.c_str(), nullptr); return n; }
  if (j.k != J::NUM) return n;
  n.d = strtod(j.s.c_str(), nullptr);
  if (j.integral) {
    errno = 0;
    n.i = strtoll(j.s.c_str(), nullptr, 10);
    if (!errno) { n.kind = 0; n.u = (uint64_t)n.i; return n; }
    if (j.s[0] != '-') { errno = 0; n.u = strtoull(j.s.c_str(), nullptr, 10); if (!errno) { n.kind = 1; return n; } }
  }
  n.kind = 2;
  return n;
}
inline std::string arr_text(const std::vector<Num> &v) {
  int k = 0; bool neg = false;
  for (auto &x : v) { k = std::max(k, x.kind); if (x.kind == 0 && x.i < 0) neg = true; }
  if (k == 1 && neg) k = 2;
  std::string o = k == 0 ? "int64:" : k == 1 ? "uint64:" : "float64:";
  for (size_t i = 0; i < v.size(); i++) {
    if (i) o += ',';
    if (k == 0) cn::fmt_num(o, v[i].i);
    else if (k == 1) cn::fmt_num(o, v[i].kind == 0 ? (uint64_t)v[i].i : v[i].u);
    else cn::fmt_num(o, v[i].d);
  }
  return o;
}
// the tree a plain JSON text denotes; ok=false: not a tree (duplicate names)
inline cn::M denote(const J &j, bool &ok) {
  cn::M m;
  switch (j.k) {
  case J::NUL: break;
  case J::BOOL: m.set_leaf(j.b ? "uint8:1" : "uint8:0"); break;
  case J::STR: m.set_leaf("char8_str:" + j.s.substr(0, j.s.find('\0'))); break;
  case J::NUM: m.set_leaf(arr_text({number(j)})); break;
  case J::OBJ:
    m.obj();
    for (size_t i = 0; i < j.kids.size(); i++) {
      if (m.find(j.names[i]) >= 0) ok = false;
      m.names.push_back(j.names[i]); m.kids.push_back(denote(j.kids[i], ok));
    }
    break;
  case J::ARR: {
    std::vector<Num> v;
    for (auto &k : j.kids) { Num n = number(k); if (n.kind < 0) break; v.push_back(n); }
    if (v.size() == j.kids.size() && !v.empty()) { m.set_leaf(arr_text(v)); break; }
    m.list();
    for (auto &k : j.kids) m.kids.push_back(denote(k, ok));
  }
  }
  return m;
}
} // namespace js
