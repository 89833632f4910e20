// what a tree becomes in a text form without type names
#pragma once
#include "json.hpp"
namespace pl {
using namespace gen;
inline bool num_leaf(const std::string &s) { return s.compare(0, 9, "char8_str") != 0; }
inline std::vector<std::string> vals(const std::string &leaf) {
  std::vector<std::string> o; std::string v = leaf.substr(leaf.find(':') + 1), c;
  if (v.empty()) return o;
  for (char ch : v) if (ch == ',') { o.push_back(c); c.clear(); } else c += ch;
  o.push_back(c); return o;
}
// is a YAML scalar taken for a number?  gives its leaf
inline bool ynum(const std::string &s, std::string &leaf) {
  if (s.empty() || s.find('\0') != std::string::npos) return false;
  char *e = nullptr; errno = 0;
  long long i = strtoll(s.c_str(), &e, 10);
  if (!*e && e != s.c_str() && !errno) { leaf = "int64:" + std::to_string(i); return true; }
  if (s.find('-') == std::string::npos) { errno = 0; unsigned long long u = strtoull(s.c_str(), &e, 10); if (!*e && e != s.c_str() && !errno) { leaf = "uint64:" + std::to_string(u); return true; } }
  double d = strtod(s.c_str(), &e);
  if (*e || e == s.c_str()) return false;
  leaf = "float64:"; fmt_num(leaf, d); return true;
}
// the tree YAML text stands for: strings that spell numbers are numbers, what has no content is empty
inline M yview(const M &m) {
  M r = m;
  if (m.k == M::LEAF) {
    if (num_leaf(m.leaf)) return r;
    std::string s = m.leaf.substr(10), l;
    if (s.empty()) { M e; return e; }
    if (ynum(s, l)) r.leaf = l;
    return r;
  }
  if ((m.k == M::OBJ || m.k == M::LIST) && m.kids.empty()) { M e; return e; }
  for (auto &k : r.kids) k = yview(k);
  return r;
}
// does the parsed tree hold the original's values, up to the widest type of their kind?
inline void same(const M &got, const M &m, const std::string &where, bool yaml = false) {
  auto bad = [&](const char *what) { mc::fail("plain-value", mc::fmt("%s at '%s': parsed %s, written %s", what, where.c_str(), got.str().c_str(), m.str().c_str())); };
  if (m.k == M::LEAF && num_leaf(m.leaf)) {
    auto a = vals(m.leaf);
    std::string ty = m.leaf.substr(0, m.leaf.find(':'));
    bool fl = ty[0] == 'f';
    if (a.empty() && yaml) { if (got.k != M::EMPTY && (got.k != M::LIST || !got.kids.empty())) bad("a numeric leaf without elements is neither empty nor an empty list"); return; }
    if (a.empty()) { if (got.k != M::LIST || !got.kids.empty()) bad("a numeric leaf without elements is not an empty list"); return; }
    if (a.size() == 1 && (a[0] == "nan" || a[0] == "-nan" || a[0] == "inf" || a[0] == "-inf")) { // a spelled-out scalar is a string in plain JSON
      if (got.k != M::LEAF || (got.leaf != (yaml ? "float64:" : "char8_str:") + a[0])) bad("a non-finite scalar changed");
      return;
    }
    if (got.k != M::LEAF) { bad("not a leaf"); return; }
    std::string gt = got.leaf.substr(0, got.leaf.find(':'));
    auto b = vals(got.leaf);
    if (fl ? gt != "float64" : gt != "int64" && gt != "uint64") { bad("another kind of number"); return; }
    if (gt == "uint64" && ty[0] != 'u') { bad("another signedness"); return; }
    if (a != b) bad("other numbers");
    return;
  }
  if (m.k == M::LIST && !m.kids.empty()) { // a list of numbers is an array in plain JSON
    bool all = true; std::vector<std::string> a; bool fl = false;
    for (auto &k : m.kids) {
      if (k.k != M::LEAF) { all = false; break; }
      if (!num_leaf(k.leaf)) { std::string s = k.leaf.substr(10); if (yaml || !js::special(s)) { all = false; break; } fl = true; a.push_back(s); continue; }
      auto v = vals(k.leaf); if (v.size() != 1) { all = false; break; }
      if (k.leaf[0] == 'f') fl = true;
      a.push_back(v[0]);
    }
    if (all) {
      if (got.k != M::LEAF || !num_leaf(got.leaf)) { bad("a list of numbers is not an array"); return; }
      auto b = vals(got.leaf);
      if (a.size() != b.size()) { bad("another length"); return; }
      for (size_t i = 0; i < a.size(); i++) { double x = strtod(a[i].c_str(), 0), y = strtod(b[i].c_str(), 0); if (!(x == y || (x != x && y != y))) bad("other numbers"); }
      if (fl != (got.leaf[0] == 'f') && got.leaf[0] != 'f') bad("another kind of number");
      return;
    }
  }
  if (got.k != m.k || got.leaf != m.leaf || got.names != m.names || got.kids.size() != m.kids.size()) { bad("another tree"); return; }
  for (size_t i = 0; i < m.kids.size(); i++) same(got.kids[i], m.kids[i], where + "/" + (m.k == M::OBJ ? m.names[i] : std::to_string(i)), yaml);
}
} // namespace pl
