// helpers shared by the conduit harnesses: reference trees and comparison
#pragma once
#include "mc.hpp"
#include "conduit.hpp"
#include <memory>

namespace cn {
using conduit::DataType;
using conduit::index_t;
using conduit::Node;
using conduit::Schema;

inline void quiet_info(const std::string &, const std::string &, int) {}
inline void init() {
  conduit::utils::set_info_handler(quiet_info);
  conduit::utils::set_warning_handler(quiet_info);
}
// did the call report an error through the library's error mechanism?
template <class F> bool throws(F f) {
  try { f(); } catch (conduit::Error &) { return true; }
  return false;
}

// ------------------------------------------------------------- reference tree
struct M {
  enum K { EMPTY, OBJ, LIST, LEAF } k = EMPTY;
  std::string leaf; // canonical leaf text: "<dtype>:v,v,..."
  std::vector<std::string> names;
  std::vector<M> kids;
  void clear() { k = EMPTY; leaf.clear(); names.clear(); kids.clear(); }
  void obj() { if (k != OBJ) { clear(); k = OBJ; } }
  void list() { if (k != LIST) { clear(); k = LIST; } }
  void set_leaf(const std::string &v) { clear(); k = LEAF; leaf = v; }
  int find(const std::string &n) const {
    for (size_t i = 0; i < names.size(); i++) if (names[i] == n) return (int)i;
    return -1;
  }
  M &child(const std::string &n) { // create
    obj();
    int i = find(n);
    if (i >= 0) return kids[i];
    names.push_back(n); kids.emplace_back();
    return kids.back();
  }
  void erase(int i) { if (k == OBJ) names.erase(names.begin() + i); kids.erase(kids.begin() + i); }
  bool operator==(const M &o) const { return k == o.k && leaf == o.leaf && names == o.names && kids == o.kids; }
  bool operator!=(const M &o) const { return !(*this == o); }
  int size() const { int s = 1; for (auto &c : kids) s += c.size(); return s; }
  int depth() const { int d = 0; for (auto &c : kids) d = std::max(d, c.depth()); return d + 1; }
  void dump(std::string &o) const {
    if (k == EMPTY) o += '~';
    else if (k == LEAF) { o += '<'; o += leaf; o += '>'; }
    else {
      o += k == OBJ ? '{' : '[';
      for (size_t i = 0; i < kids.size(); i++) {
        if (i) o += ',';
        if (k == OBJ) { o += names[i]; o += ':'; }
        kids[i].dump(o);
      }
      o += k == OBJ ? '}' : ']';
    }
  }
  std::string str() const { std::string o; dump(o); return o; }
  uint64_t hash() const { return mc::hash_str(str()); }
};

template <class T> inline void fmt_num(std::string &o, T v) {
  char b[64];
  if (std::is_floating_point<T>::value) {
    if ((double)v != (double)v) snprintf(b, sizeof b, "nan");
    else snprintf(b, sizeof b, "%.17g", (double)v);
  } else if (std::is_signed<T>::value) snprintf(b, sizeof b, "%lld", (long long)v);
  else snprintf(b, sizeof b, "%llu", (unsigned long long)v);
  o += b;
}
// logical elements, read straight from memory by offset and stride (our own addressing)
template <class T> inline void fmt_elems(std::string &o, const Node &n) {
  const DataType &d = n.dtype();
  const char *p = (const char *)n.data_ptr();
  for (index_t i = 0; i < d.number_of_elements(); i++) {
    T v; memcpy(&v, p + d.offset() + d.stride() * i, sizeof v);
    if (i) o += ',';
    fmt_num(o, v);
  }
}
inline std::string leaf_text(const Node &n) {
  std::string o = n.dtype().name();
  o += ':';
  switch (n.dtype().id()) {
  case DataType::INT8_ID: fmt_elems<int8_t>(o, n); break;
  case DataType::INT16_ID: fmt_elems<int16_t>(o, n); break;
  case DataType::INT32_ID: fmt_elems<int32_t>(o, n); break;
  case DataType::INT64_ID: fmt_elems<int64_t>(o, n); break;
  case DataType::UINT8_ID: fmt_elems<uint8_t>(o, n); break;
  case DataType::UINT16_ID: fmt_elems<uint16_t>(o, n); break;
  case DataType::UINT32_ID: fmt_elems<uint32_t>(o, n); break;
  case DataType::UINT64_ID: fmt_elems<uint64_t>(o, n); break;
  case DataType::FLOAT32_ID: fmt_elems<float>(o, n); break;
  case DataType::FLOAT64_ID: fmt_elems<double>(o, n); break;
  case DataType::CHAR8_STR_ID: {
    const DataType &d = n.dtype();
    const char *p = (const char *)n.data_ptr();
    for (index_t i = 0; i < d.number_of_elements(); i++) {
      char c = p[d.offset() + d.stride() * i];
      if (!c) break; // a string ends at its terminator
      o += c;
    }
    break;
  }
  default: o += "?";
  }
  return o;
}
// canonical value of a node tree, through the public child/dtype interface
inline M value(const Node &n) {
  M m;
  if (n.dtype().is_empty()) return m;
  if (n.dtype().is_object()) {
    m.k = M::OBJ;
    for (index_t i = 0; i < n.number_of_children(); i++) {
      m.names.push_back(n.schema().child_name(i));
      m.kids.push_back(value(n.child(i)));
    }
  } else if (n.dtype().is_list()) {
    m.k = M::LIST;
    for (index_t i = 0; i < n.number_of_children(); i++) m.kids.push_back(value(n.child(i)));
  } else {
    m.k = M::LEAF; m.leaf = leaf_text(n);
  }
  return m;
}
inline std::string dump(const Node &n) { return value(n).str(); }

// every structural invariant of a live tree against its reference
inline void check_tree(const Node &n, const M &m, const std::vector<std::string> &alphabet,
                       const Node *parent, const std::string &name, const std::string &path, int depth = 0) {
  static const char *kn[] = {"empty", "object", "list", "leaf"};
  const DataType &d = n.dtype();
  int k = d.is_empty() ? M::EMPTY : d.is_object() ? M::OBJ : d.is_list() ? M::LIST : M::LEAF;
  const char *p = path.c_str();
  MC_CHECK(k == m.k, "kind", "node '%s' is %s, expected %s", p, kn[k], kn[m.k]);
  MC_CHECK(n.parent() == parent, "parent", "node '%s' reports a wrong parent", p);
  MC_CHECK(n.is_root() == (parent == nullptr), "root", "node '%s' is_root is wrong", p);
  MC_CHECK(n.schema().parent() == (parent ? &parent->schema() : nullptr), "schema-parent", "schema of '%s' reports a wrong parent", p);
  MC_CHECK(n.name() == name, "name", "node '%s' reports name '%s', expected '%s'", p, n.name().c_str(), name.c_str());
  MC_CHECK(n.path() == path, "path", "node reports path '%s', expected '%s'", n.path().c_str(), p);
  MC_CHECK(n.schema().path() == path && n.schema().name() == name, "schema-path", "schema of '%s' reports name '%s' path '%s'", p, n.schema().name().c_str(), n.schema().path().c_str());
  MC_CHECK(n.schema().dtype().id() == d.id(), "schema-dtype", "schema of '%s' has another type than its node", p);
  index_t nc = (index_t)m.kids.size();
  MC_CHECK(n.number_of_children() == nc, "count", "node '%s' has %ld children, expected %ld", p, (long)n.number_of_children(), (long)nc);
  MC_CHECK(n.schema().number_of_children() == nc, "schema-count", "schema of '%s' has %ld children, expected %ld", p, (long)n.schema().number_of_children(), (long)nc);
  if (m.k == M::OBJ) MC_CHECK(n.child_names() == m.names, "names", "child names of '%s' differ from the expected ones (%s)", p, m.str().c_str());
  else MC_CHECK(n.child_names().empty(), "names", "child names of '%s' should be empty", p);
  for (auto &a : alphabet) {
    int i = m.k == M::OBJ ? m.find(a) : -1;
    MC_CHECK(n.has_child(a) == (i >= 0), "has_child", "has_child('%s') on '%s' is %d", a.c_str(), p, (int)n.has_child(a));
    if (i >= 0) {
      MC_CHECK(n.schema().child_index(a) == i, "child_index", "child '%s' of '%s' has index %ld, expected %d", a.c_str(), p, (long)n.schema().child_index(a), i);
      MC_CHECK(&n.child(a) == &n.child(i), "child-by-name", "child '%s' of '%s' by name and by index differ", a.c_str(), p);
      MC_CHECK(n.schema().child_name(i) == a, "child_name", "child %d of '%s' is named '%s', expected '%s'", i, p, n.schema().child_name(i).c_str(), a.c_str());
      if (a.find('/') == std::string::npos) {
        MC_CHECK(n.has_path(a), "has_path", "has_path('%s') on '%s' is false", a.c_str(), p);
        MC_CHECK(&n.fetch_existing(a) == &n.child(i), "fetch_existing", "fetch_existing('%s') on '%s' is another node", a.c_str(), p);
        MC_CHECK(n.fetch_ptr(a) == &n.child(i), "fetch_ptr", "fetch_ptr('%s') on '%s' is another node", a.c_str(), p);
      }
    }
  }
  if (m.k == M::LEAF) {
    std::string t = leaf_text(n);
    MC_CHECK(t == m.leaf, "value", "node '%s' holds %s, expected %s", p, t.c_str(), m.leaf.c_str());
  }
  for (index_t i = 0; i < nc; i++) {
    const Node &c = n.child(i);
    MC_CHECK(n.child_ptr(i) == &c && &n[i] == &c, "child_ptr", "child accessors of '%s' disagree", p);
    MC_CHECK(&c.schema() == n.schema().child_ptr(i), "schema-child", "schema child %ld of '%s' is not its node's schema", (long)i, p);
    std::string nm;
    if (m.k == M::OBJ) nm = m.names[i].find('/') == std::string::npos ? m.names[i] : "{" + m.names[i] + "}";
    else nm = "[" + std::to_string(i) + "]";
    check_tree(c, m.kids[i], alphabet, &n, nm, path.empty() ? nm : path + "/" + nm, depth + 1);
  }
}
} // namespace cn
