// C09: schemas round-trip through text; equality and compatibility are exact; generated nodes follow their schema.
#include "gen.hpp"
#include <unistd.h>
#include <fstream>
using namespace gen;
using conduit::Schema; using conduit::Endianness; using conduit::Generator;

struct SM { // reference schema
  int k = 0; // 0 empty 1 object 2 list 3 leaf
  index_t id = 0, n = 0, off = 0, stride = 0, eb = 0, end = 0;
  std::vector<std::string> names; std::vector<SM> kids;
  std::string str() const {
    if (k == 0) return "~";
    if (k == 3) return mc::fmt("%s[%ld]@%ld+%ld/%ld:%ld", DataType::id_to_name(id).c_str(), (long)n, (long)off, (long)stride, (long)eb, (long)end);
    std::string s = k == 1 ? "{" : "[";
    for (size_t i = 0; i < kids.size(); i++) s += (i ? "," : "") + (k == 1 ? "'" + names[i] + "':" : std::string()) + kids[i].str();
    return s + (k == 1 ? "}" : "]");
  }
};
static void build(const SM &m, Schema &s) {
  if (m.k == 0) { s.reset(); return; }
  if (m.k == 3) { s.set(DataType(m.id, m.n, m.off, m.stride, m.eb, m.end)); return; }
  s.set(m.k == 1 ? DataType::object() : DataType::list());
  for (size_t i = 0; i < m.kids.size(); i++) build(m.kids[i], m.k == 1 ? s.add_child(m.names[i]) : s.append());
}
static index_t native(index_t e) { return e == Endianness::DEFAULT_ID ? Endianness::machine_default() : e; }
static SM read(const Schema &s, const Schema *parent = nullptr) {
  SM m; const DataType &d = s.dtype();
  MC_CHECK(s.parent() == parent, "parent", "wrong parent pointer in a schema");
  m.k = d.is_empty() ? 0 : d.is_object() ? 1 : d.is_list() ? 2 : 3;
  if (m.k == 3) { m.id = d.id(); m.n = d.number_of_elements(); m.off = d.offset(); m.stride = d.stride(); m.eb = d.element_bytes(); m.end = native(d.endianness()); }
  else if (m.k) for (index_t i = 0; i < s.number_of_children(); i++) {
    m.kids.push_back(read(s.child(i), &s));
    if (m.k == 1) {
      m.names.push_back(s.child_name(i));
      MC_CHECK(s.has_child(m.names.back()) && s.child_index(m.names.back()) == i && &s.child(m.names.back()) == &s.child(i), "index", "name and index disagree");
      if (m.names.back().find('/') == std::string::npos) MC_CHECK(s.child(i).name() == m.names.back(), "name", "a child's name() is '%s'", s.child(i).name().c_str());
    }
  }
  if (m.k == 1) MC_CHECK(s.child_names() == m.names, "names", "child_names differ");
  return m;
}
static SM nat(SM m) { m.end = native(m.end); if (m.k != 3) m.end = 0; for (auto &c : m.kids) c = nat(c); return m; }
static bool same(const SM &a, const SM &b) { return a.str() == b.str(); }
static void must(const Schema &s, const SM &m, const char *key) {
  SM r = read(s);
  MC_CHECK(same(nat(r), nat(m)), key, "%s: is %s, should be %s", key, r.str().c_str(), m.str().c_str());
}
static const index_t IDS[] = {DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID, DataType::FLOAT32_ID, DataType::FLOAT64_ID, DataType::CHAR8_STR_ID};
static SM leaf(int ty, int n, int off, int st, int en) {
  SM m; m.k = 3; m.id = IDS[ty]; m.n = n; m.eb = DataType::default_bytes(m.id);
  m.off = off == 0 ? 0 : off == 1 ? 3 : 1000; m.stride = st == 0 ? m.eb : st == 1 ? 2 * m.eb : 0; if (st == 3) m.stride = m.eb + 1;
  m.end = en == 0 ? Endianness::DEFAULT_ID : en == 1 ? Endianness::BIG_ID : Endianness::LITTLE_ID;
  return m;
}
// reference definitions
static bool eq(const SM &a, const SM &b) {
  if (a.k != b.k) return false;
  if (a.k == 3) return a.id == b.id && a.n == b.n && a.off == b.off && a.stride == b.stride && a.eb == b.eb && a.end == b.end;
  if (a.k == 0) return true;
  if (a.kids.size() != b.kids.size()) return false;
  for (size_t i = 0; i < a.kids.size(); i++) {
    size_t j = i;
    if (a.k == 1) { for (j = 0; j < b.names.size() && b.names[j] != a.names[i]; j++) { } if (j == b.names.size()) return false; }
    if (!eq(a.kids[i], b.kids[j])) return false;
  }
  return true;
}
static bool compat(const SM &a, const SM &b) { // does b fit into a
  if (a.k != b.k) return false;
  if (a.k == 3) return a.id == b.id && a.eb == b.eb && a.n >= b.n;
  if (a.k == 0) return true;
  if (a.k == 2) { if (a.kids.size() < b.kids.size()) return false; for (size_t i = 0; i < b.kids.size(); i++) if (!compat(a.kids[i], b.kids[i])) return false; return true; }
  for (size_t i = 0; i < b.kids.size(); i++) for (size_t j = 0; j < a.kids.size(); j++) if (a.names[j] == b.names[i] && !compat(a.kids[j], b.kids[i])) return false;
  return true;
}
static SM compacted(const SM &m, index_t &off) {
  SM r = m;
  if (m.k == 3) { r.eb = r.stride = DataType::default_bytes(m.id); r.off = off; off += r.n * r.eb; return r; }
  for (auto &c : r.kids) c = compacted(c, off);
  return r;
}
static index_t strided(const SM &m) { if (m.k == 3) return m.n ? m.stride * (m.n - 1) + m.eb : 0; index_t t = 0; for (auto &c : m.kids) t += strided(c); return t; }
static index_t compact_size(const SM &m) { if (m.k == 3) return m.n * m.eb; index_t t = 0; for (auto &c : m.kids) t += compact_size(c); return t; }
static bool has_empty_container(const SM &m) { if ((m.k == 1 || m.k == 2) && m.kids.empty()) return true; for (auto &c : m.kids) if (has_empty_container(c)) return true; return false; }

static bool has_default(const SM &m) { if (m.k == 3) return m.end == Endianness::DEFAULT_ID; for (auto &c : m.kids) if (has_default(c)) return true; return false; }
static char g_dir[64];
static void judge(const SM &m, bool files) {
  mc::note("schema %s", m.str().c_str());
  Schema s; build(m, s);
  must(s, m, "built");
  { Schema c(s); must(c, m, "copy"); Schema d; d["old/x"].set(DataType::int8()); d = s; must(d, m, "assign"); d.set(s); must(d, m, "set"); d.set(d); must(d, m, "set-self"); MC_CHECK(c.equals(s) && s.equals(c), "equals-copy", "a copy is not equal"); MC_CHECK(s.equals(s), "equals-self", "not equal to itself"); }
  std::string texts[] = {s.to_json(), s.to_json(0, 0, "", ""), s.to_json(3, 1, "\t", "\r\n"), s.to_string("json"), s.to_json_default()};
  int i = 0;
  for (auto &t : texts) {
    mc::note("json %d: %s", i, t.c_str());
    try {
      Schema r; r["old"].append(); r.set(t); must(r, m, "json"); if (!has_default(m)) MC_CHECK(r.equals(s) && s.equals(r), "json-equals", "the parsed schema is not equal to the original: %s", r.to_json().c_str());
      if (i == 0) { Schema q(t); must(q, m, "json-constructor"); Schema q2; q2 = t; must(q2, m, "json-assign"); Generator g(t, "conduit_json"); Schema q3; g.walk(q3); must(q3, m, "json-generator"); Node nn; nn.set(q3); must(nn.schema(), m, "node-schema-of-set"); }
    } catch (conduit::Error &e) { mc::fail("json-parse", mc::fmt("its own JSON does not parse: %s", e.message().substr(0, 300).c_str())); }
    i++;
  }
  if (m.k && !has_empty_container(m)) {
    std::string ys[] = {s.to_yaml(), s.to_string("yaml"), s.to_yaml(4, 0, " ", "\n")};
    for (auto &t : ys) {
      mc::note("yaml: %s", t.c_str());
      try { Schema r; Generator g(t, "conduit_yaml"); g.walk(r); must(r, m, "yaml"); }
      catch (conduit::Error &e) { mc::fail("yaml-parse", mc::fmt("its own YAML does not parse: %s", e.message().substr(0, 300).c_str())); }
    }
  }
  if (files) {
    std::string f = mc::fmt("%s/s%d", g_dir, (int)getpid());
    s.save(f); Schema r; r.load(f); must(r, m, "save-load"); ::unlink(f.c_str());
  }
  index_t off = 0; SM want = compacted(m, off);
  MC_CHECK(s.total_bytes_compact() == compact_size(m), "compact-bytes", "total_bytes_compact is %ld, should be %ld", (long)s.total_bytes_compact(), (long)compact_size(m));
  MC_CHECK(s.total_strided_bytes() == strided(m), "strided-bytes", "total_strided_bytes is %ld, should be %ld", (long)s.total_strided_bytes(), (long)strided(m));
  MC_CHECK(s.is_compact() == (strided(m) == compact_size(m)), "is-compact", "is_compact is wrong");
  Schema c; c["old/y"].set(DataType::int8(9)); s.compact_to(c); must(c, want, "compact");
  Schema cc; c.compact_to(cc); must(cc, want, "compact-twice");
  MC_CHECK(c.is_compact() && c.total_bytes_compact() == off && c.total_strided_bytes() == off, "compact-size", "the compacted schema has other sizes");
  must(s, m, "source-changed");
  mc::transition(); mc::observe(mc::hash_str(m.str()));
}
static void leaves() {
  SM m = leaf(mc::choose(11), mc::choose(4), mc::choose(3), mc::choose(4), mc::choose(3));
  int at = mc::choose(3);
  SM r;
  if (at == 0) r = m; else { r.k = at; if (at == 1) { r.names = {"x", "y"}; } r.kids = {leaf(2, 1, 0, 0, 0), m, leaf(9, 1, 0, 0, 0), m}; if (at == 1) r.names = {"x", "y", "z", "w"}; }
  judge(r, at == 1); mc::outcome("leaf");
}
static SM atom(int i) {
  switch (i) {
  case 0: return SM();
  case 1: return leaf(2, 1, 0, 0, 0);
  case 2: return leaf(9, 2, 1, 1, 1);
  case 3: return leaf(2, 2, 0, 0, 0);
  case 4: return leaf(10, 3, 0, 0, 0);
  case 5: return leaf(2, 0, 0, 0, 0);
  case 6: { SM m; m.k = 1; return m; }
  default: { SM m; m.k = 2; return m; }
  }
}
static const char *NM[] = {"a", "b", "a/b", "q\"\\\n", " ", "1", "dtype2"};
static SM tree(int depth, int width, int atoms, int names) {
  int k = mc::choose(depth ? atoms + 2 : atoms);
  if (k < atoms) return atom(k);
  SM m; m.k = k - atoms + 1; int w = 1 + mc::choose(width);
  for (int i = 0; i < w; i++) {
    if (m.k == 1) { int n = mc::choose(names); std::string nm = NM[n]; bool dup = false; for (auto &x : m.names) dup |= x == nm; if (dup) nm += "'"; m.names.push_back(nm); }
    m.kids.push_back(tree(depth - 1, width, atoms, names));
  }
  return m;
}
static void trees() { SM m = mc::thorough() ? tree(2, 2, 8, 3) : tree(2, 2, 3, 2); judge(m, false); mc::outcome("tree"); }
static void names() {
  SM m; m.k = 1; int w = 1 + mc::choose(3);
  for (int i = 0; i < w; i++) { std::string nm = NM[mc::choose(7)]; for (auto &x : m.names) if (x == nm) nm += "+"; m.names.push_back(nm); m.kids.push_back(atom(mc::choose(3))); }
  judge(m, true); mc::outcome("names");
}
static void pair_of(const SM &a, const SM &b) {
  mc::note("a %s", a.str().c_str()); mc::note("b %s", b.str().c_str());
  Schema x, y; build(a, x); build(b, y);
  MC_CHECK(x.equals(y) == eq(a, b), "equals", "equals is %d for %s and %s", (int)x.equals(y), a.str().c_str(), b.str().c_str());
  MC_CHECK(y.equals(x) == eq(a, b), "equals-symmetric", "equals is not symmetric for %s and %s", a.str().c_str(), b.str().c_str());
  MC_CHECK(x.compatible(y) == compat(a, b), "compatible", "compatible is %d for %s and %s", (int)x.compatible(y), a.str().c_str(), b.str().c_str());
  MC_CHECK(x.dtype().equals(y.dtype()) == (a.k == b.k && (a.k != 3 || eq(a, b))), "dtype-equals", "DataType::equals is wrong for %s and %s", a.str().c_str(), b.str().c_str());
  if (mc::flip()) { Node p, q; p.set(x); q.set(y); MC_CHECK(p.compatible(q) == compat(a, b), "node-compatible", "Node::compatible is wrong for %s and %s", a.str().c_str(), b.str().c_str()); }
  must(x, a, "changed"); must(y, b, "changed");
  mc::transition(); mc::observe(mc::hash_str(a.str() + "|" + b.str()));
  mc::outcome(eq(a, b) ? "equal" : compat(a, b) ? "compatible" : "different");
}
static SM pleaf() { static const int T[] = {2, 6, 9, 10}; int t = T[mc::choose(4)], n = mc::choose(3), o = mc::choose(2), s = mc::choose(2), e = mc::choose(2); return leaf(t, n, o, s, e); }
static void leaf_pairs() { SM a = pleaf(), b = pleaf(); pair_of(a, b); }
static SM wide() { // one container of up to 3 children
  SM m; m.k = 1 + mc::choose(2); int w = mc::choose(mc::thorough() ? 4 : 3);
  for (int i = 0; i < w; i++) { if (m.k == 1) { std::string nm = NM[mc::choose(3)]; for (auto &x : m.names) if (x == nm) nm += "'"; m.names.push_back(nm); } m.kids.push_back(atom(mc::choose(4))); }
  return m;
}
static void wide_pairs() { SM a = wide(), b = wide(); pair_of(a, b); }
static void deep_pairs() { SM a = tree(2, 1, 4, 3), b = tree(2, 1, 4, 3); pair_of(a, b); }
static void nested_pairs() { // names with slashes against nested objects
  SM a = tree(2, 2, mc::thorough() ? 2 : 1, 3); SM b = tree(1, 2, mc::thorough() ? 2 : 1, 3); pair_of(a, b);
}
// generating nodes from a schema text and a buffer
static void expect(const Node &n, const SM &m, const unsigned char *data, index_t size, bool ext, const char *key) {
  const DataType &d = n.dtype();
  if (m.k == 3) {
    MC_CHECK(d.id() == m.id && d.number_of_elements() == m.n && native(d.endianness()) == native(m.end), "gen-dtype", "%s: '%s' is %s, should be %s", key, n.path().c_str(), d.to_json().c_str(), m.str().c_str());
    for (index_t i = 0; i < m.n; i++) {
      const unsigned char *want = data + m.off + i * m.stride, *got = (const unsigned char *)n.element_ptr(i);
      MC_CHECK(memcmp(want, got, (size_t)m.eb) == 0, "gen-value", "%s: element %ld of '%s' has other bytes", key, (long)i, n.path().c_str());
      if (ext) MC_CHECK(got == want, "gen-alias", "%s: element %ld of '%s' does not view the buffer", key, (long)i, n.path().c_str());
      else MC_CHECK(got < data || got >= data + size, "gen-copy", "%s: element %ld of '%s' views the buffer", key, (long)i, n.path().c_str());
    }
    return;
  }
  MC_CHECK((m.k == 0 && d.is_empty()) || (m.k == 1 && d.is_object()) || (m.k == 2 && d.is_list()), "gen-kind", "%s: '%s' has another kind", key, n.path().c_str());
  MC_CHECK(n.number_of_children() == (index_t)m.kids.size(), "gen-children", "%s: '%s' has %ld children", key, n.path().c_str(), (long)n.number_of_children());
  for (size_t i = 0; i < m.kids.size(); i++) { if (m.k == 1 && m.names[i].find('/') == std::string::npos) MC_CHECK(n.child((index_t)i).name() == m.names[i], "gen-name", "%s: wrong name", key); expect(n.child((index_t)i), m.kids[i], data, size, ext, key); }
}
static void generate_from(const std::string &t, const SM &m, index_t size, const char *proto) {
  mc::note("%s: %s", proto, t.c_str());
  std::vector<unsigned char> buf((size_t)size + 1);
  for (size_t i = 0; i < buf.size(); i++) buf[i] = (unsigned char)(i * 37 + 11);
  std::vector<unsigned char> keep = buf;
  try {
    Generator g(t, proto, buf.data());
    Node n; n["old"] = 1; g.walk(n); expect(n, m, buf.data(), size, false, "walk");
    Node e; e["old"] = 1; g.walk_external(e); expect(e, m, buf.data(), size, true, "walk_external");
    if (!strcmp(proto, "conduit_json")) {
      Node a(t, buf.data(), false), b(t, buf.data(), true), c, d; c.generate(t, proto, buf.data()); d.generate_external(t, proto, buf.data());
      expect(a, m, buf.data(), size, false, "Node(schema,data)"); expect(b, m, buf.data(), size, true, "Node(schema,data,external)");
      expect(c, m, buf.data(), size, false, "generate"); expect(d, m, buf.data(), size, true, "generate_external");
    }
    for (auto &x : buf) x = (unsigned char)~x;
    expect(e, m, buf.data(), size, true, "walk_external after a change");
    buf = keep; expect(n, m, buf.data(), size, false, "walk after a change");
  } catch (conduit::Error &e) { mc::fail("generate", mc::fmt("%s: %s", proto, e.message().substr(0, 300).c_str())); }
  MC_CHECK(buf == keep, "gen-wrote", "generating wrote to the buffer");
  mc::transition(); mc::observe(mc::hash_str(t));
}
static SM gleaf(index_t at) { int t = mc::choose(5); static const int T[] = {0, 1, 2, 9, 4}; SM m = leaf(T[t], mc::choose(3), 0, mc::choose(2), mc::choose(2)); m.off = at + mc::choose(2) * 8; return m; }
static void generate() {
  int shape = mc::choose(4); SM m; index_t size = 96;
  if (shape == 0) m = gleaf(0);
  else { m.k = shape == 3 ? 1 : shape; SM a = gleaf(0), b = gleaf(32); if (shape == 1) m.names = {"a", "b"}; m.kids = {a, b}; if (shape == 3) { SM l; l.k = 2; l.kids = m.kids; m.kids = {l}; m.names = {"l"}; } }
  Schema s; build(m, s);
  if (mc::flip()) generate_from(s.to_json(), m, size, "conduit_json"); else generate_from(s.to_yaml(), m, size, "conduit_yaml");
  mc::outcome("explicit");
}
static void shorthand() { // type names and lengths only: leaves follow one another
  bool yaml = mc::flip(); int w = 1 + mc::choose(3), kind = 1 + mc::choose(2); SM m; m.k = kind; index_t off = 0; std::string t;
  for (int i = 0; i < w; i++) {
    int f = mc::choose(5); static const int T[] = {0, 2, 9}; int ty = T[mc::choose(3)];
    std::string nm = DataType::id_to_name(IDS[ty]), item; SM c;
    auto plain = [&](int n) { SM l = leaf(ty, n, 0, 0, 0); l.off = off; off += l.n * l.eb; return l; };
    if (f == 0) { item = "\"" + nm + "\""; c = plain(1); }
    else if (f == 1) { item = "{\"dtype\":\"" + nm + "\"}"; c = plain(1); }
    else if (f == 2) { item = "{\"dtype\":\"" + nm + "\",\"length\":2}"; c = plain(2); }
    else if (f == 3) { item = "{\"dtype\":{\"x\":\"" + nm + "\",\"y\":\"int16\"},\"length\":2}"; c.k = 2; for (int q = 0; q < 2; q++) { SM o; o.k = 1; o.names = {"x", "y"}; o.kids.push_back(plain(1)); SM y = leaf(1, 1, 0, 0, 0); y.off = off; off += 2; o.kids.push_back(y); c.kids.push_back(o); } }
    else { item = "[\"" + nm + "\",{\"dtype\":\"" + nm + "\",\"number_of_elements\":0},\"" + nm + "\"]"; c.k = 2; c.kids = {plain(1)}; c.kids.push_back(plain(0)); c.kids.push_back(plain(1)); }
    t += std::string(i ? "," : "") + (kind == 1 ? "\"n" + std::to_string(i) + "\":" : std::string()) + item;
    if (kind == 1) m.names.push_back("n" + std::to_string(i));
    m.kids.push_back(c);
  }
  t = (kind == 1 ? "{" : "[") + t + (kind == 1 ? "}" : "]");
  generate_from(t, m, off, yaml ? "conduit_yaml" : "conduit_json");
  Schema s; Generator g(t, yaml ? "conduit_yaml" : "conduit_json"); g.walk(s); must(s, m, "shorthand-schema");
  mc::outcome("shorthand");
}
// the schema's own editing interface
static void ops() {
  Schema s; SM m; int d = mc::thorough() ? 4 : 3;
  static const char *P[] = {"a", "b", "a/b", "a/c", "b/a/c"};
  for (int step = 0; step < d; step++) {
    int op = mc::choose(10);
    auto find = [](SM *x, const std::string &n) -> SM * { for (size_t i = 0; i < x->names.size(); i++) if (x->k == 1 && x->names[i] == n) return &x->kids[i]; return nullptr; };
    auto walk = [&](const std::string &p, bool make) -> SM * { SM *x = &m; size_t at = 0; while (at <= p.size()) { size_t e = p.find('/', at); if (e == std::string::npos) e = p.size(); std::string n = p.substr(at, e - at); if (make && x->k != 1) { *x = SM(); x->k = 1; } SM *c = find(x, n); if (!c) { if (!make) return nullptr; x->names.push_back(n); x->kids.push_back(SM()); c = &x->kids.back(); } x = c; at = e + 1; } return x; };
    bool threw = false, should = false;
    try {
      if (op == 0) { const char *p = P[mc::choose(5)]; mc::note("fetch %s", p); *walk(p, true); s.fetch(p); }
      else if (op == 1) { const char *p = P[mc::choose(5)]; mc::note("[%s] = int32", p); *walk(p, true) = leaf(2, 1, 0, 0, 0); s[p].set(DataType::int32()); }
      else if (op == 2) { mc::note("append"); if (m.k != 2) { m = SM(); m.k = 2; } m.kids.push_back(leaf(9, 2, 0, 0, 0)); s.append().set(DataType::float64(2)); }
      else if (op == 3) { const char *p = P[mc::choose(3)]; mc::note("add_child %s", p); if (m.k != 1) { m = SM(); m.k = 1; } if (!find(&m, p)) { m.names.push_back(p); m.kids.push_back(SM()); } s.add_child(p); }
      else if (op == 4) { int i = mc::choose(3); mc::note("remove(%d)", i); should = !(m.k == 1 || m.k == 2) || i >= (int)m.kids.size(); if (!should) { m.kids.erase(m.kids.begin() + i); if (m.k == 1) m.names.erase(m.names.begin() + i); } s.remove(i); }
      else if (op == 5) { const char *p = P[mc::choose(3)]; mc::note("remove_child %s", p); SM *c = m.k == 1 ? find(&m, p) : nullptr; should = !c; if (c) { size_t i = c - &m.kids[0]; m.kids.erase(m.kids.begin() + i); m.names.erase(m.names.begin() + i); } s.remove_child(p); }
      else if (op == 6) { const char *p = P[mc::choose(3)], *q = P[mc::choose(3)]; mc::note("rename %s %s", p, q); SM *c = m.k == 1 ? find(&m, p) : nullptr; should = !c || find(&m, q); if (!should) m.names[c - &m.kids[0]] = q; s.rename_child(p, q); }
      else if (op == 7) { const char *p = P[mc::choose(5)]; mc::note("remove path %s", p); SM *x = walk(p, false); should = !x; if (x) { std::string q(p); size_t e = q.rfind('/'); SM *par = e == std::string::npos ? &m : walk(q.substr(0, e), false); size_t i = x - &par->kids[0]; par->kids.erase(par->kids.begin() + i); par->names.erase(par->names.begin() + i); } s.remove(p); }
      else if (op == 8) { int w = mc::choose(4); mc::note("set kind %d", w); m = SM(); if (w == 0) s.reset(); else if (w == 1) { m.k = 1; s.set(DataType::OBJECT_ID); } else if (w == 2) { m.k = 2; s.set(DataType::LIST_ID); } else { m = leaf(2, 1, 0, 0, 0); s.set(DataType::int32()); s.set(s.dtype()); } }
      else { const char *p = P[mc::choose(5)]; mc::note("lookup %s", p); SM *x = walk(p, false); MC_CHECK(s.has_path(p) == (x != nullptr), "has-path", "has_path('%s') is wrong", p); should = !x; const Schema &r = ((const Schema &)s).fetch_existing(p); MC_CHECK(&r == &s.fetch_existing(p) && &r == &s[p], "fetch", "fetch_existing and [] differ"); if (std::string(p).size() > 1) MC_CHECK(&s.fetch_existing(std::string(p).substr(0, std::string(p).find('/')) + "/../" + p) == &r, "dotdot", "'..' does not lead back"); }
    } catch (conduit::Error &) { threw = true; }
    MC_CHECK(threw == should, "error", "operation %d %s", op, threw ? "reported an error it should not" : "did not report an error");
    must(s, m, "ops");
    mc::transition();
  }
  mc::observe(mc::hash_str(m.str())); mc::outcome("history");
}
int main(int argc, char **argv) {
  cn::init();
  snprintf(g_dir, sizeof g_dir, "/tmp/c09.%d", (int)getpid()); mkdir(g_dir, 0700);
  mc::Opt o; o.shard_depth = 3; o.leaks = true;
  int rc = mc::main_(argc, argv, "C09",
    {{"leaves", leaves, o, "11 types, 0-3 elements, 3 offsets, 4 strides, 3 byte orders, in 3 places; JSON, YAML, file, copy, compact, sizes"},
     {"trees", trees, o, "all schemas of depth 2 and width 2 over 3 (8) atoms and 2 (3) names"},
     {"names", names, o, "objects of up to 3 children over 7 unusual names"},
     {"leaf_pairs", leaf_pairs, o, "all ordered pairs of 96 leaves: equality, symmetry, compatibility"},
     {"wide_pairs", wide_pairs, o, "all ordered pairs of objects and lists of up to 2 (3) children over 4 atoms and 3 names, any order"},
     {"deep_pairs", deep_pairs, o, "all ordered pairs of chains of depth 2"},
     {"nested_pairs", nested_pairs, o, "nested objects against names with a slash"},
     {"generate", generate, o, "node trees generated from schema text and data, copied and external, JSON and YAML, explicit layouts"},
     {"shorthand", shorthand, o, "the same with type names, lengths and list_of; offsets implied by order"},
     {"ops", ops, o, "all sequences of 3 (4) schema edits against a reference schema"}},
    {"a child named dtype is not explored: it makes an object look like a leaf", "YAML text of empty schemas is not explored: YAML does not write them"});
  rmdir(g_dir);
  return rc;
}
