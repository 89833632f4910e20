// C14: the C interface has the effect and result of the C++ operation each function names.
#include "gen.hpp"
#include "scratch.hpp"
#include "conduit.h"
#include "conduit_cpp_to_c.hpp"
using namespace gen;
using conduit::Endianness;
static conduit_node *C(Node &n) { return conduit::c_node(&n); }
static Node &P(conduit_node *n) { return *(Node *)n; }
// every byte and layout field of a tree
static void full(const Node &n, std::string &o) {
  const DataType &d = n.dtype();
  o += mc::fmt("%ld/%ld/%ld/%ld/%ld/%ld/%d:", (long)d.id(), (long)d.number_of_elements(), (long)d.offset(), (long)d.stride(), (long)d.element_bytes(), (long)d.endianness(), (int)n.is_data_external());
  for (index_t i = 0; i < n.number_of_children(); i++) { o += d.is_object() ? n.schema().child_name(i) + "=" : "-"; full(n.child(i), o); }
  if (!n.number_of_children() && !d.is_empty() && !d.is_object() && !d.is_list() && n.data_ptr()) for (index_t i = 0; i < d.number_of_elements(); i++) for (index_t b = 0; b < d.element_bytes(); b++) o += mc::fmt("%02x", ((const unsigned char *)n.data_ptr())[d.offset() + i * d.stride() + b]);
  o += ";";
}
static std::string full(const Node &n) { std::string s; full(n, s); return s; }
struct Ops {
  const char *name; index_t id; int eb;
  void (*set)(conduit_node *, void *); void (*set_path)(conduit_node *, const char *, void *);
  void (*ptr)(conduit_node *, void *, index_t); void (*ptr_d)(conduit_node *, void *, index_t, index_t, index_t, index_t, index_t);
  void (*pptr)(conduit_node *, const char *, void *, index_t); void (*pptr_d)(conduit_node *, const char *, void *, index_t, index_t, index_t, index_t, index_t);
  void (*eptr)(conduit_node *, void *, index_t); void (*eptr_d)(conduit_node *, void *, index_t, index_t, index_t, index_t, index_t);
  void (*peptr)(conduit_node *, const char *, void *, index_t); void (*peptr_d)(conduit_node *, const char *, void *, index_t, index_t, index_t, index_t, index_t);
  void (*as)(conduit_node *, void *); void (*fas)(conduit_node *, const char *, void *); void *(*asp)(conduit_node *); void *(*fasp)(conduit_node *, const char *);
  // the C++ operations named
  void (*xset)(Node &, void *); void (*xptr)(Node &, void *, index_t, index_t, index_t, index_t, index_t); void (*xeptr)(Node &, void *, index_t, index_t, index_t, index_t, index_t);
};
#define OPS(N, T, ID) OPSX(N, T, T, ID)
#define OPSX(N, T, U, ID) {#N, ID, (int)sizeof(T), \
  [](conduit_node *n, void *v) { conduit_node_set_##N(n, *(T *)v); }, [](conduit_node *n, const char *p, void *v) { conduit_node_set_path_##N(n, p, *(T *)v); }, \
  [](conduit_node *n, void *v, index_t k) { conduit_node_set_##N##_ptr(n, (T *)v, k); }, [](conduit_node *n, void *v, index_t k, index_t o, index_t s, index_t e, index_t en) { conduit_node_set_##N##_ptr_detailed(n, (T *)v, k, o, s, e, en); }, \
  [](conduit_node *n, const char *p, void *v, index_t k) { conduit_node_set_path_##N##_ptr(n, p, (T *)v, k); }, [](conduit_node *n, const char *p, void *v, index_t k, index_t o, index_t s, index_t e, index_t en) { conduit_node_set_path_##N##_ptr_detailed(n, p, (T *)v, k, o, s, e, en); }, \
  [](conduit_node *n, void *v, index_t k) { conduit_node_set_external_##N##_ptr(n, (T *)v, k); }, [](conduit_node *n, void *v, index_t k, index_t o, index_t s, index_t e, index_t en) { conduit_node_set_external_##N##_ptr_detailed(n, (T *)v, k, o, s, e, en); }, \
  [](conduit_node *n, const char *p, void *v, index_t k) { conduit_node_set_path_external_##N##_ptr(n, p, (T *)v, k); }, [](conduit_node *n, const char *p, void *v, index_t k, index_t o, index_t s, index_t e, index_t en) { conduit_node_set_path_external_##N##_ptr_detailed(n, p, (T *)v, k, o, s, e, en); }, \
  [](conduit_node *n, void *r) { *(T *)r = conduit_node_as_##N(n); }, [](conduit_node *n, const char *p, void *r) { *(T *)r = conduit_node_fetch_path_as_##N(n, p); }, \
  [](conduit_node *n) { return (void *)conduit_node_as_##N##_ptr(n); }, [](conduit_node *n, const char *p) { return (void *)conduit_node_fetch_path_as_##N##_ptr(n, p); }, \
  [](Node &n, void *v) { n.set(*(U *)v); }, [](Node &n, void *v, index_t k, index_t o, index_t s, index_t e, index_t en) { n.set((U *)v, k, o, s, e, en); }, [](Node &n, void *v, index_t k, index_t o, index_t s, index_t e, index_t en) { n.set_external((U *)v, k, o, s, e, en); }}
static const Ops OP[] = {
  OPS(int8, conduit_int8, DataType::INT8_ID), OPS(int16, conduit_int16, DataType::INT16_ID), OPS(int32, conduit_int32, DataType::INT32_ID), OPS(int64, conduit_int64, DataType::INT64_ID),
  OPS(uint8, conduit_uint8, DataType::UINT8_ID), OPS(uint16, conduit_uint16, DataType::UINT16_ID), OPS(uint32, conduit_uint32, DataType::UINT32_ID), OPS(uint64, conduit_uint64, DataType::UINT64_ID),
  OPS(float32, conduit_float32, DataType::FLOAT32_ID), OPS(float64, conduit_float64, DataType::FLOAT64_ID),
  OPSX(char, char, signed char, DataType::INT8_ID), OPS(short, short, DataType::INT16_ID), OPS(int, int, DataType::INT32_ID), OPS(long, long, DataType::INT64_ID),
  OPS(signed_char, signed char, DataType::INT8_ID), OPS(signed_short, signed short, DataType::INT16_ID), OPS(signed_int, signed int, DataType::INT32_ID), OPS(signed_long, signed long, DataType::INT64_ID),
  OPS(unsigned_char, unsigned char, DataType::UINT8_ID), OPS(unsigned_short, unsigned short, DataType::UINT16_ID), OPS(unsigned_int, unsigned int, DataType::UINT32_ID), OPS(unsigned_long, unsigned long, DataType::UINT64_ID),
  OPS(float, float, DataType::FLOAT32_ID), OPS(double, double, DataType::FLOAT64_ID)};
static const int NOP = sizeof OP / sizeof *OP;
static const char *PATHS[] = {"a", "a/b", "x/y/z", "l"};
// destination before the call: nothing, a leaf, an object holding the path already, a list
static void pre(Node &n, int k, const char *path) {
  if (k == 1) n.set((conduit::int16)7);
  if (k == 2) { n["keep"].set_string("k"); if (path) n[path].set((conduit::float64)2.5); }
  if (k == 3) { n.append().set((conduit::int8)1); n.append(); }
}
static std::string bytes_of(const Ops &o, int salt, int len) { // element bytes: every float pattern finite and distinct per element
  std::string b(len, 0);
  for (int i = 0; i < len; i++) b[i] = (char)(i * 29 + salt * 53 + 3);
  if (o.id == DataType::FLOAT32_ID || o.id == DataType::FLOAT64_ID) for (int i = o.eb - 1; i < len; i += o.eb) b[i] = (char)(0x40 | ((i + salt) & 0x0f));
  return b;
}
static void typed() {
  const Ops &o = OP[mc::choose(NOP)];
  bool by_path = mc::flip(), ext = mc::flip(), det = mc::flip(); const char *path = by_path ? PATHS[mc::choose(3)] : nullptr;
  int p = mc::choose(4); if (by_path && p == 3) return;
  int cnt = mc::choose(4), off = 0, str = o.eb; index_t en = Endianness::DEFAULT_ID;
  if (det) { off = mc::choose(3) * o.eb + (mc::flip() ? 1 : 0); str = o.eb * (1 + mc::choose(3)) + (mc::flip() ? 1 : 0); index_t E[] = {Endianness::DEFAULT_ID, Endianness::LITTLE_ID, Endianness::BIG_ID}; en = E[mc::choose(3)]; }
  int salt = mc::choose(2), span = off + (cnt ? (cnt - 1) * str + o.eb : 0) + 1;
  std::string mem = bytes_of(o, salt, span), before = mem; void *d = &mem[0];
  Node a, b; pre(a, p, path); pre(b, p, path);
  std::string whats = mc::fmt("%s %s%s%s cnt %d off %d str %d endian %d over %d", o.name, by_path ? path : "", ext ? " external" : "", det ? " detailed" : "", cnt, off, str, (int)en, p); const char *what = whats.c_str(); mc::note("%s", what);
  if (by_path) { if (ext) det ? o.peptr_d(C(a), path, d, cnt, off, str, o.eb, en) : o.peptr(C(a), path, d, cnt); else det ? o.pptr_d(C(a), path, d, cnt, off, str, o.eb, en) : o.pptr(C(a), path, d, cnt); }
  else { if (ext) det ? o.eptr_d(C(a), d, cnt, off, str, o.eb, en) : o.eptr(C(a), d, cnt); else det ? o.ptr_d(C(a), d, cnt, off, str, o.eb, en) : o.ptr(C(a), d, cnt); }
  Node &t = by_path ? b[path] : b; ext ? o.xeptr(t, d, cnt, off, str, o.eb, en) : o.xptr(t, d, cnt, off, str, o.eb, en);
  mc::transition(); mc::observe(mc::hash_str(full(a)));
  MC_CHECK(full(a) == full(b), "effect", "the C call leaves another tree than the C++ operation (%s): %s, C++ %s", what, full(a).c_str(), full(b).c_str());
  Node &l = by_path ? a.fetch_existing(path) : a;
  // and our own reading of what the call must do
  // (setting a shorter array over a leaf of the same type keeps its length: the documented rule for compatible leaves)
  bool kept = !ext && !cnt && ((!by_path && p == 1 && o.id == DataType::INT16_ID) || (by_path && p == 2 && o.id == DataType::FLOAT64_ID));
  MC_CHECK(l.dtype().id() == o.id && l.dtype().number_of_elements() == (kept ? 1 : cnt) && l.dtype().element_bytes() == o.eb, "type", "the leaf is %s x %ld (%s)", l.dtype().name().c_str(), (long)l.dtype().number_of_elements(), what);
  MC_CHECK(mem == before, "source", "the caller's memory was changed (%s)", what);
  if (ext) MC_CHECK(l.data_ptr() == d && l.dtype().offset() == off && l.dtype().stride() == str, "alias", "the leaf does not use the caller's memory as described (%s)", what);
  for (int i = 0; i < cnt; i++) MC_CHECK(!memcmp((char *)l.data_ptr() + l.dtype().offset() + i * l.dtype().stride(), &mem[off + i * str], o.eb), "value", "element %d is not the one given (%s)", i, what);
  MC_CHECK(conduit_node_is_data_external(C(l)) == (ext ? 1 : 0), "external", "is_data_external is wrong (%s)", what);
  if (!cnt) return;
  // reading back
  char r[8];
  o.as(C(l), r); MC_CHECK(!memcmp(r, &mem[off], o.eb), "as", "as_%s returns another value (%s)", o.name, what);
  MC_CHECK(o.asp(C(l)) == l.element_ptr(0), "as-ptr", "as_%s_ptr returns another address (%s)", o.name, what);
  if (by_path) {
    o.fas(C(a), path, r); MC_CHECK(!memcmp(r, &mem[off], o.eb), "fetch-as", "fetch_path_as_%s returns another value (%s)", o.name, what);
    MC_CHECK(o.fasp(C(a), path) == l.element_ptr(0), "fetch-as-ptr", "fetch_path_as_%s_ptr returns another address (%s)", o.name, what);
    MC_CHECK(conduit_node_fetch_path_data_ptr(C(a), path) == l.data_ptr(), "fetch-data", "fetch_path_data_ptr");
    for (int i = 0; i < cnt; i++) MC_CHECK(conduit_node_fetch_path_element_ptr(C(a), path, i) == l.element_ptr(i), "fetch-elem", "fetch_path_element_ptr(%d)", i);
  }
  MC_CHECK(conduit_node_data_ptr(C(l)) == l.data_ptr(), "data_ptr", "data_ptr");
  for (int i = 0; i < cnt; i++) MC_CHECK(conduit_node_element_ptr(C(l), i) == (char *)l.data_ptr() + l.dtype().offset() + i * l.dtype().stride(), "element_ptr", "element_ptr(%d)", i);
  if (!det || (cnt == 2 && salt == 0 && p == 0)) for (int i = 0; i < NOP; i++) if (OP[i].id != o.id) { // another type is refused: a warning and zero, as in C++
    memset(r, 1, 8); OP[i].as(C(l), r); static const char Z[8] = {0}; MC_CHECK(!memcmp(r, Z, OP[i].eb), "as-other", "as_%s of a %s leaf is not refused", OP[i].name, o.name);
    MC_CHECK(OP[i].asp(C(l)) == nullptr, "asp-other", "as_%s_ptr of a %s leaf is not refused", OP[i].name, o.name);
    if (by_path) { memset(r, 1, 8); OP[i].fas(C(a), path, r); MC_CHECK(!memcmp(r, Z, OP[i].eb), "fas-other", "fetch_path_as_%s of a %s leaf is not refused", OP[i].name, o.name);
      MC_CHECK(OP[i].fasp(C(a), path) == nullptr, "fasp-other", "fetch_path_as_%s_ptr of a %s leaf is not refused", OP[i].name, o.name); }
  }
}
static void scalars() {
  const Ops &o = OP[mc::choose(NOP)]; bool by_path = mc::flip(); const char *path = by_path ? PATHS[mc::choose(3)] : nullptr; int p = mc::choose(4); if (by_path && p == 3) return;
  int salt = mc::choose(4); alignas(8) char v[8]; // boundary patterns: zero, minimum, maximum / -1, arbitrary
  bool fl = o.id == DataType::FLOAT32_ID || o.id == DataType::FLOAT64_ID;
  if (salt == 0) memset(v, 0, 8);
  else if (salt == 1) { memset(v, 0, 8); v[o.eb - 1] = (char)0x80; }
  else if (salt == 2) { memset(v, 0xff, 8); if (fl) v[o.eb - 1] = 0x7e; }
  else { std::string s = bytes_of(o, 1, 8); memcpy(v, s.data(), 8); }
  Node a, b; pre(a, p, path); pre(b, p, path);
  by_path ? o.set_path(C(a), path, v) : o.set(C(a), v); o.xset(by_path ? b[path] : b, v);
  mc::transition(); mc::observe(mc::hash_str(full(a)));
  MC_CHECK(full(a) == full(b), "scalar", "set%s_%s: %s, C++ %s", by_path ? "_path" : "", o.name, full(a).c_str(), full(b).c_str());
  Node &l = by_path ? a.fetch_existing(path) : a;
  MC_CHECK(l.dtype().id() == o.id && !memcmp(l.data_ptr(), v, o.eb), "scalar-value", "set%s_%s stores another value", by_path ? "_path" : "", o.name);
  char r[8]; o.as(C(l), r); MC_CHECK(!memcmp(r, v, o.eb), "scalar-as", "as_%s", o.name);
  if (by_path) { o.fas(C(a), path, r); MC_CHECK(!memcmp(r, v, o.eb), "scalar-fas", "fetch_path_as_%s", o.name); }
}
static void strings() {
  static const char *S[] = {"", "a", "hello", "a b/c", "\xc3\xa9\x01\xff"};
  const char *s0 = S[mc::choose(5)]; int how = mc::choose(4), p = mc::choose(4); bool bp = how == 1 || how == 3; const char *path = bp ? PATHS[mc::choose(3)] : nullptr; if (bp && p == 3) return;
  std::string mem = s0; mem += '\0'; char *s = &mem[0];
  Node a, b; pre(a, p, path); pre(b, p, path); Node &t = bp ? b[path] : b;
  switch (how) { case 0: conduit_node_set_char8_str(C(a), s); t.set_char8_str(s); break; case 1: conduit_node_set_path_char8_str(C(a), path, s); t.set_char8_str(s); break;
    case 2: conduit_node_set_external_char8_str(C(a), s); t.set_external_char8_str(s); break; case 3: conduit_node_set_path_external_char8_str(C(a), path, s); t.set_external_char8_str(s); break; }
  MC_CHECK(full(a) == full(b), "string", "string setter %d leaves %s, C++ %s", how, full(a).c_str(), full(b).c_str());
  Node &l = bp ? a.fetch_existing(path) : a; char *g = conduit_node_as_char8_str(C(l));
  MC_CHECK(!strcmp(g, s0) && g == (char *)l.data_ptr(), "string-value", "as_char8_str gives '%s'", g);
  MC_CHECK((g == s) == (how >= 2), "string-alias", "as_char8_str is%s the caller's memory", g == s ? "" : " not");
  if (bp) MC_CHECK(conduit_node_fetch_path_as_char8_str(C(a), path) == g, "string-fetch", "fetch_path_as_char8_str gives another address");
  mc::transition(); mc::observe(mc::hash_str(full(a)));
}
// ------------------------------------------------ every operation on a pair of trees
static const char *NM[] = {"a", "b", "c"};
static void tree(Node &n, int k) {
  switch (k) {
  case 0: break;
  case 1: n.set((conduit::int64)-5); break;
  case 2: n["a"].set((conduit::float64)1.5); n["b/c"].set_string("s"); break;
  case 3: n.append().set((conduit::uint8)3); n.append()["a"].set((conduit::int32)4); n.append(); break;
  case 4: n["a/b/c"].set(DataType::int16(3)); n["a/b/c"].as_int16_ptr()[1] = 9; n["c"]; break;
  case 5: n["b"].set((conduit::int32)1); n["a"].append().set((conduit::int8)2); break;
  }
}
static const int NTREE = 6;
static std::string take(char *s) { std::string r = s; free(s); return r; }
// compare queries of the C interface with the C++ ones at every node of a tree
static void queries(Node &n, Node &root) {
  conduit_node *c = C(n); const DataType &d = n.dtype(); const conduit_datatype *cd = conduit_node_dtype(c);
#define Q(X, Y) MC_CHECK((long)(X) == (long)(Y), #X, "%s is %ld, C++ gives %ld", #X, (long)(X), (long)(Y))
  Q(conduit_node_number_of_children(c), n.number_of_children()); Q(conduit_node_number_of_elements(c), d.number_of_elements());
  Q(conduit_node_is_root(c), n.is_root()); Q(conduit_node_is_data_external(c), n.is_data_external()); Q(conduit_node_parent(c), C(*n.parent()));
  Q(conduit_node_total_strided_bytes(c), n.total_strided_bytes()); Q(conduit_node_total_bytes_compact(c), n.total_bytes_compact()); Q(conduit_node_total_bytes_allocated(c), n.total_bytes_allocated());
  Q(conduit_node_is_compact(c), n.is_compact()); Q(conduit_node_is_contiguous(c), n.is_contiguous());
  Q(cd, (const conduit_datatype *)&d);
  Q(conduit_datatype_sizeof_index_t(), sizeof(index_t)); Q(conduit_datatype_id(cd), d.id()); Q(conduit_datatype_number_of_elements(cd), d.number_of_elements()); Q(conduit_datatype_offset(cd), d.offset()); Q(conduit_datatype_stride(cd), d.stride());
  Q(conduit_datatype_element_bytes(cd), d.element_bytes()); Q(conduit_datatype_endianness(cd), d.endianness()); for (int i = 0; i < 3; i++) Q(conduit_datatype_element_index(cd, i), d.element_index(i));
  char *nm = conduit_datatype_name(cd); MC_CHECK(d.name() == nm, "dtype_name", "datatype_name is %s", nm); conduit_datatype_name_destroy(nm);
#define K(X) Q(conduit_datatype_##X(cd), d.X());
  K(is_empty) K(is_object) K(is_list) K(is_number) K(is_floating_point) K(is_integer) K(is_signed_integer) K(is_unsigned_integer) K(is_int8) K(is_int16) K(is_int32) K(is_int64) K(is_uint8) K(is_uint16) K(is_uint32) K(is_uint64) K(is_float32) K(is_float64)
  K(is_char) K(is_short) K(is_int) K(is_long) K(is_unsigned_char) K(is_unsigned_short) K(is_unsigned_int) K(is_unsigned_long) K(is_float) K(is_double) K(is_string) K(is_char8_str) K(is_little_endian) K(is_big_endian) K(endianness_matches_machine)
  MC_CHECK(take(conduit_node_name(c)) == n.name(), "name", "name"); MC_CHECK(take(conduit_node_path(c)) == n.path(), "path", "path");
#define TXT(F) { std::string x = take(conduit_node_##F(c)), y = n.F(); MC_CHECK(x == y, #F, #F " gives %s, C++ %s", x.c_str(), y.c_str()); }
  TXT(to_json) TXT(to_yaml) TXT(to_string) TXT(to_summary_string)
  Node o; o["indent"] = 3; o["depth"] = 1; o["pad"] = "_"; o["eoe"] = "|"; o["protocol"] = "json"; o["num_children_threshold"] = 1; o["num_elements_threshold"] = 2;
#define TXO(F) { std::string x = take(conduit_node_##F##_with_options(c, C(o))), y = n.F(o); MC_CHECK(x == y, #F "_opts", #F " with options gives %s, C++ %s", x.c_str(), y.c_str()); }
  TXO(to_json) TXO(to_string) TXO(to_summary_string) o["protocol"] = "yaml"; TXO(to_yaml)
  for (auto s : NM) { Q(conduit_node_has_child(c, s), n.has_child(s)); std::string p = std::string(s) + "/b"; Q(conduit_node_has_path(c, s), n.has_path(s)); Q(conduit_node_has_path(c, p.c_str()), n.has_path(p));
    bool h = n.has_child(s); MC_CHECK(cn::throws([&] { conduit_node_child_by_name(c, s); }) == !h, "child-err", "child_by_name of a missing name is not reported"); if (h) { Q(conduit_node_child_by_name(c, s), C(n.child(s))); Q(conduit_node_fetch_existing(c, s), C(n[s])); Q(conduit_node_fetch(c, s), C(n[s])); }
    else MC_CHECK(cn::throws([&] { conduit_node_fetch_existing(c, s); }), "fetch-err", "fetch_existing of a missing path is not reported"); }
  Node i1, i2; conduit_node_info(c, C(i1)); n.info(i2); MC_CHECK(full(i1) == full(i2), "info", "info differs");
  Node c1, c2; conduit_node_compact_to(c, C(c1)); n.compact_to(c2); MC_CHECK(full(c1) == full(c2), "compact", "compact_to differs");
  for (index_t i = 0; i < n.number_of_children(); i++) { Q(conduit_node_child(c, i), C(n.child(i))); conduit_node_destroy(C(n.child(i))); queries(n.child(i), root); } // destroying a child handle leaves the tree alone
}
static void inspect() {
  Node n; int k = mc::choose(NTREE + 4); std::string mem(64, 0); for (int i = 0; i < 64; i++) mem[i] = (char)i;
  if (k < NTREE) tree(n, k); else { n["a"].set((conduit::uint16)1); n["b"].set_external(DataType(TYPE_IDS[mc::choose(10)], k - NTREE, 8, 16, 8, k & 1 ? Endianness::BIG_ID : Endianness::DEFAULT_ID), &mem[0]);
    index_t eb = DataType::default_bytes(n["b"].dtype().id()); index_t id = n["b"].dtype().id(); n["b"].set_external(DataType(id, k - NTREE, eb, eb * 2, eb, k & 1 ? Endianness::BIG_ID : Endianness::DEFAULT_ID), &mem[0]); }
  std::string f = full(n); queries(n, n); mc::transition(); mc::observe(mc::hash_str(f)); MC_CHECK(full(n) == f, "query-effect", "a query changed the tree");
}
static void pairs() { // two trees, one operation, twins
  int x = mc::choose(NTREE), y = mc::choose(NTREE), op = mc::choose(16);
  Node a, b, a2, b2; tree(a, x); tree(b, y); tree(a2, x); tree(b2, y);
  conduit_node *ca = C(a), *cb = C(b); bool ta = false, tb = false; long ra = 0, rb = 0; Node ia, ib; double eps = mc::flip() ? 1e-12 : 2.0;
  auto both = [&](std::function<long()> f, std::function<long()> g) { ta = cn::throws([&] { ra = f(); }); tb = cn::throws([&] { rb = g(); }); };
  switch (op) {
  case 0: both([&] { conduit_node_set_node(ca, cb); return 0; }, [&] { a2.set(b2); return 0; }); break;
  case 1: both([&] { conduit_node_set_path_node(ca, "a/n", cb); return 0; }, [&] { a2["a/n"].set(b2); return 0; }); break;
  case 2: both([&] { conduit_node_set_external_node(ca, cb); return 0; }, [&] { a2.set_external(b2); return 0; }); break;
  case 3: both([&] { conduit_node_set_path_external_node(ca, "a/n", cb); return 0; }, [&] { a2["a/n"].set_external(b2); return 0; }); break;
  case 4: both([&] { conduit_node_update(ca, cb); return 0; }, [&] { a2.update(b2); return 0; }); break;
  case 5: both([&] { conduit_node_update_compatible(ca, cb); return 0; }, [&] { a2.update_compatible(b2); return 0; }); break;
  case 6: both([&] { conduit_node_update_external(ca, cb); return 0; }, [&] { a2.update_external(b2); return 0; }); break;
  case 7: both([&] { conduit_node_move(ca, cb); return 0; }, [&] { a2.move(b2); return 0; }); break;
  case 8: both([&] { conduit_node_swap(ca, cb); return 0; }, [&] { a2.swap(b2); return 0; }); break;
  case 9: both([&] { return conduit_node_diff(ca, cb, C(ia), eps); }, [&] { return (long)a2.diff(b2, ib, eps); }); break;
  case 10: both([&] { return conduit_node_diff_compatible(ca, cb, C(ia), eps); }, [&] { return (long)a2.diff_compatible(b2, ib, eps); }); break;
  case 11: both([&] { return conduit_node_compatible(ca, cb); }, [&] { return (long)a2.compatible(b2); }); break;
  case 12: both([&] { return conduit_node_contiguous_with_node(ca, cb); }, [&] { return (long)a2.contiguous_with(b2); }); break;
  case 13: both([&] { conduit_node_compact_to(ca, cb); return 0; }, [&] { a2.compact_to(b2); return 0; }); break;
  case 14: both([&] { conduit_node_info(ca, cb); return 0; }, [&] { a2.info(b2); return 0; }); break;
  case 15: both([&] { conduit_node_reset(ca); return 0; }, [&] { a2.reset(); return 0; }); break;
  }
  mc::transition(); mc::observe(mc::hash_str(full(a)) ^ op);
  MC_CHECK(ta == tb, "pair-err", "operation %d %s, the C++ one %s", op, ta ? "fails" : "succeeds", tb ? "fails" : "succeeds");
  if (ta) return;
  if (op == 14) for (Node *q : {&b, &b2}) if (q->has_child("mem_spaces")) q->remove("mem_spaces"); // named by address
  MC_CHECK(ra == rb, "pair-res", "operation %d returns %ld, C++ %ld", op, ra, rb);
  MC_CHECK(full(a) == full(a2) && full(b) == full(b2) && full(ia) == full(ib), "pair", "operation %d leaves %s and %s, C++ %s and %s", op, full(a).c_str(), full(b).c_str(), full(a2).c_str(), full(b2).c_str());
  if (op == 2 || op == 3 || op == 6) { // aliasing: where C++ shares memory so must C
    std::function<std::string(Node &, Node &)> al = [&](Node &m, Node &r) { std::string s; std::function<void(Node &)> w = [&](Node &q) { if (q.number_of_children()) for (index_t i = 0; i < q.number_of_children(); i++) w(q.child(i)); else { std::function<bool(Node &)> in = [&](Node &z) { if (z.data_ptr() && z.data_ptr() == q.data_ptr()) return true; for (index_t i = 0; i < z.number_of_children(); i++) if (in(z.child(i))) return true; return false; }; s += in(r) ? '1' : '0'; } }; w(m); return s; };
    MC_CHECK(al(a, b) == al(a2, b2), "pair-alias", "operation %d shares other memory than C++ does", op);
  }
}
// contiguity with an address, over external leaves laid out one after another or not
static void contig() {
  std::string mem(64, 1); int gap = mc::choose(3), n1 = 1 + mc::choose(2), n2 = 1 + mc::choose(2), probe = mc::choose(24);
  Node n; n["a"].set_external(DataType::int32(n1), &mem[0]); n["b"].set_external(DataType::int32(n2), &mem[n1 * 4 + gap]);
  for (auto *q : {&n, &n["a"], &n["b"]}) { Q(conduit_node_is_contiguous(C(*q)), q->is_contiguous()); Q(conduit_node_contiguous_with_address(C(*q), &mem[probe]), q->contiguous_with(&mem[probe]));
    for (auto *r : {&n["a"], &n["b"]}) Q(conduit_node_contiguous_with_node(C(*q), C(*r)), q->contiguous_with(*r)); }
  Q(conduit_node_contiguous_with_address(C(n["b"]), &mem[n1 * 4 + gap]), 1);
  Q(conduit_node_contiguous_with_node(C(n["b"]), C(n["a"])), gap == 0);
  mc::transition(); mc::observe(gap * 1000 + n1 * 100 + n2 * 10 + probe);
}
// histories of tree operations through the C interface, against the reference tree
static void history() {
  conduit_node *root = conduit_node_create(); struct G { conduit_node *r; ~G() { conduit_node_destroy(r); } } g{root};
  Node twin; int steps = mc::thorough() ? 4 : 3; int s0 = mc::choose(3); if (s0) { tree(P(root), s0 + 1); tree(twin, s0 + 1); }
  static const char *PP[] = {"a", "b", "a/b", "c/a"};
  for (int s = 0; s < steps; s++) {
    std::string before = full(twin); if (!mc::visit(mc::hash_str(before), steps - s)) return;
    int op = mc::choose(9); bool ta = false, tb = false; const char *p = nullptr, *q = nullptr; int i = 0;
    switch (op) {
    case 0: { p = PP[mc::choose(4)]; conduit_node *r = nullptr; ta = cn::throws([&] { r = conduit_node_fetch(root, p); }); Node *t = nullptr; tb = cn::throws([&] { t = twin.fetch_ptr(p); }); if (!ta && !tb) { MC_CHECK((r == nullptr) == (t == nullptr) && (!t || P(r).path() == t->path()), "h-fetch", "fetch gives another node"); } break; }
    case 1: { p = PP[mc::choose(4)]; ta = cn::throws([&] { conduit_node_set_path_int32(root, p, 10 + s); }); tb = cn::throws([&] { twin[p].set((conduit::int32)(10 + s)); }); break; }
    case 2: ta = cn::throws([&] { conduit_node_append(root); }); tb = cn::throws([&] { twin.append(); }); break;
    case 3: { p = mc::flip() ? "a/b" : "c"; ta = cn::throws([&] { conduit_node_add_child(root, p); }); tb = cn::throws([&] { twin.add_child(p); }); break; }
    case 4: { p = PP[mc::choose(4)]; ta = cn::throws([&] { conduit_node_remove_path(root, p); }); tb = cn::throws([&] { twin.remove(p); }); break; }
    case 5: { i = mc::choose(3); ta = cn::throws([&] { conduit_node_remove_child(root, i); }); tb = cn::throws([&] { twin.remove((index_t)i); }); break; }
    case 6: { p = mc::flip() ? "a/b" : NM[mc::choose(2)]; ta = cn::throws([&] { conduit_node_remove_child_by_name(root, p); }); tb = cn::throws([&] { twin.remove_child(p); }); break; }
    case 7: { p = NM[mc::choose(2)]; q = NM[mc::choose(3)]; ta = cn::throws([&] { conduit_node_rename_child(root, p, q); }); tb = cn::throws([&] { twin.rename_child(p, q); }); break; }
    case 8: conduit_node_reset(root); twin.reset(); break;
    }
    mc::transition();
    MC_CHECK(ta == tb, "h-err", "operation %d (%s) %s, the C++ one %s, on %s", op, p ? p : "", ta ? "fails" : "succeeds", tb ? "fails" : "succeeds", before.c_str());
    MC_CHECK(full(P(root)) == full(twin), "h-tree", "operation %d (%s) leaves %s, C++ %s", op, p ? p : "", full(P(root)).c_str(), full(twin).c_str());
    for (index_t k = 0; k < P(root).number_of_children(); k++) conduit_node_destroy(conduit_node_child(root, k));
    MC_CHECK(full(P(root)) == full(twin), "h-destroy", "destroying a handle to a child changed the tree");
  }
}
static void texts() {
  scratch::Dir dir("c14"); scratch::cur() = &dir;
  int k = mc::choose(NTREE), op = mc::choose(4); static const char *PR[] = {nullptr, "", "json", "conduit_json", "yaml", "conduit_base64_json", "conduit_bin"}; const char *pr = PR[mc::choose(7)]; int dst = mc::choose(2);
  Node src; tree(src, k); Node a, b; if (dst) { tree(a, 2); tree(b, 2); }
  bool ta = false, tb = false; std::string sp = pr ? pr : ""; std::string f1 = scratch::file("one"), f2 = scratch::file("two");
  if (op == 0) { std::string t; bool bad = cn::throws([&] { t = sp == "" || sp == "conduit_bin" ? src.to_json() : sp == "yaml" ? src.to_yaml() : src.to_json(sp); }); if (bad) return;
    ta = cn::throws([&] { conduit_node_parse(C(a), t.c_str(), pr); }); tb = cn::throws([&] { b.parse(t, sp); }); }
  else if (op == 1 || op == 2) { Node c; src.compact_to(c); std::vector<conduit::uint8> d; src.serialize(d); d.resize(d.size() + 8); std::string sch = c.schema().to_json();
    if (op == 1) { ta = cn::throws([&] { conduit_node_generate(C(a), sch.c_str(), pr, d.data()); }); tb = cn::throws([&] { b.generate(sch, sp, d.data()); }); }
    else { ta = cn::throws([&] { conduit_node_generate_external(C(a), sch.c_str(), pr, d.data()); }); tb = cn::throws([&] { b.generate_external(sch, sp, d.data()); }); }
    MC_CHECK(ta == tb && (ta || full(a) == full(b)), "generate", "generate%s gives %s, C++ %s", op == 2 ? "_external" : "", full(a).c_str(), full(b).c_str()); mc::transition(); mc::observe(mc::hash_str(full(b))); return; }
  else { ta = cn::throws([&] { conduit_node_save(C(src), f1.c_str(), pr); }); tb = cn::throws([&] { src.save(f2, sp); }); MC_CHECK(ta == tb, "save-err", "save %s, C++ %s", ta ? "fails" : "succeeds", tb ? "fails" : "succeeds");
    if (ta) return;
    MC_CHECK(scratch::slurp(f1) == scratch::slurp(f2) && scratch::exists(f1 + "_json") == scratch::exists(f2 + "_json"), "save", "save writes another file than C++");
    ta = cn::throws([&] { conduit_node_load(C(a), f1.c_str(), pr); }); tb = cn::throws([&] { b.load(f2, sp); }); }
  MC_CHECK(ta == tb && (ta || full(a) == full(b)), "text", "operation %d gives %s, C++ %s", op, full(a).c_str(), full(b).c_str());
  mc::transition(); mc::observe(mc::hash_str(full(b)));
}
static std::string lastmsg; static int lastline;
static void h1(const char *m, const char *, int l) { lastmsg = std::string("1") + m; lastline = l; }
static void h2(const char *m, const char *, int l) { lastmsg = std::string("2") + m; lastline = l; throw conduit::Error(m, "", l); }
static void handlers() { // messages reach the handler installed through C
  int which = mc::choose(3); conduit_utils_set_info_handler(h1); conduit_utils_set_warning_handler(h1); conduit_utils_set_error_handler(h2);
  lastmsg.clear(); std::string want;
  if (which == 0) { conduit::utils::handle_info("hello", "f", 42); want = "1hello"; } else if (which == 1) { conduit::utils::handle_warning("warn", "f", 42); want = "1warn"; } else { MC_CHECK(cn::throws([] { conduit::utils::handle_error("bad", "f", 42); }), "h-throw", "the error handler was not called"); want = "2bad"; }
  MC_CHECK(lastmsg == want && lastline == 42, "handler", "the handler got '%s'", lastmsg.c_str());
  conduit::utils::set_error_handler(conduit::utils::default_error_handler); cn::init(); mc::transition();
}
int main(int argc, char **argv) {
  cn::init(); mc::Opt o; o.leaks = true;
  return mc::main_(argc, argv, "C14", {{"typed", typed, o, "24 type names x {set, set_external} x {node, path} x {plain, detailed} x lengths 0-3 x offsets x strides (aligned and odd) x byte orders x four earlier contents, then every reader"},
    {"scalars", scalars, o, "24 scalar setters and path setters x boundary patterns x earlier contents"}, {"strings", strings, o, "the four string setters and their readers"},
    {"inspect", inspect, o, "every query function at every node of every tree"}, {"pairs", pairs, o, "16 two-node operations x all pairs of trees, against twins"}, {"contig", contig, o, "contiguity queries over placements and addresses"},
    {"history", history, o, "all sequences of C tree operations up to depth 3 (4 thorough) against the same C++ sequence"}, {"texts", texts, o, "parse, generate, save, load x protocols including NULL"}, {"handlers", handlers, o, "C message handlers"}},
    {"print functions write to stdout and are not captured"});
}
