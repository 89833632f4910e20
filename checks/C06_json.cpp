// C06: JSON output parses back to the same tree.
#include "plain.hpp"
using namespace gen;
using js::J; using pl::same;

// parsed leaves of the typed forms: exact types, values and lengths, compact
static void types_same(const Node &a, const Node &b) {
  MC_CHECK(a.dtype().id() == b.dtype().id() && (a.dtype().is_empty() || a.dtype().number_of_elements() == b.dtype().number_of_elements()), "typed-type", "'%s' is %s, was %s", b.path().c_str(), a.dtype().to_json().c_str(), b.dtype().to_json().c_str());
  for (index_t i = 0; i < b.number_of_children(); i++) types_same(a.child(i), b.child(i));
}
static bool has_dtype_name(const Node &n) {
  for (index_t i = 0; i < n.number_of_children(); i++) { if (n.dtype().is_object() && n.schema().child_name(i) == "dtype") return true; if (has_dtype_name(n.child(i))) return true; }
  return false;
}
static int g_fmt = 0; // output format
static std::string text(const Node &n, const std::string &proto) {
  switch (g_fmt) {
  case 0: return n.to_json(proto);
  case 1: return n.to_json(proto, 0, 0, "", "");
  case 2: return n.to_json(proto, 1, 3, "\t", "\r\n");
  case 3: { Node o; o["protocol"] = proto; o["indent"] = 3; o["depth"] = 1; return n.to_json(o); }
  default: { std::ostringstream s; n.to_json_stream(s, proto); return s.str(); }
  }
}
static void judge(const Node &n) {
  M before = value(n);
  mc::note("tree %s", before.str().c_str());
  static const char *protos[] = {"json", "conduit_json", "conduit_base64_json"};
  for (const char *p : protos) {
    std::string t;
    try { t = text(n, p); } catch (conduit::Error &e) { mc::fail(std::string("write-") + p, mc::fmt("writing %s: %s", p, e.message().substr(0, 300).c_str())); }
    mc::note("%s: %s", p, t.c_str());
    J j;
    MC_CHECK(js::parse(t, j), std::string("invalid-") + p, "the %s text is not valid JSON: %s", p, t.c_str());
    Node r; r["old"] = 1;
    try {
      if (mc::replaying() || 1) r.parse(t, p);
    } catch (conduit::Error &e) { mc::fail(std::string("parse-") + p, mc::fmt("parsing its own %s text fails: %s", p, e.message().substr(0, 400).c_str())); }
    M got = value(r);
    if (p == protos[0]) same(got, before, "");
    else {
      MC_CHECK(got == before, std::string("tree-") + p, "%s gives %s, written %s", p, got.str().c_str(), before.str().c_str());
      types_same(r, n);
    }
    // the text of the result is the text of the original: a fixed point
    if (p != protos[0]) { Node r2; r2.parse(r.to_json(p), p); MC_CHECK(value(r2) == before, std::string("twice-") + p, "a second round trip changes the tree"); }
    Node gnode; conduit::Generator g(t, p); g.walk(gnode);
    MC_CHECK(value(gnode) == got, std::string("generator-") + p, "Generator::walk and Node::parse differ");
  }
  { std::string d = n.to_json_default(); MC_CHECK(d == n.to_json(), "default", "to_json_default differs"); }
  MC_CHECK(value(n) == before, "source-changed", "writing changed the tree");
  mc::transition(); mc::observe(before.hash());
}
static void leaves() {
  Env E; Node n;
  g_fmt = mc::choose(5);
  Node *t = &n; int at = mc::choose(3);
  if (at == 1) t = &n["a"]; else if (at == 2) { n.append(); t = &n.append(); }
  int ty = mc::choose(NUM_TYPES), cnt = mc::choose(4), how = mc::choose(3), l = mc::choose(how == OWNED ? 1 : NLAYS), salt = mc::choose(9);
  make_leaf(E, *t, ty, cnt, (How)how, LAYS[l], salt);
  judge(n); mc::outcome("leaf");
}
static const double FV[] = {0.0, -0.0, 1.0, -1.5, 0.1, 1.0 / 3, 1e22, 1e-7, 123456789012345678.0, DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, DBL_EPSILON, 9007199254740993.0, 1e15, 1e16, 1e17, 3.4028234663852886e38, HUGE_VAL, -HUGE_VAL, NAN, 100000.0, 1234567.0, 0.30000000000000004, 2.5e-310};
static void floats() {
  Node n; g_fmt = 0;
  int nv = sizeof FV / sizeof *FV, cnt = 1 + mc::choose(2);
  bool f32 = mc::flip(), in_obj = mc::flip();
  Node &t = in_obj ? n["x"] : n;
  if (f32) { std::vector<float> v; for (int i = 0; i < cnt; i++) v.push_back((float)FV[mc::choose(nv)]); t.set(v); }
  else { std::vector<double> v; for (int i = 0; i < cnt; i++) v.push_back(FV[mc::choose(nv)]); t.set(v); }
  judge(n); mc::outcome("float");
}
static std::string word(int maxlen) {
  static const std::string A("\"\\/nu0\n\t\x01 {:}[,]'\r\b\f\x1f#\x7f" "ab");
  int n = mc::choose(maxlen + 1); std::string s;
  for (int i = 0; i < n; i++) s += A[mc::choose((int)A.size())];
  return s;
}
static void strings() {
  Node n; g_fmt = mc::choose(2);
  std::string s = word(mc::thorough() ? 4 : 3);
  int at = mc::choose(3);
  if (at == 0) n.set(s); else if (at == 1) n["k"].set(s); else { n.append().set("x"); n.append().set(s); }
  judge(n); mc::outcome("string");
}
static void names() {
  Node n; g_fmt = mc::choose(2);
  std::string s = word(mc::thorough() ? 3 : 2);
  if (s.empty()) { mc::outcome("empty name"); }
  int at = mc::choose(3);
  Node &c = at == 0 ? n.add_child(s) : at == 1 ? n["o"].add_child(s) : n.append().add_child(s);
  int v = mc::choose(4);
  if (v == 0) c.set(1); else if (v == 1) c.set("v"); else if (v == 2) c.add_child(s + "2").set(2.5); else c.set(DataType::object());
  judge(n); mc::outcome("name");
}
static void words() { // texts that could be taken for something else
  static const char *W[] = {"1", "1.5", "-2", "nan", "inf", "-inf", "NaN", "Infinity", "null", "true", "false", "0x10", "1e5", "", " 1", "1 ", "abc", "{}", "[]", "[1]", "\"q\"", "dtype", "\\u0041", "\\n", "1e400"};
  Node n; g_fmt = 0;
  int nw = sizeof W / sizeof *W, k = mc::choose(3);
  if (k == 0) { n["s"].set(W[mc::choose(nw)]); }
  else { bool list = mc::flip(); for (int i = 0; i < k; i++) { std::string w = W[mc::choose(nw)]; if (list) n["l"].append().set(w); else if (!w.empty() && w != "dtype" && !n.has_child(w)) n.add_child(w).set(w); } }
  judge(n); mc::outcome("word");
}
static void tree(Node &n, int depth, int width) {
  int k = mc::choose(depth ? 10 : 8);
  switch (k) {
  case 0: break;
  case 1: n.set((conduit::int64)-5); break;
  case 2: n.set((conduit::uint8)200); break;
  case 3: { conduit::float64 v[2] = {1.5, -2}; n.set(v, 2); break; }
  case 4: n.set("st\"r\\"); break;
  case 5: n.set(DataType::object()); break;
  case 6: n.set(DataType::list()); break;
  case 7: n.set(DataType::int32(0)); break;
  case 8: { n.set(DataType::object()); int w = 1 + mc::choose(width); static const char *nm[] = {"a", "b/c", "q\"q"}; for (int i = 0; i < w; i++) tree(n.add_child(nm[i]), depth - 1, width); break; }
  case 9: { n.set(DataType::list()); int w = 1 + mc::choose(width); for (int i = 0; i < w; i++) tree(n.append(), depth - 1, width); break; }
  }
}
static void trees() {
  Node n; g_fmt = mc::choose(mc::thorough() ? 3 : 2);
  tree(n, 2, 2);
  judge(n); mc::outcome("tree");
}
int main(int argc, char **argv) {
  cn::init();
  mc::Opt o; o.shard_depth = 3; o.leaks = true;
  return mc::main_(argc, argv, "C06",
    {{"leaves", leaves, o, "every leaf type, 0-3 elements, storage and layout, boundary values; at the root, in an object, in a list; 5 ways to write"},
     {"floats", floats, o, "26 float values incl. extremes, denormals, nan, inf; scalars and all pairs; float32 and float64"},
     {"strings", strings, o, "all strings up to length 3 (4) over 25 characters incl. quotes, backslashes and control characters"},
     {"names", names, o, "all child names up to length 2 (3) over the same alphabet, in 3 places with 4 contents"},
     {"words", words, o, "strings and names that look like numbers or JSON, alone and in all pairs"},
     {"trees", trees, o, "all trees of depth 2 and width 2 over 8 atoms; 3 ways to write"}},
    {"children named 'dtype' are not judged in the typed forms (the forms reserve that name)",
     "a list of numbers is read as an array, a one-element array as a scalar and an empty array as an empty list from plain JSON (the text does not tell them apart)"});
}
