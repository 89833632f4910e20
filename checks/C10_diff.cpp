// C10: diff / diff_compatible report a difference exactly when the trees differ, locate it, and change nothing.
#include "gen.hpp"
using namespace gen;

// ------------------------------------------------------------------ reference comparison (our own addressing)
static const char *at(const Node &n, index_t i) { const DataType &d = n.dtype(); return (const char *)n.data_ptr() + d.offset() + d.stride() * i; }
template <class T> static T get(const Node &n, index_t i) { T v; memcpy(&v, at(n, i), sizeof v); return v; }
static int tno(const Node &n) { for (int t = 0; t < NUM_TYPES; t++) if (TYPE_IDS[t] == n.dtype().id()) return t; return -1; }
static __int128 big(const Node &n, index_t i) { __int128 r = 0; with_type(tno(n), [&](auto x) { typedef decltype(x) T; r = (__int128)get<T>(n, i); }); return r; }
static std::string text(const Node &n) { std::string s; for (index_t i = 0; i < n.dtype().number_of_elements(); i++) { char c = *at(n, i); if (!c) break; s += c; } return s; }
static bool is_int(const Node &n) { int t = tno(n); return t >= 0 && t < 8; }
static bool differ(const Node &a, const Node &b, double eps, bool relax, bool compat);
static bool leaf_differ(const Node &a, const Node &b, double eps, bool relax, bool compat) {
  index_t na = a.dtype().number_of_elements(), nb = b.dtype().number_of_elements();
  if (a.dtype().id() != b.dtype().id()) {
    if (!relax || !is_int(a) || !is_int(b)) return true;
    if (compat ? na > nb : na != nb) return true;
    for (index_t i = 0; i < na; i++) if (big(a, i) != big(b, i)) return true;
    return false;
  }
  if (a.dtype().is_char8_str()) {
    if (!na != !nb) return true;
    std::string x = text(a), y = text(b);
    return compat ? y.compare(0, x.size(), x) != 0 : x != y;
  }
  if (compat ? na > nb : na != nb) return true;
  bool r = false;
  with_type(tno(a), [&](auto x) {
    typedef decltype(x) T;
    for (index_t i = 0; i < na; i++) {
      T u = get<T>(a, i), v = get<T>(b, i);
      if (!std::is_floating_point<T>::value) { if (u != v) r = true; continue; }
      bool nu = u != u, nv = v != v;
      if (nu || nv) { if (nu != nv) r = true; continue; }
      if (u == v) continue;
      T d = u - v; // the difference, in the precision of the leaves
      if (d > eps || d < -eps) r = true;
    }
  });
  return r;
}
static bool differ(const Node &a, const Node &b, double eps, bool relax, bool compat) {
  const DataType &d = a.dtype(), &e = b.dtype();
  int ka = d.is_empty() ? 0 : d.is_object() ? 1 : d.is_list() ? 2 : 3, kb = e.is_empty() ? 0 : e.is_object() ? 1 : e.is_list() ? 2 : 3;
  if (ka != kb) return true;
  if (ka == 0) return false;
  if (ka == 3) return leaf_differ(a, b, eps, relax, compat);
  if (compat ? a.number_of_children() > b.number_of_children() : a.number_of_children() != b.number_of_children()) return true;
  for (index_t i = 0; i < a.number_of_children(); i++) {
    index_t j = i;
    if (ka == 1) { for (j = 0; j < b.number_of_children() && b.schema().child_name(j) != a.schema().child_name(i); j++) { } if (j == b.number_of_children()) return true; }
    if (differ(a.child(i), b.child(j), eps, relax, compat)) return true;
  }
  return false;
}
static index_t find(const Node &n, const std::string &s) { for (index_t i = 0; i < n.number_of_children(); i++) if (n.schema().child_name(i) == s) return i; return -1; }
static std::set<std::string> list_of(const Node &info, const char *which) {
  std::set<std::string> r;
  if (!info.has_path(std::string("children/") + which)) return r;
  const Node &l = info["children"][which];
  for (index_t i = 0; i < l.number_of_children(); i++) r.insert(l.child(i).dtype().is_char8_str() ? l.child(i).as_string() : std::to_string(l.child(i).to_int64()));
  MC_CHECK((index_t)r.size() == l.number_of_children(), "report-twice", "a difference is listed twice under %s", which);
  return r;
}
// the report tells the result at every compared path and names the children only one side has
static void report(const Node &info, const Node &a, const Node &b, double eps, bool relax, bool compat, const std::string &path) {
  bool d = differ(a, b, eps, relax, compat);
  MC_CHECK(info.has_child("valid") && info["valid"].dtype().is_char8_str() && info["valid"].as_string() == (d ? "false" : "true"), "report-valid", "the report for '%s' is %s", path.c_str(), info.to_json().c_str());
  bool o = a.dtype().is_object() && b.dtype().is_object(), l = a.dtype().is_list() && b.dtype().is_list();
  if (!o && !l) {
    if (d) MC_CHECK(info.has_child("errors") && info["errors"].number_of_children() > 0, "report-errors", "no error is reported for '%s'", path.c_str());
    if (is_int(a) && a.dtype().id() == b.dtype().id() && (compat ? a.dtype().number_of_elements() <= b.dtype().number_of_elements() : a.dtype().number_of_elements() == b.dtype().number_of_elements())) {
      MC_CHECK(info.has_child("value") && info["value"].dtype().number_of_elements() == a.dtype().number_of_elements(), "report-value", "no differences per element for '%s'", path.c_str());
      for (index_t i = 0; i < a.dtype().number_of_elements(); i++) MC_CHECK((big(info["value"], i) == 0) == (big(a, i) == big(b, i)), "report-where", "element %ld of '%s' is reported wrong", (long)i, path.c_str());
    }
    return;
  }
  std::set<std::string> ex, mi, wx = list_of(info, "extra"), wm = list_of(info, "missing");
  index_t nd = 0;
  for (index_t i = 0; i < a.number_of_children(); i++) {
    index_t j = o ? find(b, a.schema().child_name(i)) : i < b.number_of_children() ? i : -1;
    std::string nm = o ? a.schema().child_name(i) : std::to_string(i);
    if (j < 0) { ex.insert(nm); continue; }
    MC_CHECK(info.has_path("children/diff"), "report-diff", "no report about the children of '%s'", path.c_str());
    const Node &D = info["children"]["diff"]; index_t k = o ? find(D, nm) : i < D.number_of_children() ? i : -1;
    MC_CHECK(k >= 0, "report-child", "no report about '%s/%s'", path.c_str(), nm.c_str());
    report(D.child(k), a.child(i), b.child(j), eps, relax, compat, path + "/" + nm); nd++;
  }
  if (nd) MC_CHECK(info["children/diff"].number_of_children() == nd, "report-child-count", "the report about '%s' has other children", path.c_str());
  if (!compat) for (index_t j = 0; j < b.number_of_children(); j++) { std::string nm = o ? b.schema().child_name(j) : std::to_string(j); if (o ? find(a, nm) < 0 : j >= a.number_of_children()) mi.insert(nm); }
  MC_CHECK(ex == wx, "report-extra", "wrong extra children reported for '%s'", path.c_str());
  MC_CHECK(mi == wm, "report-missing", "wrong missing children reported for '%s'", path.c_str());
}
static void judge(const Env &E, const Node &a, const Node &b, double eps, bool relax) {
  std::string da = cn::dump(a), db = cn::dump(b);
  mc::note("a %s", da.c_str()); mc::note("b %s", db.c_str()); mc::note("epsilon %g relaxint %d", eps, (int)relax);
  Node info; info["old/stuff"] = 1;
  for (int c = 0; c < 2; c++) {
    bool want = differ(a, b, eps, relax, c);
    bool got = c ? a.diff_compatible(b, info, eps, relax) : a.diff(b, info, eps, relax);
    MC_CHECK(got == want, c ? "compatible" : "diff", "%s reports %s, but the trees %s", c ? "diff_compatible" : "diff", got ? "a difference" : "none", want ? "differ" : "do not differ");
    MC_CHECK(!info.has_child("old"), "report-old", "the report keeps earlier content");
    report(info, a, b, eps, relax, c, "");
    bool rev = c ? b.diff_compatible(a, info, eps, relax) : b.diff(a, info, eps, relax);
    if (!c) MC_CHECK(rev == want, "symmetric", "diff is not symmetric");
    else MC_CHECK(rev == differ(b, a, eps, relax, true), "compatible-reverse", "the reverse diff_compatible reports %d", (int)rev);
    MC_CHECK(!(c ? a.diff_compatible(a, info, eps, relax) : a.diff(a, info, eps, relax)), "reflexive", "a tree differs from itself");
  }
  MC_CHECK(cn::dump(a) == da && cn::dump(b) == db && E.guards_ok(), "changed", "comparing changed an operand");
  mc::observe(mc::hash_str(da + "|" + db));
}
// ------------------------------------------------------------------ leaves
template <class T> static std::vector<T> alphabet() {
  typedef std::numeric_limits<T> L;
  if (std::is_floating_point<T>::value) {
    T e = sizeof(T) == 4 ? T(3e-7) : T(3e-12); // just beyond the default tolerance at 1
    std::vector<T> v = {T(0), T(1), T(1 + e), L::quiet_NaN(), L::infinity(), -L::infinity(), L::max()};
    if (mc::thorough()) { v.push_back(T(-0.0)); v.push_back(T(1.5)); v.push_back(T(-1)); v.push_back(T(1) + L::epsilon()); }
    return v;
  }
  std::vector<T> v = {T(0), T(1), L::max(), L::min(), T(L::max() - 1)};
  if (mc::thorough()) { v.push_back(T(L::max() / 2 + 1)); v.push_back(T(2)); }
  return v;
}
// a leaf of type t with chosen elements at byte (off + i * stride)
static void leaf(Env &E, Node &n, int t, int cnt, int lay, const std::vector<int> &vals) {
  Lay l = lay == 0 ? Lay{0, 1} : lay == 1 ? Lay{1, 1} : lay == 2 ? Lay{2, 3} : Lay{0, 2};
  int eb = t == 10 ? 1 : TYPE_BYTES[t];
  DataType d(t == 10 ? DataType::CHAR8_STR_ID : TYPE_IDS[t], cnt, l.off * eb, l.str * eb, eb, conduit::Endianness::DEFAULT_ID);
  size_t span = (size_t)(l.off + (cnt ? (cnt - 1) * l.str + 1 : 0)) * eb;
  Buf &b = E.buf(span + (t == 10 ? 0 : 8));
  for (int i = 0; i < cnt; i++) {
    size_t o = (l.off + l.str * i) * eb;
    if (t == 10) *(char *)b.at(o) = "\0ab"[vals[i]];
    else with_type(t, [&](auto x) { typedef decltype(x) T; T v = alphabet<T>()[vals[i]]; memcpy(b.at(o), &v, sizeof v); });
    for (int k = 0; k < eb; k++) b.used[o + k] = true;
  }
  if (lay == 3) { n.set(d); for (int i = 0; i < cnt; i++) memcpy(n.element_ptr(i), b.at((l.off + l.str * i) * eb), eb); if (t == 10 && !span) n.set_external(d, b.at(0)); }
  else n.set_external(d, b.at(0));
}
static const double EPS[] = {CONDUIT_EPSILON, 0.0, 0.5};
static int alpha(int t) { int r = 3; if (t < 10) with_type(t, [&](auto x) { typedef decltype(x) T; r = (int)alphabet<T>().size(); }); return r; }
static void leaves() {
  int t = mc::choose(11), la = mc::choose(4), lb = mc::choose(4), na = mc::choose(4), nb = mc::choose(4);
  int A = alpha(t), deep = t == 10 ? 3 : mc::thorough() ? 2 : 1; // elements chosen freely; the others are taken from a fixed sequence
  std::vector<int> va, vb;
  int ch = (na > deep || nb > deep) && t != 10 ? mc::choose(std::max(na, nb)) : -1; // which element is free
  int base = t == 10 ? 0 : 1;
  for (int i = 0; i < na; i++) va.push_back(ch >= 0 && i != ch ? (base + i) % 4 : mc::choose(A));
  for (int i = 0; i < nb; i++) vb.push_back(ch >= 0 && i != ch ? (base + i) % 4 : mc::choose(A));
  double eps = EPS[t == 8 || t == 9 ? mc::choose(3) : 0];
  Env E; Node a, b; leaf(E, a, t, na, la, va); leaf(E, b, t, nb, lb, vb);
  judge(E, a, b, eps, mc::flip());
}
static void mixed() { // leaves of two types, with and without relaxint
  int t = mc::choose(13), u = mc::choose(13), na = mc::choose(3), nb = mc::choose(3); bool relax = mc::flip();
  auto mk = [&](Env &E, Node &n, int t, int cnt) {
    if (t == 11) { if (cnt) { n.set(DataType::list()); for (int i = 1; i < cnt; i++) n.append() = 1; } return; }
    if (t == 12) { n.set(DataType::object()); for (int i = 0; i < cnt; i++) n[i ? "a" : "b"] = 1; return; }
    std::vector<int> v; int l = mc::choose(2) * 2;
    for (int i = 0; i < cnt; i++) v.push_back(mc::choose(t == 10 ? 3 : t >= 8 ? 2 : mc::thorough() ? 7 : 5));
    leaf(E, n, t, cnt, l, v);
  };
  Env E; Node a, b; mk(E, a, t, na); mk(E, b, u, nb);
  judge(E, a, b, EPS[0], relax);
}
// ------------------------------------------------------------------ trees
static bool g_skip;
static const char *const NAMES[] = {"a", "b", "a/b"};
static void grow(Node &n, int depth) {
  switch (mc::choose(depth > 0 ? 6 : 4)) {
  case 0: break; // empty
  case 1: n.set_int64(7); break;
  case 2: n.set_int64(8); break;
  case 3: n.set_float64(7); break;
  case 4: { n.set(DataType::object()); int c = mc::choose(3); std::set<int> used; for (int i = 0; i < c; i++) { int k = mc::choose(3); if (!used.insert(k).second) { g_skip = true; return; } grow(n.add_child(NAMES[k]), depth - 1); } break; }
  case 5: { n.set(DataType::list()); int c = mc::choose(3); for (int i = 0; i < c; i++) grow(n.append(), depth - 1); break; }
  }
}
static void trees() {
  g_skip = false; Env E; Node a, b; grow(a, 1); if (!g_skip) grow(b, 1); if (g_skip) return;
  judge(E, a, b, EPS[0], false);
}
// one tree against itself with one change at any place
static void edit(Node &n, int depth) {
  bool here = !n.number_of_children() || mc::flip();
  if (!here) { edit(n.child(mc::choose((int)n.number_of_children())), depth); return; }
  switch (mc::choose(7)) {
  case 0: break;
  case 1: n.reset(); break;
  case 2: n.set_int64(9); break;
  case 3: if (n.dtype().is_object()) n.add_child("z").set_int8(1); else if (n.dtype().is_list()) n.append().set_int8(1); else { g_skip = true; return; } break;
  case 4: if (n.number_of_children()) n.remove(mc::choose((int)n.number_of_children())); else { g_skip = true; return; } break;
  case 5: if (n.dtype().is_object() && n.number_of_children() > 1) { Node c; for (index_t i = n.number_of_children(); i-- > 0;) c.add_child(n.schema().child_name(i)).set(n.child(i)); n.move(c); } else { g_skip = true; return; } break;
  case 6: if (n.dtype().is_object() && n.number_of_children()) n.rename_child(n.schema().child_name(0), "q/r"); else if (n.number_of_children() > 1) n.child(0).swap(n.child(1)); else { g_skip = true; return; } break;
  }
}
static void base(Node &n, int depth, int &seq) {
  switch (mc::choose(depth > 0 ? 4 : 2)) {
  case 0: break;
  case 1: n.set_int64(seq++); break;
  case 2: { n.set(DataType::object()); int c = mc::choose(3); for (int i = 0; i < c; i++) base(n.add_child(NAMES[i * 2]), depth - 1, seq); break; }
  case 3: { n.set(DataType::list()); int c = mc::choose(3); for (int i = 0; i < c; i++) base(n.append(), depth - 1, seq); break; }
  }
}
static void edits() {
  g_skip = false; Env E; Node a; int seq = 1; base(a, mc::thorough() ? 3 : 2, seq);
  Node b(a); edit(b, 0); if (mc::thorough() && mc::flip() && a.number_of_children() < 2) edit(b, 0);
  if (g_skip) return;
  judge(E, a, b, EPS[0], mc::flip());
}
int main(int argc, char **argv) {
  cn::init();
  mc::Opt o; o.shard_depth = 5; o.leaks = true;
  return mc::main_(argc, argv, "C10",
    {{"leaves", leaves, o, "ordered pairs of leaves: 11 types, 0-3 elements and 4 memory layouts on each side, boundary values, nan and infinities, 3 tolerances"},
     {"mixed", mixed, o, "ordered pairs of leaves and containers of 13 kinds, 0-2 elements, with and without relaxint"},
     {"trees", trees, o, "all ordered pairs of trees of depth 1, width 2 over 4 leaves and 3 names"},
     {"edits", edits, o, "all trees of depth 2 (3), width 2 against themselves after any one (two) of 7 edits at any node"}},
    {"differences of floating point values are taken in the precision of the leaves"});
}
