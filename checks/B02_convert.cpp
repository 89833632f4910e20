// B02: coordinate set and topology conversions keep every point and cell
#include "cnode.hpp"
#include "gen.hpp"
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_mesh_utils.hpp"
#include <algorithm>
using namespace cn;
using namespace gen;
using mc::choose;
using mc::fail;
using mc::fmt;
using mc::thorough;
namespace bm = conduit::blueprint::mesh;
namespace bu = conduit::blueprint::mesh::utils;
typedef std::vector<index_t> V;
typedef std::vector<double> P;

static void ints(Node &n, const V &v, int style) {
  int cnt = (int)v.size();
  switch (style) {
  case 0: n.set(DataType::int64(cnt)); for (int i = 0; i < cnt; i++) n.as_int64_array()[i] = v[i]; break;
  case 1: n.set(DataType::int32(cnt)); for (int i = 0; i < cnt; i++) n.as_int32_array()[i] = (int)v[i]; break;
  case 2: n.set(DataType::uint8(cnt)); for (int i = 0; i < cnt; i++) n.as_uint8_array()[i] = (unsigned char)v[i]; break;
  case 3: n.set(DataType::uint64(cnt)); for (int i = 0; i < cnt; i++) n.as_uint64_array()[i] = (unsigned long)v[i]; break;
  default: {
    Schema s; s.set(DataType(DataType::INT16_ID, cnt, 2, 6, 2, conduit::Endianness::DEFAULT_ID));
    n.set(s);
    for (int i = 0; i < cnt; i++) n.as_int16_array()[i] = (short)v[i];
  } }
}
static void reals(Node &n, const P &v, int style) { // 0 double, 1 float, 2 strided double, 3 int32
  int cnt = (int)v.size();
  if (style == 0) { n.set(DataType::float64(cnt)); for (int i = 0; i < cnt; i++) n.as_float64_array()[i] = v[i]; }
  else if (style == 1) { n.set(DataType::float32(cnt)); for (int i = 0; i < cnt; i++) n.as_float32_array()[i] = (float)v[i]; }
  else if (style == 2) { Schema s; s.set(DataType(DataType::FLOAT64_ID, cnt, 8, 24, 8, conduit::Endianness::DEFAULT_ID)); n.set(s); for (int i = 0; i < cnt; i++) n.as_float64_array()[i] = v[i]; }
  else { n.set(DataType::int32(cnt)); for (int i = 0; i < cnt; i++) n.as_int32_array()[i] = (int)v[i]; }
}
static V geti(const Node &n) { V r; auto a = n.as_index_t_accessor(); for (index_t i = 0; i < a.number_of_elements(); i++) r.push_back(a[i]); return r; }
static P getd(const Node &n) { P r; auto a = n.as_float64_accessor(); for (index_t i = 0; i < a.number_of_elements(); i++) r.push_back(a[i]); return r; }
static const char *IJK[3] = {"i", "j", "k"};
struct Grid {
  int nd = 0, kind = 0; // 0 uniform 1 rectilinear 2 structured
  std::vector<std::string> ax; int np[3] = {1, 1, 1};
  std::vector<P> c; // coordinates per axis (uniform, rectilinear) or per point (structured)
  bool offset = false; V off, str; // strided structured
  std::string what;
  int npoints() const { return kind == 2 ? (int)c[0].size() : np[0] * np[1] * np[2]; }
  P point(int i) const {
    P r;
    if (kind == 2) for (int d = 0; d < nd; d++) r.push_back(c[d][i]);
    else for (int d = 0; d < nd; d++) { r.push_back(c[d][i % np[d]]); i /= np[d]; }
    return r;
  }
  int ncells() const { int n = 1; for (int d = 0; d < nd; d++) n *= np[d] - 1; return n; }
  V cell(int e) const { // corners in the protocol's order
    int ijk[3] = {0, 0, 0};
    for (int d = 0; d < nd; d++) { ijk[d] = e % (np[d] - 1); e /= np[d] - 1; }
    static const int C[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    V r;
    for (int k = 0; k < (1 << nd); k++) {
      index_t v = 0, m = 1;
      for (int d = 0; d < nd; d++) {
        index_t x = ijk[d] + C[k][d];
        if (offset) v += (off[d] + x) * str[d]; else { v += x * m; m *= np[d]; }
      }
      r.push_back(v);
    }
    return r;
  }
};
static const char *AX[4][3] = {{"x", "y", "z"}, {"z", "r", ""}, {"r", "theta", "phi"}, {"i", "j", "k"}};
static Grid grid(Node &mesh, int kind, int maxp) {
  Grid g; g.kind = kind; g.nd = 1 + choose(3);
  int sys = choose(3);
  if (sys == 1 && g.nd == 3) throw mc::Abandon();
  for (int d = 0; d < g.nd; d++) g.ax.push_back(sys == 1 && g.nd == 1 ? "r" : AX[sys][d]);
  int least = kind == 2 ? 2 : 1;
  for (int d = 0; d < g.nd; d++) g.np[d] = least + choose((g.nd == 3 && !thorough() ? 3 : maxp) - least + 1);
  Node &cs = mesh["coordsets/c"], &t = mesh["topologies/t"];
  mesh["state/domain_id"] = 3;
  t["coordset"] = "c";
  static const double ORG[3] = {-1.5, 2.25, 7.75}, SP[3] = {0.5, 1.25, -0.25};
  static const double RV[3][4] = {{-2.5, 0, 0.75, 4}, {1.25, 1.5, 3, 8}, {-9, -4.5, 1, 2.25}};
  if (kind == 0) {
    int form = choose(4), style = choose(3); // presence of origin and spacing; number types
    if (!(form & 3) && sys) throw mc::Abandon();
    cs["type"] = "uniform";
    bool rev = choose(2); // children of dims, origin and spacing in reverse order
    for (int q = 0; q < g.nd; q++) { int d = rev ? g.nd - 1 - q : q; if (style == 2) cs["dims"][IJK[d]].set_uint16((unsigned short)g.np[d]); else if (style) cs["dims"][IJK[d]].set_int32(g.np[d]); else cs["dims"][IJK[d]].set_int64(g.np[d]); }
    for (int q = 0; q < g.nd; q++) {
      int d = rev ? g.nd - 1 - q : q;
      if (form & 1) { Node &n = cs["origin"][g.ax[d]]; if (style == 0) n = ORG[d]; else if (style == 1) n = (float)ORG[d]; else n = (int)(d - 1); }
      if (form & 2) { Node &n = cs["spacing"]["d" + g.ax[d]]; if (style == 0) n = SP[d]; else if (style == 1) n = (float)SP[d]; else n = (int)(d + 2); }
    }
    if (!form) for (int d = 0; d < g.nd; d++) g.ax[d] = AX[3][d]; // without origin and spacing the axes are the logical ones
    for (int d = 0; d < g.nd; d++) {
      double o = form & 1 ? (style == 2 ? d - 1 : ORG[d]) : 0, s = form & 2 ? (style == 2 ? d + 2 : SP[d]) : 1;
      P v; for (int i = 0; i < g.np[d]; i++) v.push_back(o + s * i);
      g.c.push_back(v);
    }
    t["type"] = "uniform";
    g.what = fmt("uniform nd=%d form=%d style=%d", g.nd, form, style);
  } else if (kind == 1) {
    int style = choose(5); bool rev = choose(2);
    cs["type"] = "rectilinear"; t["type"] = "rectilinear";
    for (int d = 0; d < g.nd; d++) { P v; for (int i = 0; i < g.np[d]; i++) v.push_back(style == 3 ? (double)(2 * i * (d + 1) - 3) : RV[d][i]); g.c.push_back(v); }
    for (int q = 0; q < g.nd; q++) { int d = rev ? g.nd - 1 - q : q; reals(cs["values"][g.ax[d]], g.c[d], style == 4 ? d % 2 : style); }
    g.what = fmt("rectilinear nd=%d style=%d", g.nd, style);
  } else {
    int style = choose(4), istyle = choose(3), lay = choose(3); // lay: plain, strided with ghost points, reversed strides
    if (lay && g.nd == 1 && lay == 2) throw mc::Abandon();
    cs["type"] = "explicit"; t["type"] = "structured";
    int ext[3] = {1, 1, 1}, n = 1;
    for (int d = 0; d < g.nd; d++) { ext[d] = g.np[d] + (lay ? 2 : 0); n *= ext[d]; }
    g.offset = lay; index_t m = 1;
    g.off.assign(3, 0); g.str.assign(3, 0);
    for (int q = 0; q < g.nd; q++) { int d = lay == 2 ? g.nd - 1 - q : q; g.off[d] = d == 1 ? 2 : 1; g.str[d] = m; m *= ext[d]; }
    for (int d = 0; d < g.nd; d++) { P v; for (int i = 0; i < n; i++) v.push_back(style == 3 ? (double)(i * (d + 2)) : i * 0.5 * (d + 1) + d * 100.25); g.c.push_back(v); reals(cs["values"][g.ax[d]], v, style); }
    V dm; for (int d = 0; d < g.nd; d++) ints(t["elements/dims"][IJK[d]], {g.np[d] - 1}, istyle);
    if (lay) { ints(t["elements/dims/offsets"], V(g.off.begin(), g.off.begin() + g.nd), istyle); ints(t["elements/dims/strides"], V(g.str.begin(), g.str.begin() + g.nd), istyle); }
    g.what = fmt("structured nd=%d style=%d lay=%d", g.nd, style, lay);
  }
  for (int d = 0; d < g.nd; d++) g.what += fmt(" %s%d", g.ax[d].c_str(), g.np[d]);
  return g;
}
static void check_coords(const Grid &g, const Node &cs, const std::string &w) {
  Node info;
  if (!bm::coordset::verify(cs, info)) fail("coordset-invalid", w + ": the converted coordinate set is invalid: " + info.to_json());
  std::string type = cs["type"].as_string();
  std::vector<P> got;
  if ((int)cs["values"].number_of_children() != g.nd) fail("coordset-axes", w + ": other number of axes: " + cs.to_json());
  for (auto &a : g.ax) { if (!cs["values"].has_child(a)) fail("coordset-axes", w + ": axis " + a + " is missing: " + cs.to_json()); got.push_back(getd(cs["values"][a])); }
  if (type == "rectilinear") {
    for (int d = 0; d < g.nd; d++) if (got[d] != g.c[d]) fail("rectilinear-values", w + ": axis " + g.ax[d] + " differs: " + cs.to_json());
  } else if (type == "explicit") {
    for (int d = 0; d < g.nd; d++) {
      if ((int)got[d].size() != g.npoints()) fail("explicit-count", w + fmt(": %d points instead of %d", (int)got[d].size(), g.npoints()));
      for (int i = 0; i < g.npoints(); i++) if (got[d][i] != g.point(i)[d]) fail("explicit-values", w + fmt(": point %d axis %d is %g instead of %g", i, d, got[d][i], g.point(i)[d]));
    }
  } else fail("coordset-type", w + ": type " + type);
}
static void check_queries(const Grid &g, const Node &cs, const Node &t, const std::string &w) {
  if (bm::coordset::dims(cs) != g.nd) fail("coordset-dims", w + fmt(": coordset dims %d", (int)bm::coordset::dims(cs)));
  if (bm::coordset::length(cs) != g.npoints()) fail("coordset-length", w + fmt(": coordset length %d", (int)bm::coordset::length(cs)));
  if (bm::topology::dims(t) != g.nd) fail("topology-dims", w + fmt(": topology dims %d", (int)bm::topology::dims(t)));
  if (g.ncells() && bm::topology::length(t) != g.ncells()) fail("topology-length", w + fmt(": topology length %d instead of %d", (int)bm::topology::length(t), g.ncells()));
  auto ex = bu::coordset::extents(cs);
  for (int d = 0; d < g.nd; d++) {
    double lo = 1e99, hi = -1e99;
    for (int i = 0; i < g.npoints(); i++) { lo = std::min(lo, g.point(i)[d]); hi = std::max(hi, g.point(i)[d]); }
    if (ex[2 * d] != lo || ex[2 * d + 1] != hi) fail("extents", w + fmt(": extents of axis %d are %g..%g instead of %g..%g", d, ex[2 * d], ex[2 * d + 1], lo, hi));
  }
}
static void check_topo(const Grid &g, const Node &mesh, const Node &t, const Node &cs, const std::string &csname, const std::string &w) {
  if (t["coordset"].as_string() != csname) fail("topo-coordset", w + ": the topology refers to " + t["coordset"].as_string());
  std::string type = t["type"].as_string();
  if (type == "structured") {
    for (int d = 0; d < g.nd; d++) if (t["elements/dims"][IJK[d]].to_int64() != g.np[d] - 1) fail("structured-dims", w + ": " + t.to_json());
  } else if (type == "unstructured") {
    static const char *S[3] = {"line", "quad", "hex"};
    if (t["elements/shape"].as_string() != S[g.nd - 1]) fail("shape", w + ": shape " + t["elements/shape"].as_string());
    V c = geti(t["elements/connectivity"]); size_t k = (size_t)1 << g.nd;
    if (c.size() != k * g.ncells()) fail("cells", w + fmt(": %d connectivity entries for %d cells", (int)c.size(), g.ncells()));
    for (int e = 0; e < g.ncells(); e++) { V want = g.cell(e), got(c.begin() + e * k, c.begin() + (e + 1) * k); if (want != got) fail("connectivity", w + fmt(": cell %d has other vertices: ", e) + t.to_json()); }
  } else if (type != "rectilinear") fail("topo-type", w + ": type " + type);
  check_queries(g, cs, t, w + " -> " + type);
}
static std::set<V> sorted_faces(const std::vector<V> &f) { std::set<V> r; for (V x : f) { std::sort(x.begin(), x.end()); r.insert(x); } return r; }
static void grids(int kind, int maxp) {
  Node mesh; Grid g = grid(mesh, kind, maxp);
  std::string before = dump(mesh);
  Node info;
  bool ok = bm::verify(mesh, info);
  if (!ok) fail("source-invalid", "the source mesh is rejected: " + mesh.to_json() + info.to_json());
  std::string w = g.what;
  check_queries(g, mesh["coordsets/c"], mesh["topologies/t"], w);
  // direct and chained conversions: the destination of one is the source of the next
  struct S { std::string t, c; };
  std::vector<S> q{{"t", "c"}};
  int step = 0;
  for (size_t i = 0; i < q.size(); i++) {
    S s = q[i];
    std::string type = mesh["topologies"][s.t]["type"].as_string();
    auto go = [&](const char *nm, void (*f)(const Node &, Node &, Node &)) {
      S n{fmt("t%d", ++step), fmt("c%d", step)};
      Node &td = mesh["topologies"][n.t]; Node &cd = mesh["coordsets"][n.c];
      td["stale"] = 1; cd["stale"] = 1;
      std::string sb = dump(mesh["topologies"][s.t]) + dump(mesh["coordsets"][s.c]);
      f(mesh["topologies"][s.t], td, cd); mc::transition();
      if (dump(mesh["topologies"][s.t]) + dump(mesh["coordsets"][s.c]) != sb) fail("source-changed", w + ": " + nm + " changed its source");
      if (td.has_child("stale") || cd.has_child("stale")) fail("stale", w + ": old content of the destination stays");
      std::string ww = w + " " + nm;
      check_coords(g, cd, ww); check_topo(g, mesh, td, cd, n.c, ww);
      Node one; one["state/domain_id"] = 3; one["coordsets"][n.c].set_external(cd); one["topologies"][n.t].set_external(td);
      Node inf; if (!bm::verify(one, inf)) fail("result-invalid", ww + ": the result is not a valid mesh: " + one.to_json() + inf.to_json());
      q.push_back(n);
    };
    if (type == "uniform") { go("uniform-to-rectilinear", bm::topology::uniform::to_rectilinear); go("uniform-to-structured", bm::topology::uniform::to_structured); go("uniform-to-unstructured", bm::topology::uniform::to_unstructured); }
    else if (type == "rectilinear") { go("rectilinear-to-structured", bm::topology::rectilinear::to_structured); go("rectilinear-to-unstructured", bm::topology::rectilinear::to_unstructured); }
    else if (type == "structured") go("structured-to-unstructured", bm::topology::structured::to_unstructured);
    else {
      // polygonal form
      Node d; d["stale"] = 1; std::string sb = dump(mesh["topologies"][s.t]);
      if (g.nd > 1) {
        bm::topology::unstructured::to_polytopal(mesh["topologies"][s.t], d);
        if (dump(mesh["topologies"][s.t]) != sb) fail("source-changed", w + ": to_polytopal changed its source");
        V sz = geti(d["elements/sizes"]), of = geti(d["elements/offsets"]), c = geti(d["elements/connectivity"]);
        if ((int)sz.size() != g.ncells()) fail("poly-cells", w + ": other number of polytopes");
        for (int e = 0; e < g.ncells(); e++) {
          V x(c.begin() + of[e], c.begin() + of[e] + sz[e]), cell = g.cell(e);
          if (g.nd == 2) { if (x != cell) fail("poly-vertices", w + ": a polygon has other vertices"); }
          else {
            static const int F[6][4] = {{0, 1, 2, 3}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
            std::vector<V> want, got; for (auto &f : F) want.push_back({cell[f[0]], cell[f[1]], cell[f[2]], cell[f[3]]});
            V fs = geti(d["subelements/sizes"]), fo = geti(d["subelements/offsets"]), fc = geti(d["subelements/connectivity"]);
            for (auto f : x) got.push_back(V(fc.begin() + fo[f], fc.begin() + fo[f] + fs[f]));
            if (got.size() != 6 || sorted_faces(got) != sorted_faces(want)) fail("poly-faces", w + ": a polyhedron has other faces");
          }
        }
      }
    }
  }
  if (kind == 0) { Node a, b; bm::coordset::uniform::to_rectilinear(mesh["coordsets/c"], a); check_coords(g, a, w + " coordset"); bm::coordset::to_explicit(mesh["coordsets/c"], b); check_coords(g, b, w + " coordset"); }
  if (kind == 1) { Node b; bm::coordset::to_explicit(mesh["coordsets/c"], b); check_coords(g, b, w + " coordset"); }
  if (kind == 2) { Node b; bm::coordset::to_explicit(mesh["coordsets/c"], b); check_coords(g, b, w + " coordset"); }
  mc::outcome(fmt("kind=%d nd=%d steps=%d", kind, g.nd, step)); mc::checked();
}
static void sp_uni() { grids(0, 4); }
static void sp_rect() { grids(1, 4); }
static void sp_str() { grids(2, 4); }
// --- unstructured shapes
struct Shape { const char *name; int n, dim; std::vector<V> faces; };
static const std::vector<Shape> &shapes() {
  static const std::vector<Shape> S{
      {"point", 1, 0, {}}, {"line", 2, 1, {}}, {"tri", 3, 2, {}}, {"quad", 4, 2, {}},
      {"tet", 4, 3, {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}},
      {"hex", 8, 3, {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}},
      {"wedge", 6, 3, {{0, 1, 2}, {3, 4, 5}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}}},
      {"pyramid", 5, 3, {{0, 1, 2, 3}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}}};
  return S;
}
static bool cyclic_same(V a, V b) { // same polygon up to rotation and direction
  if (a.size() != b.size()) return false;
  for (int r = 0; r < 2; r++) { for (size_t k = 0; k < a.size(); k++) { if (a == b) return true; std::rotate(a.begin(), a.begin() + 1, a.end()); } std::reverse(a.begin(), a.end()); }
  return false;
}
static void sp_shapes() {
  const Shape &s = shapes()[1 + choose(7)];
  int ne = choose(4), style = choose(5); // number of elements
  std::vector<V> el;
  for (int e = 0; e < ne; e++) {
    // own vertices, or sharing the first or all vertices with the previous element
    int share = e ? choose(4) : 0;
    V v; for (int k = 0; k < s.n; k++) v.push_back(e * s.n + k);
    if (share == 1) v[0] = el[e - 1][s.n - 1];
    if (share == 2) { int m = s.dim == 3 ? (int)s.faces[0].size() : 2; for (int k = 0; k < m && k < s.n; k++) v[s.dim == 3 ? s.faces[0][k] : k] = el[e - 1][s.dim == 3 ? s.faces[0][m - 1 - k] : 1 - k]; }
    if (share == 3) { if (s.dim == 3) v = el[e - 1]; else { v = el[e - 1]; std::reverse(v.begin(), v.end()); } }
    el.push_back(v);
  }
  Node mesh; int np = std::max(1, ne * s.n);
  mesh["coordsets/c/type"] = "explicit";
  for (auto a : {"x", "y", "z"}) { mesh["coordsets/c/values"][a].set(DataType::float64(np)); for (int i = 0; i < np; i++) mesh["coordsets/c/values"][a].as_float64_array()[i] = i; }
  Node &t = mesh["topologies/t"];
  t["type"] = "unstructured"; t["coordset"] = "c"; t["elements/shape"] = s.name; t["extra"] = "kept";
  V c; for (auto &v : el) c.insert(c.end(), v.begin(), v.end());
  ints(t["elements/connectivity"], c, style);
  std::string before = dump(mesh), w = fmt("%s x%d style %d", s.name, ne, style) + t["elements/connectivity"].to_json();
  if (bm::topology::length(t) != ne || bm::topology::dims(t) != s.dim) fail("shape-length", w + ": wrong length or dims");
  for (int e = 0; e < ne; e++) { V p = bu::topology::unstructured::points(t, e, false); V want = el[e]; if (p != want) fail("shape-points", w + ": other points of an element"); }
  Node off; bm::topology::unstructured::generate_offsets(t, off);
  V o = geti(off); if ((int)o.size() != ne) fail("offsets", w + fmt(": %d offsets", (int)o.size()));
  for (int e = 0; e < ne; e++) if (o[e] != e * s.n) fail("offsets", w + ": wrong offset");
  if (dump(mesh) != before) fail("source-changed", w + ": generate_offsets changed its source");
  mc::transition();
  if (s.dim >= 2) {
    Node d; d["stale"] = 1;
    bm::topology::unstructured::to_polytopal(t, d); mc::transition();
    if (dump(mesh) != before) fail("source-changed", w + ": to_polytopal changed its source");
    if (!d.has_child("extra") || d.has_child("stale") || d["coordset"].as_string() != "c") fail("poly-rest", w + ": other children: " + d.to_json());
    if (d["elements/shape"].as_string() != (s.dim == 3 ? "polyhedral" : "polygonal")) fail("poly-shape", w);
    V sz = geti(d["elements/sizes"]), of = geti(d["elements/offsets"]), pc = geti(d["elements/connectivity"]);
    if ((int)sz.size() != ne || (int)of.size() != ne) fail("poly-count", w + ": " + d.to_json());
    index_t run = 0;
    std::set<V> seen; V used;
    std::vector<V> faces;
    if (s.dim == 3) {
      V fs = geti(d["subelements/sizes"]), fo = geti(d["subelements/offsets"]), fc = geti(d["subelements/connectivity"]);
      index_t fr = 0;
      for (size_t f = 0; f < fs.size(); f++) {
        if (fo[f] != fr) fail("poly-face-offset", w + ": " + d.to_json());
        fr += fs[f];
        V x(fc.begin() + fo[f], fc.begin() + fo[f] + fs[f]); faces.push_back(x);
        std::sort(x.begin(), x.end()); if (!seen.insert(x).second) fail("poly-face-twice", w + ": a face is stored twice: " + d.to_json());
      }
      if (fr != (index_t)fc.size()) fail("poly-face-extra", w + ": " + d.to_json());
    }
    for (int e = 0; e < ne; e++) {
      if (of[e] != run) fail("poly-offset", w + ": " + d.to_json());
      run += sz[e];
      V x(pc.begin() + of[e], pc.begin() + of[e] + sz[e]);
      if (s.dim == 2) { if (x != el[e]) fail("poly-vertices", w + ": " + d.to_json()); continue; }
      bool split = s.n == 6 || s.n == 5; // wedges and pyramids: quadrilateral faces become two triangles each
      if (split) {
        size_t tri = 0; for (auto &f : s.faces) tri += f.size() - 2;
        if (x.size() != tri) fail("poly-face-count", w + fmt(": %d triangles instead of %d: ", (int)x.size(), (int)tri) + d.to_json());
        std::map<std::set<index_t>, int> edges; std::map<int, int> per;
        for (auto i : x) {
          if (i < 0 || i >= (index_t)faces.size() || faces[i].size() != 3) fail("poly-face-bad", w + ": " + d.to_json());
          int home = -1;
          for (size_t f = 0; f < s.faces.size(); f++) { size_t in = 0; for (auto v : faces[i]) for (auto k : s.faces[f]) in += el[e][k] == v; if (in == 3 && home < 0) home = (int)f; }
          if (home < 0) fail("poly-face-foreign", w + ": a face is not part of a face of the element: " + d.to_json());
          per[home]++;
          for (int k = 0; k < 3; k++) edges[{faces[i][k], faces[i][(k + 1) % 3]}]++;
        }
        for (auto &q : edges) if (q.first.size() != 2 || q.second != 2) fail("poly-open", w + ": the faces do not close up: " + d.to_json());
        for (size_t f = 0; f < s.faces.size(); f++) if (per[(int)f] != (int)s.faces[f].size() - 2) fail("poly-face-missing", w + fmt(": face %d is not covered: ", (int)f) + d.to_json());
        used.insert(used.end(), x.begin(), x.end());
        continue;
      }
      if (x.size() != s.faces.size()) fail("poly-face-count", w + fmt(": %d faces instead of %d: ", (int)x.size(), (int)s.faces.size()) + d.to_json());
      for (auto &f : s.faces) {
        V want; for (auto k : f) want.push_back(el[e][k]);
        bool hit = false; for (auto i : x) if (i >= 0 && i < (index_t)faces.size() && cyclic_same(faces[i], want)) hit = true;
        if (!hit) fail("poly-face-missing", w + fmt(": element %d lacks a face: ", e) + d.to_json());
      }
      used.insert(used.end(), x.begin(), x.end());
    }
    for (size_t f = 0; f < faces.size(); f++) if (std::find(used.begin(), used.end(), (index_t)f) == used.end()) fail("poly-face-unused", w);
    if (ne) {
      Node one; one["coordsets/c"].set_external(mesh["coordsets/c"]); one["topologies/t"].set_external(d);
      Node inf; if (!bm::verify(one, inf)) fail("result-invalid", w + ": the polytopal result is not valid: " + inf.to_json());
      if (bm::topology::length(one["topologies/t"]) != ne) fail("poly-length", w);
      // converting again gives the same
      Node d2; bm::topology::unstructured::to_polytopal(one["topologies/t"], d2); Node di;
      if (d.diff(d2, di)) fail("poly-again", w + ": converting again differs: " + di.to_json());
    }
  }
  mc::outcome(fmt("%s n=%d", s.name, ne)); mc::checked();
}
// polygonal, polyhedral and mixed offsets from sizes
static void sp_offsets() {
  int kind = choose(3), ne = choose(4), style = choose(5);
  Node t; t["type"] = "unstructured"; t["coordset"] = "c";
  V sz, conn, shp, want; index_t run = 0;
  static const int N[4] = {3, 4, 8, 6}; static const char *NM[4] = {"tri", "quad", "hex", "wedge"};
  for (int e = 0; e < ne; e++) {
    int k = kind == 2 ? choose(4) : 0; index_t n = kind == 2 ? N[k] : kind == 1 ? 1 + choose(3) : 3 + choose(3);
    sz.push_back(n); shp.push_back(k + 1); want.push_back(run); run += n;
  }
  for (index_t i = 0; i < run; i++) conn.push_back(kind == 1 ? i % 3 : i);
  t["elements/shape"] = kind == 0 ? "polygonal" : kind == 1 ? "polyhedral" : "mixed";
  ints(t["elements/connectivity"], conn, style); ints(t["elements/sizes"], sz, style);
  V fsz, fwant; 
  if (kind == 1) { index_t fr = 0; V fc; for (int f = 0; f < 3; f++) { fsz.push_back(3 + choose(2)); fwant.push_back(fr); fr += fsz.back(); } for (index_t i = 0; i < fr; i++) fc.push_back(i); t["subelements/shape"] = "polygonal"; ints(t["subelements/connectivity"], fc, style); ints(t["subelements/sizes"], fsz, style); }
  if (kind == 2) { for (int k = 0; k < 4; k++) t["elements/shape_map"][NM[k]] = k + 1; ints(t["elements/shapes"], shp, style); }
  std::string before = dump(t), w = t.to_json();
  Node a, b; bm::topology::unstructured::generate_offsets(t, a, b);
  if (dump(t) != before) fail("source-changed", "generate_offsets changed its source: " + w);
  if (geti(a) != want) fail("offsets-sizes", "offsets " + a.to_json() + " for " + w);
  if (kind == 1 && geti(b) != fwant) fail("offsets-sub", "face offsets " + b.to_json() + " for " + w);
  Node t2; t2.set(t); bm::topology::unstructured::generate_offsets_inline(t2);
  if (geti(t2["elements/offsets"]) != want) fail("offsets-inline", w);
  if (kind == 1 && geti(t2["subelements/offsets"]) != fwant) fail("offsets-inline-sub", w);
  std::string once = dump(t2);
  bm::topology::unstructured::generate_offsets_inline(t2);
  if (dump(t2) != once) fail("offsets-again", "generating offsets again changes the topology: " + w);
  Node c, d; bm::topology::unstructured::generate_offsets(t2, c, d);
  if (geti(c) != want || (kind == 1 && geti(d) != fwant)) fail("offsets-present", "existing offsets are not returned: " + w);
  mc::outcome(fmt("kind=%d n=%d", kind, ne)); mc::checked();
}
int main(int argc, char **argv) {
  init();
  mc::Opt o; o.shard_depth = 5;
  return mc::main_(argc, argv, "B02",
                   {{"uniform", sp_uni, o, "every uniform mesh of 1 to 3 dimensions, 1 to 3 points per axis, all coordinate systems, number types, with and without origin and spacing; all conversion chains"},
                    {"rectilinear", sp_rect, o, "every rectilinear mesh of 1 to 3 dimensions, value types and layouts; all conversion chains"},
                    {"structured", sp_str, o, "every structured mesh, plain and with offsets and strides; conversion to unstructured and polytopal"},
                    {"shapes", sp_shapes, o, "every element shape, 0 to 3 elements, every sharing of vertices, integer types; polytopal form, offsets, queries"},
                    {"offsets", sp_offsets, o, "offsets of polygonal, polyhedral and mixed topologies from sizes"}},
                   {"logical topology origins are carried along and not judged", "the numeric type of converted coordinates and connectivity is not judged, only the values"});
}
