// B03: derived topologies enumerate exactly the sub-entities and map both ways
#include "cnode.hpp"
#include "gen.hpp"
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_mesh_utils.hpp"
#include <algorithm>
#include <cmath>
using namespace cn;
using namespace gen;
using mc::choose;
using mc::fail;
using mc::fmt;
using mc::thorough;
namespace bm = conduit::blueprint::mesh;
namespace bt = conduit::blueprint::mesh::topology::unstructured;
typedef std::vector<index_t> V;
typedef std::vector<double> P;
typedef std::set<index_t> S;

static void ints(Node &n, const V &v, int style) {
  int cnt = (int)v.size();
  switch (style) {
  case 0: n.set(DataType::int64(cnt)); for (int i = 0; i < cnt; i++) n.as_int64_array()[i] = v[i]; break;
  case 1: n.set(DataType::int32(cnt)); for (int i = 0; i < cnt; i++) n.as_int32_array()[i] = (int)v[i]; break;
  case 2: n.set(DataType::uint32(cnt)); for (int i = 0; i < cnt; i++) n.as_uint32_array()[i] = (unsigned)v[i]; break;
  case 3: n.set(DataType::uint64(cnt)); for (int i = 0; i < cnt; i++) n.as_uint64_array()[i] = (unsigned long)v[i]; break;
  default: {
    Schema s; s.set(DataType(DataType::INT32_ID, cnt, 4, 12, 4, conduit::Endianness::DEFAULT_ID));
    n.set(s);
    for (int i = 0; i < cnt; i++) n.as_int32_array()[i] = (int)v[i];
  } }
}
static V geti(const Node &n) { V r; auto a = n.as_index_t_accessor(); for (index_t i = 0; i < a.number_of_elements(); i++) r.push_back(a[i]); return r; }
static P getd(const Node &n) { P r; auto a = n.as_float64_accessor(); for (index_t i = 0; i < a.number_of_elements(); i++) r.push_back(a[i]); return r; }
struct Shape { const char *name; int n, dim; std::vector<V> faces; };
static const std::vector<Shape> SH{
    {"line", 2, 1, {}}, {"tri", 3, 2, {}}, {"quad", 4, 2, {}},
    {"tet", 4, 3, {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}},
    {"hex", 8, 3, {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}},
    {"wedge", 6, 3, {{0, 1, 2}, {3, 4, 5}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}}},
    {"pyramid", 5, 3, {{0, 1, 2, 3}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}}};
static bool cyclic_same(V a, V b) {
  if (a.size() != b.size()) return false;
  for (int r = 0; r < 2; r++) { for (size_t k = 0; k < a.size(); k++) { if (a == b) return true; std::rotate(a.begin(), a.begin() + 1, a.end()); } std::reverse(a.begin(), a.end()); }
  return false;
}
struct M3 {
  int dim = 0, nd = 0, nv = 0; // topological and coordinate dimension, number of points
  std::vector<V> el;               // vertices of each element (in order for 2D)
  std::vector<std::vector<V>> fc;  // faces of each element (3D): as stored or, for wedges and pyramids, the real faces
  bool split = false; std::string w; std::vector<P> xyz;
  P mean(const S &s) const { P r(nd, 0); for (auto v : s) for (int d = 0; d < nd; d++) r[d] += xyz[v][d]; for (auto &x : r) x /= (double)s.size(); return r; }
};
static const char *AX[3] = {"x", "y", "z"};
// coordinates in general position: no two different vertex sets of a mesh have the same mean
static double coord(int v, int d) { static const double H[3] = {1.6180339887, 2.2360679775, 3.1415926535}; return std::fmod(std::pow(v + 1.37, 2.3 + 0.21 * d) * H[d] * 7.13, 13.0); }
static void coords(Node &mesh, M3 &m, int fstyle) {
  mesh["coordsets/c/type"] = "explicit";
  m.xyz.assign(m.nv, P(m.nd));
  for (int d = 0; d < m.nd; d++) {
    Node &n = mesh["coordsets/c/values"][AX[d]];
    if (fstyle == 0) n.set(DataType::float64(m.nv));
    else if (fstyle == 1) n.set(DataType::float32(m.nv));
    else { Schema s; s.set(DataType(DataType::FLOAT64_ID, m.nv, 8, 24, 8, conduit::Endianness::DEFAULT_ID)); n.set(s); }
    for (int v = 0; v < m.nv; v++) { double x = coord(v, d); if (fstyle == 1) { n.as_float32_array()[v] = (float)x; m.xyz[v][d] = (float)x; } else { n.as_float64_array()[v] = x; m.xyz[v][d] = x; } }
  }
}
static bool same(const P &a, const P &b) { for (size_t i = 0; i < a.size(); i++) if (std::fabs(a[i] - b[i]) > 2e-5) return false; return a.size() == b.size(); }
typedef std::vector<V> Map;
static Map getmap(const Node &n, index_t cnt, const std::string &w) {
  Map r;
  if (n.dtype().is_number()) { V v = geti(n); for (size_t i = 0; i < v.size();) { index_t k = v[i++]; V x; for (; k > 0 && i < v.size(); k--) x.push_back(v[i++]); r.push_back(x); } }
  else {
    V v = geti(n["values"]), s = geti(n["sizes"]), o = geti(n["offsets"]);
    if (s.size() != o.size()) fail("map-shape", w + ": " + n.to_json());
    for (size_t i = 0; i < s.size(); i++) { if (o[i] < 0 || s[i] < 0 || o[i] + s[i] > (index_t)v.size()) fail("map-range", w + ": " + n.to_json()); r.push_back(V(v.begin() + o[i], v.begin() + o[i] + s[i])); }
  }
  if ((index_t)r.size() != cnt) fail("map-count", w + fmt(": %d entries instead of %d: ", (int)r.size(), (int)cnt) + n.to_json());
  return r;
}
static void transposed(const Map &a, const Map &b, const std::string &w) {
  std::set<std::pair<index_t, index_t>> x, y; size_t na = 0, nb = 0;
  for (size_t i = 0; i < a.size(); i++) for (auto j : a[i]) { x.insert({(index_t)i, j}); na++; }
  for (size_t i = 0; i < b.size(); i++) for (auto j : b[i]) { y.insert({j, (index_t)i}); nb++; }
  if (x.size() != na || y.size() != nb) fail("map-twice", w + ": a map lists a pair twice");
  if (x != y) fail("map-transpose", w + ": the two maps are not transposes of each other");
}
static std::vector<V> entities(const Node &t, const std::string &w) {
  std::vector<V> r; V c = geti(t["elements/connectivity"]); std::string sh = t["elements/shape"].as_string();
  if (sh == "polygonal") { V s = geti(t["elements/sizes"]); size_t o = 0; for (auto k : s) { if (o + k > c.size()) fail("dest-conn", w + t.to_json()); r.push_back(V(c.begin() + o, c.begin() + o + k)); o += k; } if (o != c.size()) fail("dest-conn", w + t.to_json()); return r; }
  size_t k = sh == "point" ? 1 : sh == "line" ? 2 : sh == "tri" ? 3 : sh == "quad" ? 4 : sh == "tet" ? 4 : 0;
  if (!k || c.size() % k) fail("dest-shape", w + ": " + t.to_json());
  for (size_t i = 0; i < c.size(); i += k) r.push_back(V(c.begin() + i, c.begin() + i + k));
  return r;
}
static std::vector<S> edges_of(const V &f) { std::vector<S> r; for (size_t k = 0; k < f.size(); k++) r.push_back({f[k], f[(k + 1) % f.size()]}); return r; }
static bool intype(const Node &n) { return n.dtype().is_integer(); }
static void judge(Node &mesh, M3 &m) {
  const Node &t = mesh["topologies/t"]; index_t ne = (index_t)m.el.size();
  std::string before = dump(mesh), w = m.w + " " + t["elements"].to_json() + (t.has_child("subelements") ? t["subelements"].to_json() : "");
  Node info; if (!bm::verify(mesh, info)) fail("source-invalid", w + info.to_json());
  std::vector<std::vector<V>> fc = m.fc;
  // faces, lines, points
  for (int d = std::min(m.dim, 2); d >= 0; d--) {
    static const char *NM[3] = {"points", "lines", "faces"};
    std::string ww = w + ": " + NM[d];
    Node dst, s2d, d2s; dst["stale"] = 1;
    if (d == 0) bt::generate_points(t, dst, s2d, d2s); else if (d == 1) bt::generate_lines(t, dst, s2d, d2s); else bt::generate_faces(t, dst, s2d, d2s);
    mc::transition();
    if (dump(mesh) != before) fail("source-changed", ww + ": the source changed");
    if (dst.has_child("stale") || dst["type"].as_string() != "unstructured" || dst["coordset"].as_string() != "c") fail("dest-header", ww + ": " + dst.to_json());
    std::vector<V> ent = entities(dst, ww + ": ");
    { Node one; one["coordsets/c"].set_external(mesh["coordsets/c"]); one["topologies/d"].set_external(dst); Node inf; if (!bm::verify(one, inf)) fail("dest-invalid", ww + ": " + dst.to_json() + inf.to_json()); }
    index_t k = (index_t)ent.size();
    Map a = getmap(s2d, ne, ww + " s2d"), b = getmap(d2s, k, ww + " d2s");
    transposed(a, b, ww);
    for (auto &x : a) for (auto i : x) if (i < 0 || i >= k) fail("map-id", ww + ": an id out of range: " + s2d.to_json());
    if (d == 2 && m.dim == 3 && m.split) { // wedges and pyramids: learn the triangulation, checked against the real faces
      for (index_t e = 0; e < ne; e++) {
        std::vector<V> got; for (auto i : a[e]) got.push_back(ent[i]);
        size_t tri = 0; for (auto &f : m.fc[e]) tri += f.size() - 2;
        if (got.size() != tri) fail("face-count", ww + fmt(": element %d has %d triangles instead of %d: ", (int)e, (int)got.size(), (int)tri) + dst.to_json());
        std::map<S, int> ed; std::map<size_t, int> per;
        for (auto &f : got) {
          if (f.size() != 3) fail("face-size", ww);
          size_t home = 99; for (size_t q = 0; q < m.fc[e].size(); q++) { size_t in = 0; for (auto v : f) in += std::count(m.fc[e][q].begin(), m.fc[e][q].end(), v); if (in == 3) home = q; }
          if (home == 99) fail("face-foreign", ww + ": a triangle outside the faces of its element: " + dst.to_json());
          per[home]++; for (auto &x : edges_of(f)) ed[x]++;
        }
        for (auto &x : ed) if (x.first.size() != 2 || x.second != 2) fail("face-open", ww + ": the triangles do not close up: " + dst.to_json());
        for (size_t q = 0; q < m.fc[e].size(); q++) if (per[q] != (int)m.fc[e][q].size() - 2) fail("face-cover", ww + ": a face is not covered");
        fc[e] = got;
      }
    }
    // expected entities per element, as vertex sets
    std::vector<std::set<S>> want(ne); std::set<S> all; std::map<S, V> cyc;
    for (index_t e = 0; e < ne; e++) {
      std::set<S> &x = want[e];
      if (d == 0) for (auto v : m.el[e]) x.insert(S{v});
      else if (m.dim == d) x.insert(S(m.el[e].begin(), m.el[e].end()));
      else if (d == 1 && m.dim == 2) for (auto &q : edges_of(m.el[e])) x.insert(q);
      else if (d == 1) for (auto &f : fc[e]) for (auto &q : edges_of(f)) x.insert(q);
      else for (auto &f : fc[e]) { S q(f.begin(), f.end()); x.insert(q); cyc[q] = f; }
      if (m.dim == d && d == 2) cyc[S(m.el[e].begin(), m.el[e].end())] = m.el[e];
      all.insert(x.begin(), x.end());
    }
    if (d == 0) for (int v = 0; v < m.nv; v++) all.insert(S{v}); // every point of the coordinate set, used or not
    std::set<S> got;
    for (auto &x : ent) {
      S s(x.begin(), x.end());
      if (s.size() != x.size()) fail("entity-degenerate", ww + ": " + dst.to_json());
      if (!all.count(s)) fail("entity-foreign", ww + ": an entity that no element has: " + dst.to_json());
      if (!got.insert(s).second) fail("entity-twice", ww + ": an entity is listed twice: " + dst.to_json());
      if (d == 2 && !cyclic_same(x, cyc[s])) fail("face-order", ww + ": the vertices of a face are in another order: " + dst.to_json());
    }
    if (got.size() != all.size()) fail("entity-missing", ww + fmt(": %d of %d entities: ", (int)got.size(), (int)all.size()) + dst.to_json());
    for (index_t e = 0; e < ne; e++) {
      std::set<S> x; for (auto i : a[e]) x.insert(S(ent[i].begin(), ent[i].end()));
      if (x != want[e] || x.size() != a[e].size()) fail("map-wrong", ww + fmt(": element %d is mapped to other entities: ", (int)e) + s2d.to_json() + dst.to_json());
      if (m.dim == d && (a[e].size() != 1 || a[e][0] != e)) fail("map-self", ww + ": elements are renumbered");
    }
    if (!intype(dst["elements/connectivity"])) fail("dest-type", ww);
  }
  // centroids
  {
    Node holder; Node &td = holder["topologies/cent"], &cd = holder["coordsets/cc"]; Node s2d, d2s; td["stale"] = 1; cd["stale"] = 1;
    bt::generate_centroids(t, td, cd, s2d, d2s); mc::transition();
    std::string ww = w + ": centroids";
    if (dump(mesh) != before) fail("source-changed", ww + ": the source changed");
    Node inf; if (!bm::verify(holder, inf)) fail("dest-invalid", ww + ": " + holder.to_json() + inf.to_json());
    if (td.has_child("stale") || cd.has_child("stale") || td["coordset"].as_string() != "cc") fail("dest-header", ww + td.to_json());
    std::vector<V> ent = entities(td, ww);
    if ((index_t)ent.size() != ne) fail("centroid-count", ww + fmt(": %d", (int)ent.size()));
    Map a = getmap(s2d, ne, ww), b = getmap(d2s, ne, ww); transposed(a, b, ww);
    std::vector<P> x; for (int d = 0; d < m.nd; d++) x.push_back(getd(cd["values"][AX[d]]));
    if ((int)cd["values"].number_of_children() != m.nd) fail("centroid-axes", ww);
    for (index_t e = 0; e < ne; e++) {
      if (a[e].size() != 1) fail("centroid-map", ww);
      P p; for (int d = 0; d < m.nd; d++) p.push_back(x[d].at(ent[a[e][0]][0]));
      if (!same(p, m.mean(S(m.el[e].begin(), m.el[e].end())))) fail("centroid", ww + fmt(": element %d at another place", (int)e) + cd.to_json());
    }
  }
  if (m.dim < 2) { Node a, b, c, d; if (!throws([&] { bt::generate_sides(t, a, b, c, d); }) || !throws([&] { bt::generate_corners(t, a, b, c, d); })) fail("low-dim", w + ": sides or corners of a topology of dimension 1"); mc::outcome("1D"); mc::checked(); return; }
  // every point of sides and corners is a vertex, or the mean of an edge, face or cell
  auto kind = [&](index_t e, const P &p, index_t id, std::pair<int, S> &out) {
    if (id < m.nv) { if (!same(p, m.xyz[id])) return false; out = {0, S{id}}; return true; }
    auto tryset = [&](int k, const S &s) { if (same(p, m.mean(s))) { out = {k, s}; return true; } return false; };
    if (m.dim == 3 && tryset(3, S(m.el[e].begin(), m.el[e].end()))) return true;
    if (m.dim == 2) { if (tryset(2, S(m.el[e].begin(), m.el[e].end()))) return true; for (auto &q : edges_of(m.el[e])) if (tryset(1, q)) return true; }
    else for (auto &f : fc[e]) { if (tryset(2, S(f.begin(), f.end()))) return true; for (auto &q : edges_of(f)) if (tryset(1, q)) return true; }
    return false;
  };
  typedef std::pair<int, S> E;
  for (int corner = 0; corner < 2; corner++) {
    Node holder; Node &td = holder["topologies/side"], &cd = holder["coordsets/cc"]; Node s2d, d2s; td["stale"] = 1; cd["stale"] = 1;
    if (corner) bt::generate_corners(t, td, cd, s2d, d2s); else bt::generate_sides(t, td, cd, s2d, d2s);
    mc::transition();
    std::string ww = w + (corner ? ": corners" : ": sides");
    if (dump(mesh) != before) fail("source-changed", ww + ": the source changed");
    Node inf; if (!bm::verify(holder, inf)) fail("dest-invalid", ww + ": " + holder.to_json() + inf.to_json());
    if (td.has_child("stale") || cd.has_child("stale") || td["coordset"].as_string() != "cc") fail("dest-header", ww + td.to_json());
    std::vector<P> x; for (int d = 0; d < m.nd; d++) x.push_back(getd(cd["values"][AX[d]]));
    auto at = [&](index_t e, index_t id) { P p; for (int d = 0; d < m.nd; d++) p.push_back(x[d].at(id)); E r; if (!kind(e, p, id, r)) fail(corner ? "corner-point" : "side-point", ww + fmt(": point %d belongs to no part of element %d: ", (int)id, (int)e) + td.to_json() + cd.to_json()); return r; };
    index_t nsub; std::vector<std::vector<V>> sub; // polygons of each new cell
    if (!corner) { for (auto &v : entities(td, ww)) sub.push_back({v}); }
    else {
      V s = geti(td["elements/sizes"]), o = geti(td["elements/offsets"]), c = geti(td["elements/connectivity"]);
      V fs, fo, fcn; if (m.dim == 3) { fs = geti(td["subelements/sizes"]); fo = geti(td["subelements/offsets"]); fcn = geti(td["subelements/connectivity"]); }
      for (size_t i = 0; i < s.size(); i++) { V v(c.begin() + o[i], c.begin() + o[i] + s[i]); if (m.dim == 2) sub.push_back({v}); else { std::vector<V> q; for (auto f : v) q.push_back(V(fcn.begin() + fo.at(f), fcn.begin() + fo.at(f) + fs.at(f))); sub.push_back(q); } }
    }
    nsub = (index_t)sub.size();
    Map a = getmap(s2d, ne, ww), b = getmap(d2s, nsub, ww); transposed(a, b, ww);
    for (index_t i = 0; i < nsub; i++) if (b[i].size() != 1) fail("sub-parent", ww + ": a part belongs to other than one element");
    for (index_t e = 0; e < ne; e++) {
      std::multiset<std::vector<E>> got, want;
      S ev(m.el[e].begin(), m.el[e].end());
      if (!corner) {
        for (auto i : a[e]) { std::vector<E> q; for (auto id : sub[i][0]) q.push_back(at(e, id)); if (q[1] < q[0]) std::swap(q[0], q[1]); got.insert(q); }
        auto add = [&](const V &f, bool cell) { for (auto &ed : edges_of(f)) { std::vector<E> q{{0, S{*ed.begin()}}, {0, S{*ed.rbegin()}}, {2, S(f.begin(), f.end())}}; if (cell) q.push_back({3, ev}); want.insert(q); } };
        if (m.dim == 2) add(m.el[e], false); else for (auto &f : fc[e]) add(f, true);
        if (got != want) fail("sides", ww + fmt(": the sides of element %d are others: ", (int)e) + td.to_json());
        // orientation kept in 2D: the side runs along the element
        if (m.dim == 2) for (auto i : a[e]) { const V &q = sub[i][0]; bool ok = false; for (size_t k = 0; k < m.el[e].size(); k++) ok |= m.el[e][k] == q[0] && m.el[e][(k + 1) % m.el[e].size()] == q[1]; if (!ok) fail("side-orientation", ww + ": " + td.to_json()); }
      } else {
        // one corner per vertex; its faces as sets of points
        std::multiset<std::set<std::set<E>>> g, x2;
        for (auto i : a[e]) {
          std::set<std::set<E>> q;
          for (auto &f : sub[i]) {
            std::set<E> s; std::vector<E> ord; for (auto id : f) { ord.push_back(at(e, id)); s.insert(ord.back()); }
            // neighbours in a corner face differ by one dimension
            for (size_t k = 0; k < ord.size(); k++) if (std::abs(ord[k].first - ord[(k + 1) % ord.size()].first) != 1) fail("corner-order", ww + ": the points of a corner face are out of order: " + td.to_json());
            if (!q.insert(s).second) fail("corner-face-twice", ww);
          }
          g.insert(q);
        }
        for (auto v : ev) {
          std::set<std::set<E>> q;
          std::vector<V> fs = m.dim == 2 ? std::vector<V>{m.el[e]} : fc[e];
          std::set<S> es;
          for (auto &f : fs) { std::set<E> s{{0, S{v}}, {2, S(f.begin(), f.end())}}; bool in = false; for (auto &ed : edges_of(f)) if (ed.count(v)) { s.insert({1, ed}); in = true; es.insert(ed); } if (in) q.insert(s); }
          if (m.dim == 3) for (auto &ed : es) { std::set<E> s{{1, ed}, {3, ev}}; for (auto &f : fs) for (auto &y : edges_of(f)) if (y == ed) s.insert({2, S(f.begin(), f.end())}); q.insert(s); }
          x2.insert(q);
        }
        if (g != x2) fail("corners", ww + fmt(": the corners of element %d are others: ", (int)e) + td.to_json());
      }
    }
  }
  mc::checked();
}
static void finish(Node &mesh, M3 &m, const char *shape, int style) {
  Node &t = mesh["topologies/t"];
  t["type"] = "unstructured"; t["coordset"] = "c"; t["elements/shape"] = shape;
  if (std::string(shape) == "polyhedral") {
    V c, s, fcn, fs; std::map<S, index_t> ids;
    for (auto &fe : m.fc) { s.push_back((index_t)fe.size()); for (auto &f : fe) { S q(f.begin(), f.end()); if (!ids.count(q)) { ids[q] = (index_t)fs.size(); fs.push_back((index_t)f.size()); fcn.insert(fcn.end(), f.begin(), f.end()); } c.push_back(ids[q]); } }
    ints(t["elements/connectivity"], c, style); ints(t["elements/sizes"], s, style);
    t["subelements/shape"] = "polygonal"; ints(t["subelements/connectivity"], fcn, style); ints(t["subelements/sizes"], fs, style);
  } else {
    V c, s; for (auto &v : m.el) { c.insert(c.end(), v.begin(), v.end()); s.push_back((index_t)v.size()); }
    ints(t["elements/connectivity"], c, style);
    if (std::string(shape) == "polygonal") ints(t["elements/sizes"], s, style);
  }
  if (std::string(shape).substr(0, 4) == "poly") bt::generate_offsets_inline(t);
}
static void no_twins(const M3 &m) { std::set<S> q; for (auto &v : m.el) if (!q.insert(S(v.begin(), v.end())).second) throw mc::Abandon(); }
static V arrangement(int n, int of) { V r, pool; for (int i = 0; i < of; i++) pool.push_back(i); for (int k = 0; k < n; k++) { int i = choose((int)pool.size()); r.push_back(pool[i]); pool.erase(pool.begin() + i); } return r; }
// 1D and 2D: every arrangement of vertices
static void sp_flat() {
  int kind = choose(4); // line tri quad polygonal
  int style = choose(2) * (1 + choose(4)); if (style > 4) throw mc::Abandon();
  M3 m; m.nd = 2; if (kind == 0) m.nd = 1 + choose(2);
  m.dim = kind == 0 ? 1 : 2; int unused = choose(2);
  int ne = 1 + choose(kind == 0 ? 4 : 3), pool = kind == 0 ? 4 : kind == 1 ? (thorough() ? 5 : 4) : 5;
  if (kind >= 2 && ne > 2 && !thorough()) throw mc::Abandon();
  for (int e = 0; e < ne; e++) {
    int n = kind == 0 ? 2 : kind == 1 ? 3 : kind == 2 ? 4 : 3 + choose(3);
    V v;
    if (!e) for (int i = 0; i < n; i++) v.push_back(i);
    else { v = arrangement(n, pool); }
    m.el.push_back(v);
  }
  no_twins(m);
  if (style && (ne > 2 || m.el[0] .size() > 4)) throw mc::Abandon();
  m.nv = pool + unused; // vertices that no element uses, always some
  static const char *NM[4] = {"line", "tri", "quad", "polygonal"};
  m.w = fmt("%s x%d style %d", NM[kind], ne, style);
  Node mesh; coords(mesh, m, style % 3); finish(mesh, m, NM[kind], style);
  judge(mesh, m);
  mc::outcome(fmt("%s n=%d", NM[kind], ne));
}
static V placed(const Shape &s, const std::vector<V> &el, int e, int &next) {
  // new element: disjoint, or glued to an earlier one at a vertex, an edge or a face
  V v(s.n, -1);
  if (e) {
    int glue = choose(5), with = choose(e);
    const V &o = el[with];
    if (glue == 1) v[choose(s.n)] = o[choose(s.n)];
    if (glue == 2) { int f = choose((int)s.faces.size()); int k = choose((int)s.faces[f].size()); auto &a = s.faces[0]; v[a[0]] = o[s.faces[f][(k + 1) % s.faces[f].size()]]; v[a[1]] = o[s.faces[f][k]]; }
    if (glue >= 3) { // 4: all vertices of a face but one
      int f = choose((int)s.faces.size()), g = choose((int)s.faces.size()); auto &a = s.faces[g], &b = s.faces[f];
      if (a.size() != b.size()) throw mc::Abandon();
      if (glue == 4 && a.size() < 4) throw mc::Abandon();
      int r = choose((int)a.size()), n = (int)a.size();
      for (int k = 0; k < n - (glue == 4); k++) v[a[k]] = o[b[(n - 1 - k + r) % n]];
    }
  }
  for (auto &x : v) if (x < 0) x = next++;
  return v;
}
static void solid(int maxe) {
  int kind = 3 + choose(4); const Shape &s = SH[kind];
  int poly = choose(2); // the same cells as a polyhedral topology
  if (poly && kind > 4) poly = 2; // real quadrilateral faces
  int perm = choose(3), style = choose(5);
  int ne = 1 + choose(maxe);
  M3 m; m.nd = 3; m.dim = 3; int next = 0;
  for (int e = 0; e < ne; e++) m.el.push_back(placed(s, m.el, e, next));
  if (style && ne > 1) throw mc::Abandon();
  if (ne > 2 && (perm == 1 || poly)) throw mc::Abandon();
  no_twins(m);
  m.nv = next + (perm == 2 ? 2 : 0);
  for (auto &v : m.el) for (auto &x : v) { if (perm == 1) x = m.nv - 1 - x; else if (perm == 2) x = (x * 1 + 1); } // reversed; first and last vertex unused
  m.split = !poly && kind > 4;
  for (auto &v : m.el) { std::vector<V> f; for (auto &q : s.faces) { V z; for (auto k : q) z.push_back(v[k]); f.push_back(z); } m.fc.push_back(f); }
  m.w = fmt("%s x%d%s perm %d style %d", s.name, ne, poly ? " polyhedral" : "", perm, style);
  Node mesh; coords(mesh, m, style % 3); finish(mesh, m, poly ? "polyhedral" : s.name, style);
  judge(mesh, m);
  mc::outcome(fmt("%s n=%d poly=%d", s.name, ne, poly));
}
static void sp_solid() { solid(2); }
static void sp_solid3() { // three cells in a chain or a fan, glued on faces
  const Shape &s = SH[3 + choose(2)];
  M3 m; m.nd = 3; m.dim = 3; int next = 0;
  for (int e = 0; e < 3; e++) {
    V v(s.n, -1);
    if (e) { const V &o = m.el[choose(e)]; int f = choose((int)s.faces.size()), g = choose((int)s.faces.size()), n = (int)s.faces[f].size(), r = thorough() ? choose(n) : 0; for (int k = 0; k < n; k++) v[s.faces[g][k]] = o[s.faces[f][(n - 1 - k + r) % n]]; }
    for (auto &x : v) if (x < 0) x = next++;
    m.el.push_back(v);
  }

  no_twins(m); m.nv = next;
  for (auto &v : m.el) { std::vector<V> f; for (auto &q : s.faces) { V z; for (auto k : q) z.push_back(v[k]); f.push_back(z); } m.fc.push_back(f); }
  m.w = fmt("%s x3", s.name);
  Node mesh; coords(mesh, m, 0); finish(mesh, m, s.name, 0);
  judge(mesh, m);
  mc::outcome(fmt("%s n=3", s.name));
}
// fields carried over to sides
static void sp_fields() {
  int kind = 1 + choose(5); // tri quad tet hex; polygonal as 5
  bool polyg = kind == 5; const Shape &s = SH[polyg ? 2 : kind];
  int poly3 = s.dim == 3 && !polyg ? choose(2) : 0;
  int ne = 1 + choose(2), ft = choose(7), assoc = choose(3), sel = choose(4); // assoc: element, element volume dependent, vertex
  M3 m; m.dim = s.dim; m.nd = s.dim;
  // regular cells side by side, sharing a face
  int next = 0;
  for (int e = 0; e < ne; e++) {
    V v(s.n, -1);
    if (e) { const V &o = m.el[0]; if (s.dim == 2) { v[0] = o[s.n - 1]; v[1] = o[s.n - 2]; } else { auto &f = s.faces[1]; auto &g = s.faces[0]; int n = (int)f.size(); for (int k = 0; k < n; k++) v[g[k]] = o[f[(n - 1 - k) % n]]; } }
    for (auto &x : v) if (x < 0) x = next++;
    m.el.push_back(v);
  }
  m.nv = next;
  for (auto &v : m.el) { std::vector<V> f; for (auto &q : s.faces) { V z; for (auto k : q) z.push_back(v[k]); f.push_back(z); } m.fc.push_back(f); }
  Node mesh; coords(mesh, m, 0);
  // a regular first cell and a shifted second one; 2D counter-clockwise
  finish(mesh, m, poly3 ? "polyhedral" : polyg ? "polygonal" : s.name, 0);
  int cnt = assoc == 2 ? m.nv : ne;
  Node &f = mesh["fields/f"]; f["topology"] = "t"; f["association"] = assoc == 2 ? "vertex" : "element"; if (assoc == 1) f["volume_dependent"] = "true"; else if (ft % 2) f["volume_dependent"] = "false";
  std::vector<long> big; P val;
  for (int i = 0; i < cnt; i++) { big.push_back(ft == 0 ? (1L << 60) + 3 * i + 1 : 100 + 7 * i * i); val.push_back((double)big.back() + (ft >= 4 && ft != 6 ? 0.5 : 0)); }
  Node &fv = f["values"];
  switch (ft) {
  case 0: case 1: fv.set(DataType::int64(cnt)); for (int i = 0; i < cnt; i++) fv.as_int64_array()[i] = big[i]; break;
  case 2: fv.set(DataType::int32(cnt)); for (int i = 0; i < cnt; i++) fv.as_int32_array()[i] = (int)big[i]; break;
  case 3: fv.set(DataType::uint64(cnt)); for (int i = 0; i < cnt; i++) fv.as_uint64_array()[i] = big[i]; break;
  case 4: fv.set(DataType::float64(cnt)); for (int i = 0; i < cnt; i++) fv.as_float64_array()[i] = val[i]; break;
  case 5: fv.set(DataType::float32(cnt)); for (int i = 0; i < cnt; i++) fv.as_float32_array()[i] = (float)val[i]; break;
  default: { Schema sc; sc.set(DataType(DataType::INT32_ID, cnt, 4, 12, 4, conduit::Endianness::DEFAULT_ID)); fv.set(sc); for (int i = 0; i < cnt; i++) fv.as_int32_array()[i] = (int)big[i]; }
  }
  Node &g = mesh["fields/g"]; g["topology"] = "t"; g["association"] = "element"; g["values"].set(DataType::float64(ne)); for (int i = 0; i < ne; i++) g["values"].as_float64_array()[i] = i + 0.25;
  Node &u = mesh["fields/other"]; u["topology"] = "elsewhere"; u["association"] = "element"; u["values"].set(DataType::float64(3));
  Node opts; bool wf = true, wg = true; std::string pre;
  if (sel == 1) { opts["field_names"] = "f"; wg = false; }
  if (sel == 2) { opts["field_names"].append() = "g"; opts["field_names"].append() = "f"; opts["field_prefix"] = "p_"; pre = "p_"; }
  if (sel == 3) { opts["field_names"].append() = "g"; wf = false; }
  Node holder; Node &td = holder["topologies/side"], &cd = holder["coordsets/cc"], &fd = holder["fields"]; Node s2d, d2s;
  std::string before = dump(mesh), w = fmt("fields on %s%s x%d type %d assoc %d sel %d", s.name, poly3 ? " polyhedral" : polyg ? " polygonal" : "", ne, ft, assoc, sel);
  bt::generate_sides(mesh["topologies/t"], td, cd, fd, s2d, d2s, opts); mc::transition();
  if (dump(mesh) != before) fail("source-changed", w + ": the source changed");
  V d = geti(d2s["values"]); index_t ns = (index_t)d.size();
  if (fd.has_child(pre + "other")) fail("field-foreign", w);
  if (fd.has_child(pre + "f") != wf || fd.has_child(pre + "g") != wg) fail("field-selection", w + ": " + fd.to_json());
  V oe = geti(fd[pre + "original_element_ids/values"]), ov = geti(fd[pre + "original_vertex_ids/values"]);
  if (oe != d) fail("original-elements", w + fd.to_json());
  index_t np = cd["values/x"].dtype().number_of_elements();
  if ((index_t)ov.size() != np) fail("original-vertices", w);
  for (index_t i = 0; i < np; i++) if (ov[i] != (i < m.nv ? i : -1)) fail("original-vertices", w);
  if (wg) { P x = getd(fd[pre + "g"]["values"]); if ((index_t)x.size() != ns) fail("field-size", w); for (index_t i = 0; i < ns; i++) if (x[i] != d[i] + 0.25) fail("field-g", w + fd.to_json()); }
  if (wf) {
    const Node &o = fd[pre + "f"];
    if (o["association"].as_string() != f["association"].as_string()) fail("field-assoc", w);
    if (assoc == 0) {
      if (o["values"].dtype().number_of_elements() != ns) fail("field-size", w);
      if (ft < 4 || ft == 6) { auto a = o["values"].as_int64_accessor(); for (index_t i = 0; i < ns; i++) if (a[i] != big[d[i]]) fail("field-int", w + fmt(": side %d has %ld instead of %ld", (int)i, (long)a[i], big[d[i]])); }
      else { auto a = o["values"].as_float64_accessor(); for (index_t i = 0; i < ns; i++) if (a[i] != val[d[i]]) fail("field-float", w); }
    } else if (assoc == 1) {
      P x = getd(o["values"]), vol = getd(fd[pre + "volume/values"]); if ((index_t)x.size() != ns || (index_t)vol.size() != ns) fail("field-size", w);
      P sum(ne, 0), tot(ne, 0); for (index_t i = 0; i < ns; i++) { sum[d[i]] += x[i]; tot[d[i]] += vol[i]; }
      for (int e = 0; e < ne; e++) if (std::fabs(sum[e] - val[e]) > 1e-9 * std::fabs(val[e])) fail("field-volume", w + fmt(": the parts sum to %.17g instead of %.17g", sum[e], val[e]));
      for (index_t i = 0; i < ns; i++) if (std::fabs(x[i] * tot[d[i]] - val[d[i]] * vol[i]) > 1e-9 * std::fabs(val[d[i]] * tot[d[i]])) fail("field-share", w + ": a part does not get its share of the volume");
    } else {
      P x = getd(o["values"]); if ((index_t)x.size() != np) fail("field-size", w);
      for (int i = 0; i < m.nv; i++) if (x[i] != val[i]) fail("field-vertex", w);
      // new points: mean over the vertices they are the center of
      std::vector<P> c; for (int k = 0; k < m.nd; k++) c.push_back(getd(cd["values"][AX[k]]));
      for (index_t i = m.nv; i < np; i++) {
        P p; for (int k = 0; k < m.nd; k++) p.push_back(c[k][i]);
        bool hit = false;
        auto cand = [&](const S &q) { if (same(p, m.mean(q))) { double z = 0; for (auto v : q) z += val[v]; z /= (double)q.size(); hit = true; if (std::fabs(z - x[i]) > 1e-9 * std::fabs(z)) fail("field-center", w + fmt(": center value %.17g instead of %.17g", x[i], z)); } };
        for (auto &v : m.el) cand(S(v.begin(), v.end()));
        for (auto &fe : m.fc) for (auto &q : fe) cand(S(q.begin(), q.end()));
        if (!hit) fail("field-center-where", w);
      }
    }
  }
  mc::outcome(fmt("fields %s assoc=%d", s.name, assoc)); mc::checked();
}
int main(int argc, char **argv) {
  init();
  mc::Opt o; o.shard_depth = 5;
  return mc::main_(argc, argv, "B03",
                   {{"flat", sp_flat, o, "every mesh of up to 3 lines, triangles, quadrilaterals or polygons over 4 or 5 vertices in every vertex arrangement"},
                    {"solid", sp_solid, o, "every pair of tetrahedra, hexahedra, wedges, pyramids or polyhedra, disjoint or glued at any vertex, edge, three points of a face, or face"},
                    {"three", sp_solid3, o, "three tetrahedra or hexahedra glued on any faces"},
                    {"fields", sp_fields, o, "element, volume dependent and vertex fields of every number type carried to sides, with selection and prefix"}},
                   {"two elements with the same vertex set are excluded", "mixed topologies are excluded"});
}
