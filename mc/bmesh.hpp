// small Blueprint domains of every kind with an independent description of their points and cells
#pragma once
#include "cnode.hpp"
#include "conduit_blueprint.hpp"
#include <cmath>
#include <set>
namespace bmx {
using conduit::Node;
using conduit::DataType;
using conduit::Schema;
using conduit::index_t;
typedef std::vector<index_t> V;
typedef std::vector<double> P;
inline void ints(Node &n, const V &v, int style) {
  int cnt = (int)v.size();
  switch (style) {
  case 0: n.set(DataType::int64(cnt)); for (int i = 0; i < cnt; i++) n.as_int64_array()[i] = v[i]; break;
  case 1: n.set(DataType::int32(cnt)); for (int i = 0; i < cnt; i++) n.as_int32_array()[i] = (int)v[i]; break;
  case 2: n.set(DataType::uint32(cnt)); for (int i = 0; i < cnt; i++) n.as_uint32_array()[i] = (unsigned)v[i]; break;
  case 3: n.set(DataType::uint64(cnt)); for (int i = 0; i < cnt; i++) n.as_uint64_array()[i] = (unsigned long)v[i]; break;
  default: {
    Schema s; s.set(DataType(DataType::INT32_ID, cnt, 4, 12, 4, conduit::Endianness::DEFAULT_ID));
    n.set(s);
    for (int i = 0; i < cnt; i++) n.as_int32_array()[i] = (int)v[i];
  } }
}
inline void reals(Node &n, const P &v, int style) { // 0 double, 1 float, 2 strided double, 3 int32, 4 int64
  int cnt = (int)v.size();
  if (style == 0) { n.set(DataType::float64(cnt)); for (int i = 0; i < cnt; i++) n.as_float64_array()[i] = v[i]; }
  else if (style == 1) { n.set(DataType::float32(cnt)); for (int i = 0; i < cnt; i++) n.as_float32_array()[i] = (float)v[i]; }
  else if (style == 2) { Schema s; s.set(DataType(DataType::FLOAT64_ID, cnt, 8, 24, 8, conduit::Endianness::DEFAULT_ID)); n.set(s); for (int i = 0; i < cnt; i++) n.as_float64_array()[i] = v[i]; }
  else if (style == 3) { n.set(DataType::int32(cnt)); for (int i = 0; i < cnt; i++) n.as_int32_array()[i] = (int)v[i]; }
  else { n.set(DataType::int64(cnt)); for (int i = 0; i < cnt; i++) n.as_int64_array()[i] = (long)v[i]; }
}
inline V geti(const Node &n) { V r; auto a = n.as_index_t_accessor(); for (index_t i = 0; i < a.number_of_elements(); i++) r.push_back(a[i]); return r; }
inline P getd(const Node &n) { P r; auto a = n.as_float64_accessor(); for (index_t i = 0; i < a.number_of_elements(); i++) r.push_back(a[i]); return r; }
struct Dom {
  int nd = 0; std::vector<P> pt; std::vector<V> cell; std::vector<std::vector<V>> faces; // faces only for polyhedra
  P center(size_t e) const { P r(nd, 0); for (auto v : cell[e]) for (int d = 0; d < nd; d++) r[d] += pt[v][d]; for (auto &x : r) x /= (double)cell[e].size(); return r; }
};
static const char *const AXN[3] = {"x", "y", "z"};
static const char *const IJKN[3] = {"i", "j", "k"};
enum Kind { UNI1, UNI2, UNI3, RECT2, RECT3, STR2, STR3, LINE, TRI, QUAD, TET, HEX, POLYG, POLYH, MIXED, POINTS, WEDGE, PYR, NKIND };
static const char *const KN[NKIND] = {"uniform1", "uniform2", "uniform3", "rectilinear2", "rectilinear3", "structured2", "structured3", "line", "tri", "quad", "tet", "hex", "polygonal", "polyhedral", "mixed", "points", "wedge", "pyramid"};
// builds topology "t" and coordset "c" in mesh; `size` 0..2 grows the domain, `shift` moves it in x
inline Dom build(Node &mesh, int kind, int size, double shift, int cstyle, int istyle, const char *tn = "t", const char *cname = "c") {
  Dom D; Node &t = mesh["topologies"][tn], &c = mesh["coordsets"][cname];
  t["coordset"] = cname;
  bool whole = cstyle >= 3; // integral coordinates
  if (kind <= STR3) {
    D.nd = kind == UNI1 ? 1 : (kind == UNI2 || kind == RECT2 || kind == STR2) ? 2 : 3;
    int np[3] = {1, 1, 1}; for (int d = 0; d < D.nd; d++) np[d] = 2 + (d == 0 ? size : d == 1 ? (size > 1) : 0);
    std::vector<P> ax(3, P(1, 0));
    for (int d = 0; d < D.nd; d++) { ax[d].clear(); for (int i = 0; i < np[d]; i++) ax[d].push_back(kind <= UNI3 ? (d ? 0.5 : shift) * 1.0 + i * (whole ? 2 : 0.25 * (d + 1)) : whole ? i * i + 2 * i + d + (d ? 0 : shift) : i * i * 0.5 + i + d + (d ? 0 : shift)); }
    if (kind <= UNI3 && whole) for (int d = 1; d < D.nd; d++) for (int i = 0; i < np[d]; i++) ax[d][i] = 1 + i * 2;
    for (int k = 0; k < np[2]; k++) for (int j = 0; j < np[1]; j++) for (int i = 0; i < np[0]; i++) { P p{ax[0][i], ax[1][j], ax[2][k]}; p.resize(D.nd); D.pt.push_back(p); }
    static const int C[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    for (int k = 0; k < std::max(1, np[2] - 1); k++) for (int j = 0; j < std::max(1, np[1] - 1); j++) for (int i = 0; i < std::max(1, np[0] - 1); i++) {
      V v; for (int q = 0; q < (1 << D.nd); q++) v.push_back((i + C[q][0]) + np[0] * ((j + C[q][1]) + (index_t)np[1] * (k + C[q][2])));
      D.cell.push_back(v);
    }
    if (kind <= UNI3) {
      t["type"] = "uniform"; c["type"] = "uniform";
      for (int d = 0; d < D.nd; d++) { if (istyle % 2) c["dims"][IJKN[d]].set_int32(np[d]); else c["dims"][IJKN[d]].set_int64(np[d]); }
      for (int d = 0; d < D.nd; d++) reals(c["origin"][AXN[d]], {ax[d][0]}, cstyle == 2 ? 0 : cstyle);
      for (int d = 0; d < D.nd; d++) reals(c["spacing"][std::string("d") + AXN[d]], {ax[d][1] - ax[d][0]}, cstyle == 2 ? 0 : cstyle);
    } else if (kind <= RECT3) {
      t["type"] = "rectilinear"; c["type"] = "rectilinear";
      for (int d = 0; d < D.nd; d++) reals(c["values"][AXN[d]], ax[d], cstyle);
    } else {
      t["type"] = "structured";
      for (int d = 0; d < D.nd; d++) ints(t["elements/dims"][IJKN[d]], {np[d] - 1}, istyle == 4 ? 1 : istyle);
    }
  } else {
    int n = 0; std::vector<V> e; std::vector<std::vector<V>> f; V shapes;
    D.nd = kind == LINE || kind == TRI || kind == QUAD || kind == POLYG ? 2 : 3;
    static const V HF[6] = {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
    for (int i = 0; i <= size; i++) {
      switch (kind) {
      case LINE: e.push_back({i + 1, i}); n = size + 2; break;
      case TRI: e.push_back({i, i + 1, i + 2}); n = size + 3; break;
      case QUAD: e.push_back({2 * i, 2 * i + 1, 2 * i + 3, 2 * i + 2}); n = 2 * size + 4; break;
      case TET: e.push_back({i, i + 1, i + 2, i + 3}); n = size + 4; break;
      case HEX: e.push_back({4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3, 4 * i + 4, 4 * i + 5, 4 * i + 6, 4 * i + 7}); n = 4 * size + 8; break;
      case WEDGE: e.push_back({3 * i, 3 * i + 1, 3 * i + 2, 3 * i + 3, 3 * i + 4, 3 * i + 5}); n = 3 * size + 6; break;
      case PYR: e.push_back({4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3, 4 * i + 4}); n = 4 * size + 5; break;
      case POLYG: { V v; for (int k = 0; k < 3 + (i + 1) % 3; k++) v.push_back(2 * i + k); e.push_back(v); n = 2 * size + 5; break; }
      case POLYH: {
        V v; for (int k = 0; k < 8; k++) v.push_back(4 * i + k);
        e.push_back(v); std::vector<V> q; for (auto &h : HF) { V z; for (auto k : h) z.push_back(v[k]); q.push_back(z); } f.push_back(q); n = 4 * size + 8; break; }
      case MIXED: if (i % 2) e.push_back({4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3}); else e.push_back({4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3, 4 * i + 4, 4 * i + 5, 4 * i + 6, 4 * i + 7}); shapes.push_back(i % 2 ? 10 : 12); n = 4 * size + 8; break;
      default: e.push_back({i}); n = size + 1;
      }
    }
    for (int v = 0; v < n; v++) {
      P p; for (int d = 0; d < D.nd; d++) p.push_back(whole ? (v * v * (d + 1) + d * 5 + 3 * v) % 97 + (d ? 0 : shift) : std::fmod(std::pow(v + 1.37, 2.3 + 0.21 * d) * 11.5, 13.0) + (d ? 0 : shift));
      if (!whole) for (auto &x : p) x = std::floor(x * 1024) / 1024;
      D.pt.push_back(p);
    }
    D.cell = e; D.faces = f;
    if (kind == POINTS) t["type"] = "points";
    else {
      t["type"] = "unstructured";
      t["elements/shape"] = kind == LINE ? "line" : kind == TRI ? "tri" : kind == QUAD ? "quad" : kind == TET ? "tet" : kind == HEX ? "hex" : kind == WEDGE ? "wedge" : kind == PYR ? "pyramid" : kind == POLYG ? "polygonal" : kind == POLYH ? "polyhedral" : "mixed";
      V conn, sz, of; index_t run = 0;
      if (kind == POLYH) {
        V fc, fs, fo; index_t fr = 0; std::map<std::set<index_t>, index_t> ids;
        for (auto &q : f) { sz.push_back((index_t)q.size()); of.push_back(run); run += (index_t)q.size(); for (auto &z : q) { std::set<index_t> s(z.begin(), z.end()); if (!ids.count(s)) { index_t id = (index_t)ids.size(); ids[s] = id; fs.push_back((index_t)z.size()); fo.push_back(fr); fr += (index_t)z.size(); fc.insert(fc.end(), z.begin(), z.end()); } conn.push_back(ids[s]); } }
        ints(t["elements/connectivity"], conn, istyle); ints(t["elements/sizes"], sz, istyle); ints(t["elements/offsets"], of, istyle);
        t["subelements/shape"] = "polygonal"; ints(t["subelements/connectivity"], fc, istyle); ints(t["subelements/sizes"], fs, istyle); ints(t["subelements/offsets"], fo, istyle);
      } else {
        for (auto &v : e) { conn.insert(conn.end(), v.begin(), v.end()); sz.push_back((index_t)v.size()); of.push_back(run); run += (index_t)v.size(); }
        if (kind == MIXED) { t["elements/shape_map/hex"] = 12; t["elements/shape_map/tet"] = 10; ints(t["elements/shapes"], shapes, istyle); }
        ints(t["elements/connectivity"], conn, istyle);
        if (kind == POLYG || kind == MIXED) { ints(t["elements/sizes"], sz, istyle); ints(t["elements/offsets"], of, istyle); }
      }
    }
  }
  if (kind >= STR2) { c["type"] = "explicit"; for (int d = 0; d < D.nd; d++) { P v; for (auto &p : D.pt) v.push_back(p[d]); reals(c["values"][AXN[d]], v, cstyle); } }
  return D;
}
} // namespace bmx
