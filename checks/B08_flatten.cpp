// B08: flattening a mesh to a table lists every value in its row
#include "bmesh.hpp"
#include "gen.hpp"
using namespace cn;
using namespace gen;
using namespace bmx;
using mc::choose;
using mc::fail;
using mc::fmt;
using mc::thorough;
namespace bm = conduit::blueprint::mesh;
struct Col { std::string name; bool vertex; std::vector<std::string> comp; std::map<int, std::vector<std::vector<double>>> v; bool integral; };
static bool close(double a, double b, bool exact) { return exact ? a == b : std::fabs(a - b) <= 1e-5 * (1 + std::fabs(b)); }
// a field with distinct values; returns the expected components
static std::vector<std::vector<double>> field(Node &f, const char *topo, bool vertex, int form, int n, int seed) {
  // form: 0 double, 1 float, 2 int64, 3 uint8, 4 strided double, 5 vector of doubles, 6 vector int32 interleaved, 7 vector with a float and a double component, 8 list of two components, 9 int16
  f["topology"] = topo; f["association"] = vertex ? "vertex" : "element"; if (seed % 2) f["units"] = "m";
  int nc = form == 5 || form == 6 ? 3 : form == 7 || form == 8 ? 2 : 1;
  std::vector<std::vector<double>> r(nc);
  for (int c = 0; c < nc; c++) for (int i = 0; i < n; i++) r[c].push_back(seed * 20 + c * 7 + i + (form == 3 || form == 2 || form == 6 || form == 9 ? 0 : 0.5));
  Node &v = f["values"];
  static const char *CN[3] = {"u", "v", "w"};
  if (form == 6) { std::vector<int> buf(3 * n + 1); for (int c = 0; c < 3; c++) for (int i = 0; i < n; i++) buf[3 * i + c] = (int)r[c][i];
    Schema s; for (int c = 0; c < 3; c++) s[CN[c]].set(DataType(DataType::INT32_ID, n, 4 * c, 12, 4, conduit::Endianness::DEFAULT_ID));
    v.set(s, buf.data()); }
  else if (nc > 1) for (int c = 0; c < nc; c++) { Node &x = form == 8 ? v.append() : v[CN[c]]; reals(x, r[c], form == 7 && !c ? 1 : 0); }
  else if (form == 2) { v.set(DataType::int64(n)); for (int i = 0; i < n; i++) v.as_int64_array()[i] = (long)r[0][i]; }
  else if (form == 3) { v.set(DataType::uint8(n)); for (int i = 0; i < n; i++) v.as_uint8_array()[i] = (unsigned char)r[0][i]; }
  else if (form == 9) { v.set(DataType::int16(n)); for (int i = 0; i < n; i++) v.as_int16_array()[i] = (short)r[0][i]; }
  else reals(v, r[0], form == 4 ? 2 : form);
  return r;
}
static void judge(const Node &mesh, const std::vector<Dom> &D, const V &ids, std::vector<Col> cols, const Node &opts, bool info, bool cent, bool loc, double ffill, long ifill, const std::string &cs, const std::string &w0, bool poly) {
  std::string w = w0 + " options " + opts.to_json(), before = dump(mesh), ob = dump(opts);
  Node out; out["stale"] = 1;
  bm::flatten(mesh, opts, out); mc::transition();
  if (dump(mesh) != before || dump(opts) != ob) fail("source-changed", w + ": flatten changed its input");
  index_t nv = 0, ne = 0; for (auto &d : D) { nv += (index_t)d.pt.size(); ne += (index_t)d.cell.size(); }
  std::set<std::string> wantv, wante;
  bool anyv = loc, anye = cent;
  for (auto &c : cols) { (c.vertex ? wantv : wante).insert(c.name); (c.vertex ? anyv : anye) = true; }
  if (loc) wantv.insert(cs);
  if (cent) wante.insert("element_centers");
  if (anyv && info) { wantv.insert("domain_id"); wantv.insert("vertex_id"); }
  if (anye && info) { wante.insert("domain_id"); wante.insert("element_id"); }
  for (int tb = 0; tb < 2; tb++) {
    const char *tn = tb ? "element_data" : "vertex_data"; bool any = tb ? anye : anyv; index_t n = tb ? ne : nv; auto &want = tb ? wante : wantv;
    if (out.has_child(tn) != any) fail("table-presence", w + ": table " + tn + (any ? " is missing" : " is there although it is empty") + out.to_json());
    if (!any) continue;
    std::set<std::string> have; for (auto &x : out[tn]["values"].child_names()) have.insert(x);
    if (have != want) fail("columns", w + ": other columns in " + tn + ": " + out.schema().to_json());
    auto rows = [&](const Node &c) { if (c.dtype().number_of_elements() != n) fail("rows", w + fmt(": %d rows instead of %d in ", (int)c.dtype().number_of_elements(), (int)n) + c.path()); };
    const Node &tv = out[tn]["values"];
    if (info) {
      rows(tv["domain_id"]); rows(tv[tb ? "element_id" : "vertex_id"]);
      V a = geti(tv["domain_id"]), b = geti(tv[tb ? "element_id" : "vertex_id"]); size_t r = 0;
      for (size_t d = 0; d < D.size(); d++) for (size_t i = 0; i < (tb ? D[d].cell.size() : D[d].pt.size()); i++, r++) if (a[r] != ids[d] || b[r] != (index_t)i) fail("ids", w + fmt(": row %d of %s has ids %d/%d instead of %d/%d", (int)r, tn, (int)a[r], (int)b[r], (int)ids[d], (int)i));
    }
    if (tb ? cent : loc) {
      const Node &c = tv[tb ? "element_centers" : cs]; int nd = D[0].nd;
      if ((int)c.number_of_children() != nd) fail("axes", w + ": other axes: " + c.schema().to_json());
      for (int x = 0; x < nd; x++) {
        if (!c.has_child(AXN[x])) fail("axes", w + ": axis missing: " + c.schema().to_json());
        rows(c[AXN[x]]); P g = getd(c[AXN[x]]); size_t r = 0;
        for (auto &d : D) for (size_t i = 0; i < (tb ? d.cell.size() : d.pt.size()); i++, r++) { double z = tb ? d.center(i)[x] : d.pt[i][x]; if (!close(g[r], z, !tb)) fail(tb ? "center" : "location", w + fmt(": row %d of %s: %s is %.17g instead of %.17g", (int)r, tn, AXN[x], g[r], z)); }
      }
    }
    for (auto &c : cols) if (c.vertex != (bool)tb) {
      const Node &cn = tv[c.name];
      size_t nc = c.comp.empty() ? 1 : c.comp.size();
      if (nc != (size_t)(c.comp.empty() ? (cn.number_of_children() == 0) : cn.number_of_children())) fail("components", w + ": other components of " + c.name + ": " + cn.schema().to_json());
      for (size_t k = 0; k < nc; k++) {
        if (!c.comp.empty() && !c.comp[k].empty() && !cn.has_child(c.comp[k])) fail("components", w + ": component missing: " + cn.schema().to_json());
        const Node &x = c.comp.empty() ? cn : c.comp[k].empty() ? cn.child(k) : cn[c.comp[k]];
        rows(x); P g = getd(x); size_t r = 0; double fill = x.dtype().is_floating_point() ? ffill : (double)ifill;
        for (size_t d = 0; d < D.size(); d++) for (size_t i = 0; i < (tb ? D[d].cell.size() : D[d].pt.size()); i++, r++) {
          double z = c.v.count((int)d) ? c.v[(int)d][k][i] : fill;
          if (!close(g[r], z, true)) fail("value", w + fmt(": row %d of %s (domain %d): field %s component %d is %.17g instead of %.17g", (int)r, tn, (int)d, c.name.c_str(), (int)k, g[r], z));
        }
      }
    }
  }
  if (out.number_of_children() != (index_t)(anyv + anye)) fail("extra", w + ": other children of the result: " + out.schema().to_json());
  if (anyv || anye) { Node info2; if (!conduit::blueprint::table::verify(out, info2)) fail("table-invalid", w + ": the result is not a valid table: " + info2.to_json()); }
  (void)poly;
}
static std::vector<std::string> comps(int form) { if (form == 5 || form == 6) return {"u", "v", "w"}; if (form == 7) return {"u", "v"}; if (form == 8) return {"", ""}; return {}; }
// one or several domains of one kind, one field
static void sp_kinds() {
  int kind = choose(NKIND), nd = choose(4), wrap = nd == 0; int n = std::max(1, nd); // nd 0: the bare domain
  int cstyle = choose(5), istyle = cstyle == 0 ? choose(5) : cstyle == 1 ? 1 : 0, idm = choose(3);
  Node mesh; std::vector<Dom> D; V ids; std::vector<Col> cols(2);
  cols[0].name = "fe"; cols[0].vertex = false; cols[1].name = "fv"; cols[1].vertex = true;
  for (int d = 0; d < n; d++) {
    Node &m = wrap ? mesh : mesh[fmt("dom%d", n - d)];
    D.push_back(build(m, kind, (d + idm) % 3, d * 32, cstyle, istyle));
    ids.push_back(idm == 1 ? 40 - 7 * d : d);
    if (idm == 1 || (idm == 2 && d)) m["state/domain_id"] = idm == 1 ? (int)ids.back() : 99; // idm 2: one domain lacks the id, so positions count
    if (idm == 2 && n == 1) ids[0] = 0;
    cols[0].v[d] = field(m["fields/fe"], "t", false, 0, (int)D[d].cell.size(), d);
    cols[1].v[d] = field(m["fields/fv"], "t", true, 2, (int)D[d].pt.size(), d + 3);
  }
  Node opts; if (idm == 0) opts.reset();
  std::string w = fmt("%s, %d domains%s, coordinates %d, ids %d", KN[kind], n, wrap ? " (bare)" : "", cstyle, idm);
  judge(mesh, D, ids, cols, opts, true, true, true, 0, 0, "c", w, kind == POLYH);
  mc::outcome(KN[kind]); mc::checked();
}
// fields of every form, present or missing per domain, selections and fill values
static void sp_fields() {
  static const int KS[3] = {UNI2, TRI, POLYH}; int kind = KS[choose(3)], n = 1 + choose(3);
  int f1 = choose(10), f2 = choose(3), pres = choose(1 << n), sel = choose(4), fill = choose(4);
  bool vertex = choose(2); int alien = n > 1 && f1 < 6 && !f2 ? choose(2) : 0;
  Node mesh; std::vector<Dom> D; V ids; Col a, b; a.name = "zz"; a.vertex = vertex; a.comp = comps(f1); b.name = "b"; b.vertex = !vertex; static const int F2[3] = {1, 3, 5}; b.comp = comps(F2[f2]);
  for (int d = 0; d < n; d++) {
    Node &m = mesh.append(); m["state/domain_id"] = d + 10; ids.push_back(d + 10);
    D.push_back(build(m, kind, d, d * 32, 0, 0)); 
    auto cnt = [&](bool v) { return (int)(v ? D[d].pt.size() : D[d].cell.size()); };
    m["fields"]; // present, possibly empty
    if (pres >> d & 1) a.v[d] = field(m["fields/zz"], "t", vertex, f1, cnt(vertex), d);
    else if (alien && d) { build(m, LINE, 1, 0, 0, 0, "other", "oc"); if (d == 1) field(m["fields/zz"], "other", vertex, f1, vertex ? 3 : 2, 8); else { m["fields/zz/matset"] = "ms"; m["fields/zz/matset_values/a"].set(DataType::float64(1)); } } // the same name, another topology or material dependent
    if (d != 1) b.v[d] = field(m["fields/b"], "t", !vertex, F2[f2], cnt(!vertex), d + 4);
    // a field of another topology and a material dependent one must not appear
    if (d == 0) { build(m, LINE, 1, 0, 0, 0, "other", "oc"); field(m["fields/o"], "other", true, 0, 3, 9); m["fields/mat/matset"] = "ms"; m["fields/mat/matset_values/a"].set(DataType::float64(1)); }
  }
  Node opts; double ff = 0; long fi = 0; std::vector<Col> cols;
  if (sel == 1) { opts["field_names"].append() = "zz"; }
  if (sel == 2) { opts["field_names"].append() = "zz"; opts["field_names"].append() = "b"; opts["topology"] = "t"; }
  if (sel == 3) { opts["field_names"].append() = "missing"; opts["field_names"].append() = "o"; opts["field_names"].append() = "b"; }
  if (fill == 1) { opts["fill_value"] = 7; ff = 7; fi = 7; }
  if (fill == 2) { opts["fill_value/int"] = 3; fi = 3; }
  if (fill == 3) { opts["fill_value/float"] = -1.5; opts["fill_value/int"] = 5; ff = -1.5; fi = 5; }
  if (sel != 3 && pres) cols.push_back(a);
  if (sel != 1) cols.push_back(b);
  judge(mesh, D, ids, cols, opts, true, true, true, ff, fi, "c", fmt("%s x%d field form %d/%d present %d", KN[kind], n, f1, f2, pres), kind == POLYH);
  mc::outcome(fmt("form %d", f1)); mc::checked();
}
// all options, with and without fields
static void sp_options() {
  static const int KS[5] = {UNI2, RECT3, STR2, QUAD, POINTS}; int kind = KS[choose(5)], n = 1 + choose(2), bits = choose(8), fields = choose(4), named = choose(2);
  bool info = bits & 1, cent = bits & 2, loc = bits & 4;
  Node mesh; std::vector<Dom> D; V ids; std::vector<Col> cols;
  for (int k = 0; k < 2; k++) if (fields >> k & 1) { Col c; c.name = k ? "pv" : "ce"; c.vertex = k; cols.push_back(c); }
  for (int d = 0; d < n; d++) {
    Node &m = mesh[fmt("d%d", d)]; m["state/domain_id"] = d; ids.push_back(d);
    if (named) build(m, TRI, 1, 5, 0, 0, "first", "fc");
    D.push_back(build(m, kind, 1 + d, d * 32, 0, 0, "t", named ? "pts" : "c"));
    for (auto &c : cols) c.v[d] = field(m["fields"][c.name], "t", c.vertex, c.vertex ? 0 : 2, (int)(c.vertex ? D[d].pt.size() : D[d].cell.size()), d);
  }
  Node opts; if (!info || named) opts["add_domain_info"] = (int)info; if (!cent || named) opts["add_element_centers"] = (int)cent; if (!loc || named) opts["add_vertex_locations"] = (int)loc;
  if (named) opts["topology"] = "t";
  judge(mesh, D, ids, cols, opts, info, cent, loc, 0, 0, named ? "pts" : "c", fmt("%s x%d fields %d named %d", KN[kind], n, fields, named), false);
  mc::outcome(fmt("bits=%d", bits)); mc::checked();
}
// the same field or coordinates with different number types in the domains
static void sp_types() {
  int kind = choose(2) ? TRI : RECT2, n = 2 + choose(2); bool vertex = choose(2);
  Node mesh; std::vector<Dom> D; V ids; std::vector<Col> cols(1); cols[0].name = "f"; cols[0].vertex = vertex;
  std::string w = fmt("%s x%d", KN[kind], n);
  for (int d = 0; d < n; d++) {
    int ct = choose(5), ft = choose(5); static const int F[5] = {0, 1, 2, 3, 9};
    if (!thorough() && ct && ft && d > 1) throw mc::Abandon();
    Node &m = mesh[fmt("d%d", d)]; ids.push_back(d); m["state/domain_id"] = d;
    D.push_back(build(m, kind, d, d * 32, ct, 0));
    if (ct == 1) for (auto &p : D[d].pt) for (auto &x : p) x = (float)x;
    cols[0].v[d] = field(m["fields/f"], "t", vertex, F[ft], (int)(vertex ? D[d].pt.size() : D[d].cell.size()), d);
    w += fmt(" [%d %d]", ct, F[ft]);
  }
  Node opts;
  judge(mesh, D, ids, cols, opts, true, true, true, 0, 0, "c", w, false);
  mc::outcome("types"); mc::checked();
}
int main(int argc, char **argv) {
  init();
  mc::Opt o; o.shard_depth = 4;
  return mc::main_(argc, argv, "B08",
                   {{"kinds", sp_kinds, o, "every mesh kind x 1 to 3 domains x coordinate and index types x domain ids given, missing or partly missing"},
                    {"fields", sp_fields, o, "fields of 10 forms, present in every subset of the domains, other topologies, selections, fill values"},
                    {"options", sp_options, o, "all options on and off with and without fields and named topologies"},
                    {"types", sp_types, o, "different number types of coordinates and fields in different domains"}},
                   {"centers of polyhedra whose vertices lie on different numbers of faces are excluded", "column order inside a table and number types of columns are not judged"});
}
