// B05: partitioning and combining keep every cell and its field values exactly once
#include "bmesh.hpp"
#include "gen.hpp"
using namespace cn;
using namespace gen;
using namespace bmx;
using mc::choose;
using mc::fail;
using mc::fmt;
using mc::thorough;
namespace bm = conduit::blueprint::mesh;
typedef std::pair<index_t, index_t> Id; // domain id, element or vertex id
// reads the points and cells of any domain
static Dom read(const Node &dom, const std::string &tn, const std::string &w) {
  Dom D; const Node &t = dom["topologies"][tn]; const Node &c = dom["coordsets"][t["coordset"].as_string()];
  std::string ct = c["type"].as_string(), tt = t["type"].as_string();
  int np[3] = {1, 1, 1};
  if (ct == "explicit") { D.nd = (int)c["values"].number_of_children(); std::vector<P> a; for (int d = 0; d < D.nd; d++) a.push_back(getd(c["values"][AXN[d]])); for (size_t i = 0; i < a[0].size(); i++) { P p; for (auto &x : a) { if (x.size() != a[0].size()) fail("coordset", w + ": coordinate arrays of different lengths"); p.push_back(x[i]); } D.pt.push_back(p); } }
  else {
    std::vector<P> ax(3, P(1, 0));
    if (ct == "uniform") { D.nd = (int)c["dims"].number_of_children(); for (int d = 0; d < D.nd; d++) { int n = (int)c["dims"][IJKN[d]].to_int64(); double o = c.has_child("origin") && c["origin"].has_child(AXN[d]) ? c["origin"][AXN[d]].to_double() : 0, s = c.has_child("spacing") && c["spacing"].has_child(std::string("d") + AXN[d]) ? c["spacing"][std::string("d") + AXN[d]].to_double() : 1; ax[d].clear(); for (int i = 0; i < n; i++) ax[d].push_back(o + i * s); } }
    else { D.nd = (int)c["values"].number_of_children(); for (int d = 0; d < D.nd; d++) ax[d] = getd(c["values"][AXN[d]]); }
    for (int d = 0; d < 3; d++) np[d] = (int)ax[d].size();
    for (int k = 0; k < np[2]; k++) for (int j = 0; j < np[1]; j++) for (int i = 0; i < np[0]; i++) { P p{ax[0][i], ax[1][j], ax[2][k]}; p.resize(D.nd); D.pt.push_back(p); }
  }
  if (tt == "points") { for (index_t i = 0; i < (index_t)D.pt.size(); i++) D.cell.push_back({i}); return D; }
  if (tt != "unstructured") {
    if (tt == "structured") { np[0] = np[1] = np[2] = 1; for (int d = 0; d < D.nd; d++) np[d] = 1 + (t["elements/dims"].has_child(IJKN[d]) ? (int)t["elements/dims"][IJKN[d]].to_int64() : 0); if (np[0] * np[1] * np[2] != (int)D.pt.size()) fail("structured-size", w + ": the dims of the structured output do not match its points: " + dom.to_json()); }
    static const int C[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    for (int k = 0; k < std::max(1, np[2] - 1); k++) for (int j = 0; j < std::max(1, np[1] - 1); j++) for (int i = 0; i < std::max(1, np[0] - 1); i++) { V v; for (int q = 0; q < (1 << D.nd); q++) v.push_back((i + C[q][0]) + np[0] * ((j + C[q][1]) + (index_t)np[1] * (k + C[q][2]))); D.cell.push_back(v); }
    return D;
  }
  const Node &e = t["elements"]; std::string sh = e.has_child("shape") ? e["shape"].as_string() : "buckets";
  auto split = [&](const Node &n, int fixed) {
    std::vector<V> r; V c2 = geti(n["connectivity"]);
    if (fixed) { if (c2.size() % (size_t)fixed) fail("conn-size", w + ": incomplete connectivity"); for (size_t i = 0; i < c2.size(); i += (size_t)fixed) r.push_back(V(c2.begin() + (long)i, c2.begin() + (long)i + fixed)); return r; }
    V s = geti(n["sizes"]), o; if (n.has_child("offsets")) o = geti(n["offsets"]); else { index_t run = 0; for (auto x : s) { o.push_back(run); run += x; } }
    if (o.size() != s.size()) fail("conn-size", w + ": sizes and offsets differ in length");
    for (size_t i = 0; i < s.size(); i++) { if (o[i] < 0 || o[i] + s[i] > (index_t)c2.size()) fail("conn-size", w + ": a cell is outside its connectivity " + n.to_json()); r.push_back(V(c2.begin() + o[i], c2.begin() + o[i] + s[i])); }
    return r;
  };
  if (sh == "polyhedral") {
    auto fs = split(dom["topologies"][tn]["subelements"], 0);
    for (auto &q : split(e, 0)) { std::vector<V> f; std::set<index_t> s; for (auto x : q) { if (x < 0 || x >= (index_t)fs.size()) fail("face-id", w + ": a polyhedron refers to a face that is not there"); f.push_back(fs[(size_t)x]); s.insert(fs[(size_t)x].begin(), fs[(size_t)x].end()); } D.faces.push_back(f); D.cell.push_back(V(s.begin(), s.end())); }
  } else {
    auto one = [&](const Node &b) { std::string s = b["shape"].as_string(); auto r = split(b, s == "point" ? 1 : s == "line" ? 2 : s == "tri" ? 3 : s == "quad" || s == "tet" ? 4 : s == "pyramid" ? 5 : s == "wedge" ? 6 : s == "hex" ? 8 : 0); D.cell.insert(D.cell.end(), r.begin(), r.end()); };
    if (sh != "buckets") one(e); else for (auto &b : e.children()) one(b); // cells of several shapes: a list of topologies
  }
  for (auto &v : D.cell) for (auto x : v) if (x < 0 || x >= (index_t)D.pt.size()) fail("point-id", w + ": a cell refers to a point that is not there " + dom.to_json());
  return D;
}
struct Case {
  std::vector<Dom> D; V ids; Node mesh; std::string w; // ids[d] = id of domain d
  std::vector<Id> want; // the cells selected
  std::vector<int> fill; bool bare = false; // no fields
};
static double vval(const P &p) { double s = 1; for (size_t i = 0; i < p.size(); i++) s += p[i] * (double)(i * 3 + 1); return s; }
static double eval(index_t dom, size_t e) { return 100.0 * (double)(dom + 1) + (double)e; }
static double q(double x) { return std::floor(x * 4096 + 0.5) / 4096; }
static std::set<P> where(const Dom &d, const V &v) { std::set<P> r; for (auto i : v) { P p = d.pt[(size_t)i]; for (auto &x : p) x = q(x); r.insert(p); } return r; }
static std::set<std::set<P>> walls(const Dom &d, size_t e) { std::set<std::set<P>> r; if (e < d.faces.size()) for (auto &f : d.faces[e]) r.insert(where(d, f)); return r; }
static void add_fields(Node &m, const Dom &d, index_t id, int form) { // 0 double, 1 float, 2 strided double, 3 int32, 4 int64
  P a, b; for (size_t e = 0; e < d.cell.size(); e++) a.push_back(eval(id, e)); for (auto &p : d.pt) b.push_back(vval(p));
  Node &e = m["fields/e"]; e["association"] = "element"; e["topology"] = "t"; reals(e["values"], a, form);
  Node &v = m["fields/v"]; v["association"] = "vertex"; v["topology"] = "t"; reals(v["values"], b, form == 2 ? 2 : form == 1 ? 1 : 0);
  Node &x = m["fields/x"]; x["association"] = "element"; x["topology"] = "t"; if (form == 4) x["units"] = "m";
  P a2 = a; for (auto &z : a2) z = -z; reals(x["values/u"], a, form); reals(x["values/w"], a2, form);
}
static void add_domain(Case &c, int kind, int size, double shift, index_t id, bool state, int ndoms, int cstyle, int istyle, int form, int bare = 0) {
  Node &m = ndoms > 1 ? c.mesh[fmt("domain_%d", (int)c.D.size())] : c.mesh;
  Dom d = build(m, kind, size, shift, cstyle, istyle);
  if (bare) { for (auto n : {"origin", "spacing"}) if (bare & (n[0] == 'o' ? 1 : 2)) m["coordsets/c"].remove(n); d.pt = read(m, "t", "").pt; } // both are optional
  if (state) m["state/domain_id"].set_int64(id);
  if (form >= 0) add_fields(m, d, id, form); else c.bare = true;
  Node info; if (!bm::verify(m, info)) fail("harness-invalid", m.to_json() + info.to_json());
  c.D.push_back(d); c.ids.push_back(id);
}
static std::vector<const Node *> domains(const Node &o) { std::vector<const Node *> r; if (o.dtype().is_empty()) return r; if (o.has_child("topologies")) r.push_back(&o); else for (index_t i = 0; i < o.number_of_children(); i++) r.push_back(&o[i]); return r; }
static void judge(Case &c, const Node &opts, int ndom) {
  std::string w = c.w + " options " + opts.to_json(), before = dump(c.mesh), ob = dump(opts);
  bool mapping = !opts.has_child("mapping") || opts["mapping"].to_int() != 0;
  std::string eid = opts.has_child("original_element_ids") ? opts["original_element_ids"].as_string() : "original_element_ids", vid = opts.has_child("original_vertex_ids") ? opts["original_vertex_ids"].as_string() : "original_vertex_ids";
  std::set<std::string> fields{"e", "v", "x"}; if (c.bare) fields.clear();
  if (opts.has_child("fields")) { fields.clear(); for (auto &f : opts["fields"].children()) fields.insert(f.as_string()); if (c.bare) fields.clear(); }
  Node out; out["stale"] = 1;
  bm::partition(c.mesh, opts, out); mc::transition();
  if (dump(c.mesh) != before || dump(opts) != ob) fail("source-changed", w + ": partition changed its input");
  auto od = domains(out);
  if (ndom >= 0 && (int)od.size() != ndom) fail("domain-count", w + fmt(": %d domains instead of %d", (int)od.size(), ndom));
  if (od.size()) { Node info; if (!bm::verify(out, info)) fail("invalid", w + ": the output is not a valid mesh: " + out.to_json() + " " + info.to_json()); }
  std::multiset<Id> got; std::map<index_t, const Dom *> by; for (size_t i = 0; i < c.D.size(); i++) by[c.ids[i]] = &c.D[i];
  std::multiset<std::set<P>> shapes, wshapes;
  for (auto x : c.want) wshapes.insert(where(*by[x.first], by[x.first]->cell[(size_t)x.second]));
  for (auto *p : od) {
    std::string tn = (*p)["topologies"][0].name();
    if (tn != "t" || (*p)["coordsets"][0].name() != "c") fail("names", w + ": the topology or coordinate set has another name");
    Dom d = read(*p, tn, w);
    if (d.cell.empty()) fail("empty-domain", w + ": an empty domain");
    for (size_t e = 0; e < d.cell.size(); e++) shapes.insert(where(d, d.cell[e]));
    auto fld = [&](const char *n, bool want) -> const Node * { bool has = p->has_path(std::string("fields/") + n); if (has != want) fail("field-presence", w + ": field " + n + (want ? " is missing" : " is there") + " " + p->to_json()); return has ? &(*p)["fields"][n] : nullptr; };
    const Node *fe = fld("e", fields.count("e")), *fv = fld("v", fields.count("v")), *fx = fld("x", fields.count("x")), *me = fld(eid.c_str(), mapping), *mv = fld(vid.c_str(), mapping);
    auto len = [&](const Node &n, size_t k, const char *what) { if (n.dtype().number_of_elements() != (index_t)k) fail("field-length", w + ": field " + what + " has another number of values " + p->to_json()); };
    auto meta = [&](const Node &f, const char *as) { if (f["association"].as_string() != as || f["topology"].as_string() != "t") fail("field-meta", w + ": another association or topology " + f.to_json()); };
    if (fv) { meta(*fv, "vertex"); len((*fv)["values"], d.pt.size(), "v"); P v = getd((*fv)["values"]); for (size_t i = 0; i < v.size(); i++) if (std::fabs(v[i] - vval(d.pt[i])) > 1e-3) fail("vertex-value", w + fmt(": the value of a point is %g instead of %g: ", v[i], vval(d.pt[i])) + p->to_json()); }
    if (!mapping) { if (fe) { meta(*fe, "element"); len((*fe)["values"], d.cell.size(), "e"); P v = getd((*fe)["values"]);
        for (size_t e = 0; e < v.size(); e++) { bool ok = false; for (auto x : c.want) if (eval(x.first, (size_t)x.second) == v[e] && where(*by[x.first], by[x.first]->cell[(size_t)x.second]) == where(d, d.cell[e])) ok = true; if (!ok) fail("element-value", w + ": a cell has the value of another cell " + p->to_json()); } }
      continue; }
    meta(*me, "element"); meta(*mv, "vertex");
    for (auto k : {"domains", "ids"}) { len((*me)["values"][k], d.cell.size(), "original_element_ids"); len((*mv)["values"][k], d.pt.size(), "original_vertex_ids"); }
    V ed = geti((*me)["values/domains"]), ei = geti((*me)["values/ids"]), vd = geti((*mv)["values/domains"]), vi = geti((*mv)["values/ids"]);
    for (size_t i = 0; i < d.pt.size(); i++) {
      if (!by.count(vd[i]) || vi[i] < 0 || vi[i] >= (index_t)by[vd[i]]->pt.size()) fail("vertex-origin", w + fmt(": point %d is said to come from vertex %d of domain %d, which is not there: ", (int)i, (int)vi[i], (int)vd[i]) + p->to_json());
      if (where(d, {(index_t)i}) != where(*by[vd[i]], {vi[i]})) fail("vertex-origin", w + fmt(": point %d is said to come from vertex %d of domain %d, which is elsewhere: ", (int)i, (int)vi[i], (int)vd[i]) + p->to_json());
    }
    P v, vu, vw;
    if (fe) { meta(*fe, "element"); len((*fe)["values"], d.cell.size(), "e"); v = getd((*fe)["values"]); }
    if (fx) { meta(*fx, "element"); len((*fx)["values/u"], d.cell.size(), "x"); len((*fx)["values/w"], d.cell.size(), "x"); vu = getd((*fx)["values/u"]); vw = getd((*fx)["values/w"]); }
    for (size_t e = 0; e < d.cell.size(); e++) {
      if (!by.count(ed[e]) || ei[e] < 0 || ei[e] >= (index_t)by[ed[e]]->cell.size()) fail("element-origin", w + fmt(": cell %d is said to come from cell %d of domain %d, which is not there: ", (int)e, (int)ei[e], (int)ed[e]) + p->to_json());
      got.insert({ed[e], ei[e]});
      const Dom &o = *by[ed[e]]; size_t k = (size_t)ei[e];
      if (where(d, d.cell[e]) != where(o, o.cell[k])) fail("geometry", w + fmt(": cell %d is not where cell %d of domain %d is: ", (int)e, (int)k, (int)ed[e]) + p->to_json());
      if (o.faces.size() && walls(d, e) != walls(o, k)) fail("faces", w + fmt(": cell %d has other faces than cell %d of domain %d: ", (int)e, (int)k, (int)ed[e]) + p->to_json());
      if (!o.faces.size() && !d.faces.size()) { // same order of vertices, up to where it starts
        std::vector<std::set<P>> a, b; for (auto x : d.cell[e]) a.push_back(where(d, {x})); for (auto x : o.cell[k]) b.push_back(where(o, {x}));
        bool turned = false; // grids may be combined to one structured grid that runs in another direction
        if (a != b && a.size() == b.size() && (*p)["topologies"][tn]["type"].as_string() == "structured") { auto edges = [](const std::vector<std::set<P>> &q) { std::set<std::set<std::set<P>>> r; size_t n = q.size() == 8 ? 4 : q.size(); for (size_t i = 0; i < n; i++) { r.insert({q[i], q[(i + 1) % n]}); if (q.size() == 8) { r.insert({q[4 + i], q[4 + (i + 1) % 4]}); r.insert({q[i], q[4 + i]}); } } return r; }; turned = edges(a) == edges(b); }
        if (a != b && !turned) fail("vertex-order", w + fmt(": the vertices of cell %d are in another order: ", (int)e) + p->to_json());
      }
      double x = eval(ed[e], k);
      if (fe && v[e] != x) fail("element-value", w + fmt(": cell %d has the value %g instead of %g: ", (int)e, v[e], x) + p->to_json());
      if (fx && (vu[e] != x || vw[e] != -x)) fail("element-value", w + fmt(": cell %d has other components: ", (int)e) + p->to_json());
    }
  }
  if (mapping) { std::multiset<Id> wn(c.want.begin(), c.want.end()); if (got != wn) { std::string s; for (auto x : wn) s += fmt(" %d/%d", (int)x.first, (int)x.second); s += " but are"; for (auto x : got) s += fmt(" %d/%d", (int)x.first, (int)x.second); fail("cells", w + ": the cells should be" + s + ": " + out.to_json()); } }
  else if (shapes != wshapes) fail("cells", w + ": other cells: " + out.to_json());
  // and back
  if (mapping && fields.count("e") && fields.count("x")) {
    Node back(c.mesh), bo; back.set(c.mesh);
    if (opts.has_child("original_element_ids")) bo["original_element_ids"] = eid;
    if (opts.has_child("original_vertex_ids")) bo["original_vertex_ids"] = vid;
    bo["fields"].append() = "e"; bo["fields"].append() = "x";
    std::set<Id> sel(c.want.begin(), c.want.end());
    auto dd = bm::domains(back);
    for (auto *m : dd) for (auto n : {"e/values", "x/values/u", "x/values/w"}) { Node &f = (*m)["fields"][n]; Node z(f.dtype()); P zero((size_t)f.dtype().number_of_elements(), 7); DataType t = f.dtype(); if (t.is_float64()) for (index_t i = 0; i < t.number_of_elements(); i++) f.as_float64_array()[i] = 7; else if (t.is_float32()) for (index_t i = 0; i < t.number_of_elements(); i++) f.as_float32_array()[i] = 7; else if (t.is_int32()) for (index_t i = 0; i < t.number_of_elements(); i++) f.as_int32_array()[i] = 7; else for (index_t i = 0; i < t.number_of_elements(); i++) f.as_int64_array()[i] = 7; }
    std::string outb = dump(out);
    bm::partition_map_back(out, bo, back); mc::transition();
    if (dump(out) != outb) fail("source-changed", w + ": mapping back changed the parts");
    for (size_t i = 0; i < dd.size(); i++) {
      const Node &m = *dd[i];
      for (auto n : {"e/values", "x/values/u", "x/values/w"}) {
        const Node &f = m["fields"][n]; if (f.dtype().number_of_elements() != (index_t)c.D[i].cell.size()) fail("back-length", w + ": a field mapped back has another length " + m.to_json());
        P v = getd(f); for (size_t e = 0; e < v.size(); e++) { double x = sel.count({c.ids[i], (index_t)e}) ? eval(c.ids[i], e) * (std::string(n) == "x/values/w" ? -1 : 1) : 7; if (v[e] != x) fail("back-value", w + fmt(": mapped back, cell %d of domain %d has the value %g instead of %g: ", (int)e, (int)i, v[e], x) + m.to_json()); }
      }
    }
  }
  mc::checked();
}
static V ids_style(int st) { if (st == 0) return {0, 1, 2}; if (st == 1) return {5, 3, 9}; return {2, 0, 1}; }
static void target(Node &o, int t) { if (t) { if (t % 2) o["target"] = t; else o["target"].set_int64(t); } }
static void variant(Node &o, int v) { // 1 no mapping, 2 some fields, 3 other names
  if (v == 1) o["mapping"] = 0;
  if (v == 2) { o["fields"].append() = "v"; o["fields"].append() = "e"; }
  if (v == 3) { o["original_element_ids"] = "oe"; o["original_vertex_ids"] = "ov"; }
}
static int kind_() { int k = choose(NKIND - 1); return k >= MIXED ? k + 1 : k; } // the partitioner does not know mixed topologies
static void pick(Case &c, int d, index_t e) { c.want.push_back({c.ids[(size_t)d], e}); }
static void style_of(int s, int &cs, int &is, int &fm) { cs = s == 1 ? 1 : s == 2 ? 2 : s == 3 ? 3 : s == 4 ? 4 : 0; is = s; fm = s; }
// element lists, in every order
static void sp_explicit() {
  Case c; int kind = kind_(), st = choose(5), size = choose(3), idst = choose(2);
  if (st && size != 1) throw mc::Abandon();
  int cs, is, fm; style_of(st, cs, is, fm);
  add_domain(c, kind, size, 0, ids_style(idst)[0], idst, 1, cs, is, fm);
  int n = (int)c.D[0].cell.size();
  Node o; V pool, l; for (int i = 0; i < n; i++) pool.push_back(i);
  int cnt = 1 + choose(std::min(n, thorough() ? 4 : 3));
  for (int k = 0; k < cnt; k++) { int i = choose((int)pool.size()); l.push_back(pool[(size_t)i]); pool.erase(pool.begin() + i); }
  Node &s = o["selections"].append(); s["type"] = "explicit"; ints(s["elements"], l, st);
  if (idst) s["domain_id"] = (int)c.ids[0];
  int vr = choose(4); if (vr && cnt > 2 && !thorough()) throw mc::Abandon();
  if (st % 2) s["topology"] = "t";
  for (auto e : l) pick(c, 0, e);
  int t = choose(5); target(o, t); variant(o, vr);
  c.w = fmt("%s size %d style %d", KN[kind], size, st);
  judge(c, o, t ? std::min(t, cnt) : 1);
  mc::outcome(fmt("explicit %s n=%d t=%d", KN[kind], cnt, t));
}
static void sp_ranges() {
  Case c; int kind = kind_(), st = choose(5), size = choose(3);
  if (st && size != 1) throw mc::Abandon();
  int cs, is, fm; style_of(st, cs, is, fm);
  add_domain(c, kind, size, 0, 0, false, 1, cs, is, fm);
  int n = (int)c.D[0].cell.size(); V r; int nr = 1 + choose(2); std::set<index_t> sel; bool over = false;
  for (int k = 0; k < nr; k++) { int a = choose(n), b = a + choose(n - a); r.push_back(a); r.push_back(b); for (int e = a; e <= b; e++) over |= !sel.insert(e).second; }
  if (over) throw mc::Abandon();
  Node o; Node &s = o["selections"].append(); s["type"] = "ranges"; ints(s["ranges"], r, st);
  for (auto e : sel) pick(c, 0, e);
  int t = choose(5); target(o, t); variant(o, choose(4));
  c.w = fmt("%s size %d style %d", KN[kind], size, st);
  judge(c, o, t ? std::min(t, (int)sel.size()) : 1);
  mc::outcome(fmt("ranges %s n=%d t=%d", KN[kind], (int)sel.size(), t));
}
static void sp_logical() {
  Case c; int kind = choose(LINE), st = choose(5), size = choose(4);
  if (st && size != 1) throw mc::Abandon();
  int cs, is, fm; style_of(st, cs, is, fm);
  add_domain(c, kind, size, 0, 0, false, 1, cs, is, fm, kind <= UNI3 && !st ? choose(4) : 0);
  int nd = c.D[0].nd, ne[3] = {1, 1, 1}; for (int d = 0; d < nd; d++) ne[d] = 1 + (d == 0 ? size : d == 1 ? size > 1 : 0);
  V a(3, 0), b(3, 0); int cnt = 1; for (int d = 0; d < nd; d++) { a[d] = choose(ne[d]); b[d] = a[d] + choose(ne[d] - (int)a[d]); cnt *= (int)(b[d] - a[d] + 1); }
  Node o; Node &s = o["selections"].append(); s["type"] = "logical"; ints(s["start"], a, st); ints(s["end"], b, st);
  for (index_t k = a[2]; k <= b[2]; k++) for (index_t j = a[1]; j <= b[1]; j++) for (index_t i = a[0]; i <= b[0]; i++) pick(c, 0, i + ne[0] * (j + ne[1] * k));
  int t = choose(6); target(o, t); variant(o, choose(4));
  c.w = fmt("%s size %d style %d", KN[kind], size, st);
  judge(c, o, t ? std::min(t, cnt) : 1);
  mc::outcome(fmt("logical %s n=%d t=%d", KN[kind], cnt, t));
}
static double width(const Dom &d) { double lo = 1e9, hi = -1e9; for (auto &p : d.pt) { lo = std::min(lo, p[0]); hi = std::max(hi, p[0]); } return hi - lo; }
static void some_domains(Case &c, int n, int idst, int k0, int k1, int place, int cs, int is, int fm, int s0, int s1) {
  double sh = 0; V ids = ids_style(idst);
  for (int i = 0; i < n; i++) { add_domain(c, i % 2 ? k1 : k0, i == 0 ? s0 : i == 1 ? s1 : 0, sh, ids[(size_t)i], idst, n, cs, is, fm); sh = place == 0 ? sh + width(c.D.back()) : place == 1 ? sh + 64 : sh; }
}
static int tdim(int k, int nd) { return k == POINTS ? 0 : k == LINE ? 1 : k == TRI || k == QUAD || k == POLYG ? 2 : nd; }
static bool same_dim(int a, int b) { Node m1, m2; int n1 = build(m1, a, 0, 0, 0, 0).nd, n2 = build(m2, b, 0, 0, 0, 0).nd; return n1 == n2 && tdim(a, n1) == tdim(b, n2); }
// everything selected: 1-3 domains of two kinds, next to each other, apart or on top of each other
static void sp_whole() {
  Case c; int n = 1 + choose(3), k0 = kind_(), k1 = n > 1 ? kind_() : k0, place = n > 1 ? choose(3) : 0, idst = n > 1 ? choose(3) : choose(2);
  if (!same_dim(k0, k1)) throw mc::Abandon();
  int s0 = choose(3), s1 = n > 1 ? choose(2) : 0, st = choose(4);
  if (st && (s0 != 1 || s1)) throw mc::Abandon();
  if (n == 3 && (s0 == 2 || (!thorough() && s1))) throw mc::Abandon();
  if (!thorough() && n > 1 && k0 != k1 && st) throw mc::Abandon();
  if (!thorough() && n == 3 && (idst == 2 || (k0 != k1 && place == 2))) throw mc::Abandon();
  some_domains(c, n, idst, k0, k1, place, st == 1 ? 1 : 0, st % 3, st == 3 ? -1 : st, s0, s1);
  size_t total = 0; for (size_t d = 0; d < c.D.size(); d++) { for (size_t e = 0; e < c.D[d].cell.size(); e++) pick(c, (int)d, (index_t)e); total += c.D[d].cell.size(); }
  Node o; int t = choose(5); target(o, t); variant(o, choose(n == 3 ? (thorough() ? 2 : 1) : k0 != k1 && !thorough() ? 2 : 4));
  c.w = fmt("%d domains %s,%s place %d sizes %d,%d style %d", n, KN[k0], KN[k1], place, s0, s1, st);
  judge(c, o, t ? std::min(t, (int)total) : n);
  mc::outcome(fmt("whole %s,%s n=%d t=%d", KN[k0], KN[k1], n, t));
}
// a field names the domain of every cell
static void sp_field() {
  Case c; int n = 1 + choose(2), k0 = kind_(), k1 = n > 1 && choose(2) ? kind_() : k0, idst = choose(2);
  if (!same_dim(k0, k1)) throw mc::Abandon();
  int s0 = choose(3), s1 = 0, st = choose(5); if (st && (s0 != 1 || n > 1)) throw mc::Abandon();
  some_domains(c, n, idst, k0, k1, 0, 0, 0, 0, s0, s1);
  bool any = choose(2); std::set<index_t> named; std::vector<std::pair<index_t, Id>> to; V val[2];
  for (int d = 0; d < n; d++) {
    V &f = val[d]; for (size_t e = 0; e < c.D[(size_t)d].cell.size(); e++) f.push_back(e < (size_t)(n > 1 && !thorough() ? (k0 == k1 ? 3 : 1) : 4) ? (index_t)choose(3) * 2 : (index_t)0);
    Node &m = n > 1 ? c.mesh[d] : c.mesh; Node &x = m["fields/part"]; x["association"] = "element"; x["topology"] = "t"; ints(x["values"], f, st);
  }
  Node o;
  auto selfield = [&](int d) { Node &s = o["selections"].append(); s["type"] = "field"; s["field"] = "part"; if (d < 0) s["domain_id"] = "any"; else s["domain_id"] = (int)c.ids[(size_t)d]; s["topology"] = "t"; };
  int only = any ? -1 : choose(n + 1) - 1; // -1: every domain
  if (any) selfield(-1); else for (int d = 0; d < n; d++) if (only < 0 || only == d) selfield(d);
  for (int d = 0; d < n; d++) if (only < 0 || only == d) for (size_t e = 0; e < c.D[(size_t)d].cell.size(); e++) { pick(c, d, (index_t)e); named.insert(val[d][e]); }
  c.w = fmt("%d domains %s,%s sizes %d,%d style %d", n, KN[k0], KN[k1], s0, s1, st);
  o["fields"].append() = "e"; o["fields"].append() = "v"; o["fields"].append() = "x";
  judge(c, o, (int)named.size());
  // the domains have the numbers that the field names
  Node out; bm::partition(c.mesh, o, out);
  std::map<Id, index_t> dest; for (int d = 0; d < n; d++) for (size_t e = 0; e < val[d].size(); e++) dest[{c.ids[(size_t)d], (index_t)e}] = val[d][e];
  for (auto *p : domains(out)) { index_t id = (*p)["state/domain_id"].to_int64(); V ed = geti((*p)["fields/original_element_ids/values/domains"]), ei = geti((*p)["fields/original_element_ids/values/ids"]); for (size_t i = 0; i < ed.size(); i++) if (dest[{ed[i], ei[i]}] != id) fail("destination", c.w + ": a cell is in another domain than its field says: " + out.to_json()); }
  mc::outcome(fmt("field %s,%s n=%d parts=%d", KN[k0], KN[k1], n, (int)named.size()));
}
// two selections of one or two domains
static void sp_two() {
  Case c; int n = 1 + choose(2), k0 = kind_(), k1 = n > 1 ? kind_() : k0, place = n > 1 ? choose(3) : 0;
  if (!same_dim(k0, k1)) throw mc::Abandon();
  if (n > 1 && k0 != k1 && !thorough() && place) throw mc::Abandon();
  int s0 = 1 + choose(2), s1 = 1; some_domains(c, n, 1, k0, k1, place, 0, 0, 0, s0, s1);
  Node o; std::set<Id> used; int total = 0;
  for (int k = 0; k < 2; k++) {
    int d = n > 1 ? k : 0, ne = (int)c.D[(size_t)d].cell.size(); if (ne > 3) ne = 3;
    int mask = 1 + choose((1 << ne) - 1); V l; for (int e = 0; e < ne; e++) if (mask >> e & 1) { l.push_back(e); if (!used.insert({d, e}).second) throw mc::Abandon(); pick(c, d, e); total++; }
    Node &s = o["selections"].append(); s["domain_id"] = (int)c.ids[(size_t)d];
    if (l.size() == 1 && k) { s["type"] = "ranges"; ints(s["ranges"], {l[0], l[0]}, 0); } else { s["type"] = "explicit"; ints(s["elements"], l, 0); }
  }
  int t = choose(4); target(o, t); variant(o, choose(2));
  c.w = fmt("%d domains %s,%s place %d size %d", n, KN[k0], KN[k1], place, s0);
  judge(c, o, t ? std::min(t, total) : 2);
  mc::outcome(fmt("two %s,%s n=%d t=%d", KN[k0], KN[k1], n, t));
}
int main(int argc, char **argv) {
  cn::init();
  mc::Opt o; o.shard_depth = 5;
  return mc::main_(argc, argv, "B05", {
                    {"explicit", sp_explicit, o, "one domain of each of 18 kinds; every ordered list of up to 3 elements; targets 0-4; options"},
                    {"ranges", sp_ranges, o, "one domain of each kind; every one or two disjoint ranges"},
                    {"logical", sp_logical, o, "uniform, rectilinear and structured domains; every logical box"},
                    {"whole", sp_whole, o, "1-3 domains of every pair of kinds side by side, apart or on top of each other, without selections; targets 0-4"},
                    {"field", sp_field, o, "1-2 domains; every assignment of up to 4 cells each to 3 destination domains"},
                    {"two", sp_two, o, "every pair of disjoint selections of one or two domains"}},
                   {"vertex fields mapped back, adjacency sets and material sets of partitions, and MPI partitions are not covered"});
}
