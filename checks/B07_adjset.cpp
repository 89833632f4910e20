// B07: adjacency sets: conversions, predicates, canonical names and queries
#include "cnode.hpp"
#include "gen.hpp"
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_mesh_utils.hpp"
#include <algorithm>
using namespace cn;
using namespace gen;
using mc::choose;
using mc::fail;
using mc::fmt;
using mc::thorough;
namespace adj = conduit::blueprint::mesh::adjset;
namespace uadj = conduit::blueprint::mesh::utils::adjset;
typedef std::vector<index_t> V;

static void ints(Node &n, const V &v, int style) {
  int cnt = (int)v.size();
  switch (style) {
  case 0: n.set(DataType::int64(cnt)); for (int i = 0; i < cnt; i++) n.as_int64_array()[i] = v[i]; break;
  case 1: n.set(DataType::int32(cnt)); for (int i = 0; i < cnt; i++) n.as_int32_array()[i] = (int)v[i]; break;
  case 2: n.set(DataType::uint8(cnt)); for (int i = 0; i < cnt; i++) n.as_uint8_array()[i] = (unsigned char)v[i]; break;
  default: {
    Schema s; s.set(DataType(DataType::INT16_ID, cnt, 2, 6, 2, conduit::Endianness::DEFAULT_ID));
    n.set(s);
    for (int i = 0; i < cnt; i++) n.as_int16_array()[i] = (short)v[i];
  } }
}
static V get(const Node &n) {
  V r; conduit::index_t_accessor a = n.as_index_t_accessor();
  for (index_t i = 0; i < a.number_of_elements(); i++) r.push_back(a[i]);
  return r;
}
// a sharing pattern of global entities among domains and one way to write it
struct G { std::vector<int> mem; V ents; std::string name; }; // member domains (indices), global entities
struct Pat {
  int D = 2, E = 0; std::vector<int> share; // mask of each entity
  std::vector<G> groups; V ids; int style = 0, nbr_order = 0;
  std::vector<int> rep; bool split = false;
  index_t local(int d, int e) const { return (e * 5 + d * 3) % 7 + (index_t)d; }
  int global(int d, index_t l) const { for (int e = 0; e < E; e++) if ((share[e] >> d & 1) && local(d, e) == l) return e; return -1; }
  std::string str() const {
    std::string s = fmt("D=%d", D);
    for (auto &g : groups) { s += " " + g.name + ":{"; for (int m : g.mem) s += fmt("%d,", (int)ids[m]); s += "}="; for (auto e : g.ents) s += fmt("%d,", (int)e); }
    return s;
  }
};
static void mesh_base(Node &dom, index_t id) {
  dom["state/domain_id"].set_int64(id);
  dom["coordsets/c/type"] = "explicit";
  double x[12], y[12]; for (int i = 0; i < 12; i++) { x[i] = i; y[i] = (double)id; }
  dom["coordsets/c/values/x"].set(x, 12); dom["coordsets/c/values/y"].set(y, 12);
  dom["topologies/t/type"] = "unstructured"; dom["topologies/t/coordset"] = "c";
  dom["topologies/t/elements/shape"] = "line";
  int c[2] = {0, 1}; dom["topologies/t/elements/connectivity"].set(c, 2);
}
static void build(const Pat &p, Node &mesh) {
  for (int d = 0; d < p.D; d++) {
    Node &dom = mesh[fmt("dom%d", d)];
    mesh_base(dom, p.ids[d]);
    Node &a = dom["adjsets/a"];
    a["association"] = "vertex"; a["topology"] = "t";
    a["groups"].set(DataType::object());
    std::vector<G> gs = p.groups;
    if (d & 1) std::reverse(gs.begin(), gs.end()); // the order of the groups is each domain's own
    for (auto &g : gs) {
      if (std::find(g.mem.begin(), g.mem.end(), d) == g.mem.end()) continue;
      V nb, va;
      for (int m : g.mem) if (m != d) nb.push_back(p.ids[m]);
      if (p.nbr_order) std::reverse(nb.begin(), nb.end());
      for (auto e : g.ents) va.push_back(p.local(d, (int)e));
      Node &gn = a["groups"][g.name];
      ints(gn["neighbors"], nb, p.style); ints(gn["values"], va, p.style);
    }
  }
}
// neighbour id -> entities in order, read from any form
typedef std::map<index_t, V> Lists;
static Lists lists(const Node &a) {
  Lists r;
  for (index_t i = 0; i < a["groups"].number_of_children(); i++) {
    const Node &g = a["groups"][i];
    for (auto n : get(g["neighbors"])) for (auto v : get(g["values"])) r[n].push_back(v);
  }
  return r;
}
static std::string gname(V ids) { std::sort(ids.begin(), ids.end()); std::string s = "group"; for (auto i : ids) s += fmt("_%d", (int)i); return s; }

static bool is_pw(const Node &a) { for (index_t i = 0; i < a["groups"].number_of_children(); i++) if (get(a["groups"][i]["neighbors"]).size() != 1) return false; return true; }
static bool is_ms(const Node &a) { std::set<index_t> s; for (index_t i = 0; i < a["groups"].number_of_children(); i++) for (auto v : get(a["groups"][i]["values"])) if (!s.insert(v).second) return false; return true; }

static void pairwise_ok(const Pat &p, const std::vector<const Node *> &out, bool named, const std::string &w) {
  // per pair: the sequence of global entities
  std::map<std::pair<int, int>, V> seq;
  for (int d = 0; d < p.D; d++) {
    const Node &a = *out[d];
    if (a["association"].as_string() != "vertex" || a["topology"].as_string() != "t") fail("pw-meta", "association or topology lost: " + w);
    if (!adj::is_pairwise(a)) fail("pw-form", "the result is not pairwise: " + w);
    std::map<int, V> want;
    for (int e = 0; e < p.E; e++) if (p.share[e] >> d & 1) for (int n = 0; n < p.D; n++) if (n != d && (p.share[e] >> n & 1)) want[n].push_back(e);
    if ((size_t)a["groups"].number_of_children() != want.size()) fail("pw-groups", fmt("domain %d has %d groups instead of %d: ", (int)p.ids[d], (int)a["groups"].number_of_children(), (int)want.size()) + w + " got " + a.to_json());
    for (auto &wn : want) {
      const Node *g = nullptr;
      for (index_t i = 0; i < a["groups"].number_of_children(); i++) { V nb = get(a["groups"][i]["neighbors"]); if (nb.size() == 1 && nb[0] == p.ids[wn.first]) g = &a["groups"][i]; }
      if (!g) fail("pw-missing", fmt("domain %d has no group with %d: ", (int)p.ids[d], (int)p.ids[wn.first]) + w);
      if (named && g->name() != gname({p.ids[d], p.ids[wn.first]})) fail("pw-name", "group is named " + g->name() + ": " + w);
      V vals = get((*g)["values"]), ge;
      for (auto v : vals) ge.push_back(p.global(d, v));
      V so = ge; std::sort(so.begin(), so.end());
      if (so != wn.second) fail("pw-values", fmt("domain %d shares other entities with %d: ", (int)p.ids[d], (int)p.ids[wn.first]) + w + " got " + a.to_json());
      seq[{d, wn.first}] = ge;
    }
  }
  for (auto &s : seq) if (seq[{s.first.second, s.first.first}] != s.second) fail("pw-order", fmt("domains %d and %d list their entities in different orders: ", (int)p.ids[s.first.first], (int)p.ids[s.first.second]) + w);
}
static void maxshare_ok(const Pat &p, const std::vector<const Node *> &out, bool named, bool order, const std::string &w) {
  std::map<int, V> seq; // share mask -> global order
  for (int d = 0; d < p.D; d++) {
    const Node &a = *out[d];
    if (a["association"].as_string() != "vertex" || a["topology"].as_string() != "t") fail("ms-meta", "association or topology lost: " + w);
    if (!adj::is_maxshare(a)) fail("ms-form", "the result is not in maximal-share form: " + w);
    std::map<int, V> want;
    for (int e = 0; e < p.E; e++) if (p.share[e] >> d & 1) want[p.share[e]].push_back(e);
    if ((size_t)a["groups"].number_of_children() != want.size()) fail("ms-groups", fmt("domain %d has %d groups instead of %d: ", (int)p.ids[d], (int)a["groups"].number_of_children(), (int)want.size()) + w + " got " + a.to_json());
    for (auto &wn : want) {
      V nb; for (int n = 0; n < p.D; n++) if (n != d && (wn.first >> n & 1)) nb.push_back(p.ids[n]);
      V snb = nb; std::sort(snb.begin(), snb.end());
      const Node *g = nullptr;
      for (index_t i = 0; i < a["groups"].number_of_children(); i++) { V x = get(a["groups"][i]["neighbors"]); std::sort(x.begin(), x.end()); if (x == snb) g = &a["groups"][i]; }
      if (!g) fail("ms-missing", fmt("domain %d lacks a group: ", (int)p.ids[d]) + w + " got " + a.to_json());
      V all = nb; all.push_back(p.ids[d]);
      if (named && g->name() != gname(all)) fail("ms-name", "group is named " + g->name() + ": " + w);
      V ge; for (auto v : get((*g)["values"])) ge.push_back(p.global(d, v));
      V so = ge; std::sort(so.begin(), so.end());
      if (so != wn.second) fail("ms-values", fmt("domain %d: a group has other entities: ", (int)p.ids[d]) + w + " got " + a.to_json());
      if (!order) continue;
      auto it = seq.find(wn.first);
      if (it == seq.end()) seq[wn.first] = ge; else if (it->second != ge) fail("ms-order", "domains list shared entities in different orders: " + w);
    }
  }
}
static Pat pattern(int D, int E, bool cosmetics, bool perms = true, bool mix = true) {
  Pat p; p.D = D; p.E = E;
  std::vector<int> masks; for (int m = 0; m < (1 << D); m++) if (__builtin_popcount(m) != 1) masks.push_back(m);
  for (int e = 0; e < E; e++) p.share.push_back(masks[choose((int)masks.size())]);
  int whole = choose(mix ? 3 : 2); // all maximal-share, all pairwise, or chosen per entity
  std::map<std::pair<int, int>, V> g;
  V perm; for (int e = 0; e < E; e++) perm.push_back(e);
  int np = 1; for (int e = 2; e <= E; e++) np *= e;
  for (int k = perms ? choose(np) : np / 2; k > 0; k--) std::next_permutation(perm.begin(), perm.end());
  p.rep.assign(E, 0);
  std::vector<int> half(E, 0);
  for (int e = 0; e < E; e++) {
    if (!p.share[e]) continue;
    p.rep[e] = whole == 2 ? choose(__builtin_popcount(p.share[e]) > 3 ? 5 : 3) : whole;
    half[e] = choose(2);
    if (half[e]) p.split = true;
  }
  for (auto e : perm) {
    int m = p.share[e]; if (!m) continue;
    if (p.rep[e] >= 3) { // one domain is named pair by pair, the others together
      int one = p.rep[e] == 3 ? 0 : D - 1; while (!(m >> one & 1)) one += p.rep[e] == 3 ? 1 : -1;
      g[{m & ~(1 << one), half[e]}].push_back(e);
      for (int a = 0; a < D; a++) if (a != one && (m >> a & 1)) g[{1 << a | 1 << one, half[e]}].push_back(e);
      continue;
    }
    if (p.rep[e] != 1) g[{m, half[e]}].push_back(e);
    if (p.rep[e] != 0) for (int a = 0; a < D; a++) for (int b = a + 1; b < D; b++) if ((m >> a & 1) && (m >> b & 1)) {
      V &x = g[{1 << a | 1 << b, half[e]}];
      if (std::find(x.begin(), x.end(), e) == x.end()) x.push_back(e);
    }
  }
  int cos = cosmetics ? choose(5) : 0;
  static const index_t IDS[3][4] = {{0, 1, 2, 3}, {7, 10, 3, 25}, {2, 0, 3, 1}};
  static const int C[5][4] = {{0, 0, 0, 0}, {1, 1, 1, 1}, {2, 2, 2, 0}, {3, 1, 0, 1}, {1, 2, 3, 0}}; // names, ids, type, neighbour order
  p.ids.assign(IDS[C[cos][1]], IDS[C[cos][1]] + D); p.style = C[cos][2]; p.nbr_order = C[cos][3];
  int n = 0;
  for (auto &kv : g) {
    G x; x.ents = kv.second;
    V nm; for (int d = 0; d < D; d++) if (kv.first.first >> d & 1) { x.mem.push_back(d); nm.push_back(p.ids[d]); }
    switch (C[cos][0]) {
    case 0: x.name = gname(nm); if (kv.first.second) x.name += "_b"; break;
    case 1: x.name = fmt("g%d", n); break;
    case 2: x.name = fmt("%c%d", 'z' - n, n); break;
    default: x.name = fmt("%d", n); }
    n++;
    p.groups.push_back(x);
  }
  return p;
}
static void convert(int D, int E, bool cosmetics, bool perms, bool alone) {
  Pat p = pattern(D, E, cosmetics, perms, E < 3 || thorough());
  int dest = alone ? choose(2) : 0; // in the mesh or on its own
  Node mesh; build(p, mesh);
  std::string w = p.str();
  std::vector<std::string> before; std::vector<const Node *> src, pw, ms, pp, mp, pm, mm;
  Node own; own.set(DataType::object());
  for (int d = 0; d < D; d++) {
    const Node &a = mesh.child(d)["adjsets/a"];
    Node info;
    if (!adj::verify(a, info)) fail("verify", "a conforming adjacency set is rejected: " + w);
    if (adj::is_pairwise(a) != is_pw(a)) fail("is-pairwise", "is_pairwise is wrong: " + w);
    if (adj::is_maxshare(a) != is_ms(a)) fail("is-maxshare", "is_maxshare is wrong: " + w);
    before.push_back(dump(a)); src.push_back(&a);
  }
  auto at = [&](int d, const char *n) -> Node & { return dest ? own[fmt("%s%d", n, d)] : mesh.child(d)[std::string("adjsets/") + n]; };
  for (int d = 0; d < D; d++) for (auto n : {"pw", "ms"}) if (dest) at(d, n)["junk"] = 1;
  for (int d = 0; d < D; d++) { adj::to_pairwise(mesh.child(d)["adjsets/a"], at(d, "pw")); mc::transition(); }
  for (int d = 0; d < D; d++) { adj::to_maxshare(mesh.child(d)["adjsets/a"], at(d, "ms")); mc::transition(); }
  for (int d = 0; d < D && !dest; d++) { // chains, on their own: the groups keep the names of the first conversion
    adj::to_pairwise(at(d, "pw"), own[fmt("pp%d", d)]); adj::to_pairwise(at(d, "ms"), own[fmt("mp%d", d)]);
    adj::to_maxshare(at(d, "pw"), own[fmt("pm%d", d)]); adj::to_maxshare(at(d, "ms"), own[fmt("mm%d", d)]);
  }
  for (int d = 0; d < D; d++) {
    if (dump(mesh.child(d)["adjsets/a"]) != before[d]) fail("source", "the source changed: " + w);
    pw.push_back(&at(d, "pw")); ms.push_back(&at(d, "ms")); 
    if (!dest) { pp.push_back(&own[fmt("pp%d", d)]); mp.push_back(&own[fmt("mp%d", d)]); pm.push_back(&own[fmt("pm%d", d)]); mm.push_back(&own[fmt("mm%d", d)]); }
  }
  bool allms = true, allpw = true;
  for (int e = 0; e < E; e++) if (p.share[e]) { if (p.rep[e] != 0) allms = false; if (p.rep[e] != 1) allpw = false; }
  bool order = allms || (allpw && !p.split);
  // a set outside a mesh does not know its own domain: names are not judged there
  pairwise_ok(p, pw, !dest, w); maxshare_ok(p, ms, !dest, order, w);
  if (!dest) {
    pairwise_ok(p, pp, false, w + " pairwise twice");
    maxshare_ok(p, mm, false, order, w + " maxshare twice");
    maxshare_ok(p, pm, false, order && (allms ? !p.split : true), w + " pairwise then maxshare");
    if (order) pairwise_ok(p, mp, false, w + " maxshare then pairwise");
    for (int d = 0; d < D; d++) for (auto n : {pw[d], ms[d]}) { Node info; if (!adj::verify(*n, info)) fail("verify-out", "a converted adjacency set is rejected: " + w); if (!uadj::is_canonical(*n)) fail("canonical", "a converted adjacency set is not canonical: " + w); }
  }
  mc::outcome(fmt("D=%d groups=%d dest=%d order=%d", D, (int)p.groups.size(), dest, order)); mc::checked();
}
static void sp_conv2() { convert(2, thorough() ? 3 : 2, true, true, true); }
static void sp_conv3() { convert(3, 2, true, thorough(), true); }
static void sp_conv33() { convert(3, 3, false, thorough(), thorough()); }
static void sp_conv4() { convert(4, thorough() ? 3 : 2, false, false, thorough()); }
static void sp_canon() {
  int D = 2 + choose(2);
  Pat p = pattern(D, 2, true);
  Node mesh; build(p, mesh);
  bool drop = choose(2); // one domain without the adjset
  if (drop) mesh.child(0).remove("adjsets");
  std::string before = dump(mesh), w = p.str();
  uadj::to_pairwise_canonical(mesh, "a", "b");
  if (drop && mesh.child(0).has_child("adjsets")) fail("canon-extra", "a domain without the set gets one: " + w);
  if (!drop) {
    std::vector<const Node *> out; for (int d = 0; d < D; d++) out.push_back(&mesh.child(d)["adjsets/b"]);
    pairwise_ok(p, out, true, w + " to_pairwise_canonical");
    for (auto n : out) if (!uadj::is_canonical(*n)) fail("canon", "not canonical: " + w);
  }
  uadj::remove(mesh, "b");
  if (dump(mesh) != before) fail("canon-remove", "removing the converted set does not give the mesh back: " + w);
  mc::outcome(fmt("D=%d drop=%d", D, drop)); mc::checked();
}
static void sp_names() {
  static const struct { const char *n; bool ok; } T[] = {{"group_0_1", true}, {"group_0_1_2", true}, {"group_3_10", true}, {"group_2_10_11", true}, {"group_1_0", false}, {"group_10_3", false},
                                                         {"group_0", false}, {"group", false}, {"g_0_1", false}, {"agroup_0_1", false}, {"0", false}, {"group_1_1", false}, {"group_0_2_1", false}};
  int k = 1 + choose(2); bool want = true; Node a; a["groups"].set(DataType::object());
  for (int i = 0; i < k; i++) {
    auto &t = T[choose(13)];
    want = want && t.ok; a["groups"][t.n]["values"].set(DataType::int64(1));
  }
  if (uadj::is_canonical(a) != want) fail("is-canonical", a.to_json());
  mc::outcome(want ? "canonical" : "not"); mc::checked();
}
// --- queries on meshes: every placement of points and every content of the groups
struct PD { V pts; std::map<index_t, V> to; std::map<index_t, bool> has; };
static void sp_validate() {
  int dim = 1 + choose(3), idk = choose(2), order = choose(2);
  static const index_t IDS[2][2] = {{0, 1}, {4, 2}};
  Node mesh; std::vector<PD> P(2);
  static const int MASK[4] = {7, 3, 6, 5};
  for (int d = 0; d < 2; d++) {
    int m = d == 0 ? 7 : MASK[choose(4)];
    for (int e = 0; e < 3; e++) if (m >> e & 1) P[d].pts.push_back(e);
    if (d == 1 && order) std::reverse(P[d].pts.begin(), P[d].pts.end());
    Node &dom = mesh[fmt("dom%d", d)];
    dom["state/domain_id"].set_int64(IDS[idk][d]);
    dom["coordsets/c/type"] = "explicit";
    int np = (int)P[d].pts.size();
    static const char *AX[3] = {"x", "y", "z"};
    for (int a = 0; a < dim; a++) { Node &v = dom["coordsets/c/values"][AX[a]]; v.set(DataType::float64(np)); for (int i = 0; i < np; i++) v.as_float64_array()[i] = P[d].pts[i] * (a + 1) + 0.25; }
    dom["topologies/t/type"] = "unstructured"; dom["topologies/t/coordset"] = "c"; dom["topologies/t/elements/shape"] = "point";
    V c; for (int i = 0; i < np; i++) c.push_back(i);
    ints(dom["topologies/t/elements/connectivity"], c, 1);
    Node &a = dom["adjsets/a"]; a["association"] = "vertex"; a["topology"] = "t"; a["groups"].set(DataType::object());
    // the group with the other domain: none, or an ordered choice of local points
    int k = choose(np + 2) - 1; // number of entries
    if (k < 0) continue;
    V vals;
    for (int i = 0; i < k; i++) { int left = np - i, x = choose(left); for (int l = 0; l < np; l++) if (std::find(vals.begin(), vals.end(), l) == vals.end() && x-- == 0) { vals.push_back(l); break; } }
    Node &g = a["groups"][gname({IDS[idk][0], IDS[idk][1]})];
    ints(g["neighbors"], {IDS[idk][1 - d]}, 1); ints(g["values"], vals, choose(2));
    P[d].has[1 - d] = true; P[d].to[1 - d] = vals;
  }
  bool both = P[0].has[1] == P[1].has[0];
  bool valid = both, same = both;
  for (int d = 0; d < 2; d++) for (auto v : P[d].to[1 - d]) if (std::find(P[1 - d].pts.begin(), P[1 - d].pts.end(), P[d].pts[v]) == P[1 - d].pts.end()) valid = false;
  V s0, s1; for (auto v : P[0].to[1]) s0.push_back(P[0].pts[v]); for (auto v : P[1].to[0]) s1.push_back(P[1].pts[v]);
  if (s0 != s1) same = false;
  std::string before = dump(mesh);
  Node info;
  bool got = uadj::validate(mesh, "a", info);
  if (got != valid) fail("validate", fmt("validate says %d instead of %d for ", got, valid) + mesh.to_json());
  if (dump(mesh) != before) fail("validate-const", "validate changed the mesh");
  mc::transition();
  bool empty = (P[0].has[1] && s0.empty()) || (P[1].has[0] && s1.empty());
  if (!empty) { // a group without entities makes no mesh of points: not judged
    Node i2;
    bool gs = uadj::compare_pointwise(mesh, "a", i2);
    if (gs != same) fail("pointwise", fmt("compare_pointwise says %d instead of %d for ", gs, same) + mesh.to_json());
    if (dump(mesh) != before) fail("pointwise-const", "compare_pointwise changed the mesh");
  }
  mc::outcome(fmt("dim=%d valid=%d same=%d", dim, valid, same)); mc::checked();
}
static void sp_elements() { // element association: line elements between three points
  int idk = choose(2);
  static const index_t IDS[2][2] = {{0, 1}, {4, 2}};
  static const int L[3][2] = {{0, 1}, {1, 2}, {0, 2}};
  static const int MASK[4] = {7, 3, 6, 5};
  Node mesh; std::vector<std::set<int>> listed(2); std::vector<bool> has(2, false);
  for (int d = 0; d < 2; d++) {
    int m = MASK[choose(d ? 4 : 2)], flip = d ? choose(2) : 0;
    Node &dom = mesh[fmt("dom%d", d)];
    dom["state/domain_id"].set_int64(IDS[idk][d]);
    dom["coordsets/c/type"] = "explicit";
    double x[3], y[3]; for (int i = 0; i < 3; i++) { int k = flip ? 2 - i : i; x[i] = k; y[i] = k == 1; }
    dom["coordsets/c/values/x"].set(x, 3); dom["coordsets/c/values/y"].set(y, 3);
    V c, els; for (int e = 0; e < 3; e++) if (m >> e & 1) { els.push_back(e); for (int k = 0; k < 2; k++) { int v = L[e][flip ? 1 - k : k]; c.push_back(flip ? 2 - v : v); } }
    dom["topologies/t/type"] = "unstructured"; dom["topologies/t/coordset"] = "c"; dom["topologies/t/elements/shape"] = "line";
    ints(dom["topologies/t/elements/connectivity"], c, 1);
    Node &a = dom["adjsets/a"]; a["association"] = "element"; a["topology"] = "t"; a["groups"].set(DataType::object());
    int sub = choose(1 << els.size());
    if (!sub) continue;
    V vals; for (size_t i = 0; i < els.size(); i++) if (sub >> i & 1) { vals.push_back((index_t)i); listed[d].insert((int)els[i]); }
    Node &g = a["groups"][gname({IDS[idk][0], IDS[idk][1]})];
    ints(g["neighbors"], {IDS[idk][1 - d]}, 1); ints(g["values"], vals, choose(2));
    has[d] = true;
  }
  if (has[0] != has[1]) throw mc::Abandon(); // reported as an error, not as an answer
  bool want = listed[0] == listed[1];
  std::string before = dump(mesh);
  Node info;
  bool got = uadj::validate(mesh, "a", info);
  if (got != want) fail("validate-elements", fmt("validate says %d instead of %d for ", got, want) + mesh.to_json());
  if (dump(mesh) != before) fail("validate-const", "validate changed the mesh");
  mc::outcome(fmt("valid=%d", want)); mc::checked();
}
static void sp_verify() { // verification of every small edit of a conforming set
  Node a; a["topology"] = "t"; a["association"] = choose(2) ? "vertex" : "element";
  bool windows = choose(2);
  Node &g = a["groups/g"];
  ints(g["neighbors"], {1, 2}, choose(4));
  int nd = 1 + choose(3);
  static const char *IJK[3] = {"i", "j", "k"};
  if (!windows) ints(g["values"], {0, 3}, choose(4));
  else {
    for (int w = 0; w < 2; w++) for (auto k : {"origin", "dims", "ratio"}) for (int i = 0; i < nd; i++) g["windows"][fmt("w%d", w)][k][IJK[i]] = 1 + i;
    if (choose(2)) { int o[3] = {1, 2, 3}; g["orientation"].set(o, 3); }
  }
  bool ok = true;
  switch (choose(windows ? 13 : 11)) {
  case 0: break;
  case 1: a.remove("topology"); ok = false; break;
  case 2: a["topology"] = 3; ok = false; break;
  case 3: a.remove("association"); ok = false; break;
  case 4: a["association"] = "face"; ok = false; break;
  case 5: a.remove("groups"); ok = false; break;
  case 6: a["groups"] = 1; ok = false; break;
  case 7: g.remove("neighbors"); ok = false; break;
  case 8: g["neighbors"] = 1.5; ok = false; break;
  case 9: if (windows) { g["windows"] = 2; } else { g["values"] = "text"; } ok = false; break;
  case 10: a["groups/h/values"] = 1; ok = false; break; // a second group without neighbours
  case 11: { Node &x = g["windows"][fmt("w%d", choose(2))]; static const char *K[3] = {"origin", "dims", "ratio"}; const char *k = K[choose(3)]; if (choose(2)) x.remove(k); else x[k] = "text"; ok = false; break; }
  default: { if (nd == 1) throw mc::Abandon(); Node &x = g["windows/w1"]; static const char *K[3] = {"origin", "dims", "ratio"}; x[K[choose(3)]].remove(IJK[nd - 1]); ok = false; } }
  Node info;
  bool got = adj::verify(a, info);
  if (got != ok) fail("verify-edit", fmt("verify says %d instead of %d for ", got, ok) + a.to_json());
  if ((info["valid"].as_string() == "true") != ok) fail("verify-info", "info/valid disagrees: " + info.to_json());
  mc::outcome(fmt("ok=%d", ok)); mc::checked();
}
int main(int argc, char **argv) {
  init();
  mc::Opt o; o.shard_depth = 4;
  return mc::main_(argc, argv, "B07",
                   {{"two", sp_conv2, o, "every sharing of 3 entities by 2 domains, every way to group them, names, id sets and integer types"},
                    {"three", sp_conv3, o, "the same for 2 entities and 3 domains"},
                    {"three3", sp_conv33, o, "3 entities, 3 domains, canonical-like names"},
                    {"four", sp_conv4, o, "2 (3) entities and 4 domains"},
                    {"canonical", sp_canon, o, "to_pairwise_canonical and remove on meshes of 2 and 3 domains"},
                    {"names", sp_names, o, "canonical names"},
                    {"validate", sp_validate, o, "vertex sets: every point placement, every group content and order, 1 to 3 dimensions"},
                    {"elements", sp_elements, o, "element sets: every element placement and listing"},
                    {"verify", sp_verify, o, "every single edit of a conforming adjacency set"}},
                   {"the names of sets converted outside a mesh are not judged (their own domain is unknown there)",
                    "entity order across three domains is judged when the source lists each shared set in one group order"});
}
