// B04: material set, material-dependent field and species set conversions
#include "cnode.hpp"
#include "conduit_blueprint.hpp"
using namespace cn;
using mc::choose;
using mc::fail;
using mc::fmt;
using mc::thorough;
namespace ms = conduit::blueprint::mesh::matset;
namespace mf = conduit::blueprint::mesh::field;
namespace msp = conduit::blueprint::mesh::specset;
typedef std::map<std::string, double> Z;
typedef std::vector<Z> Mix; // per zone: material -> number
static const char *NM[] = {"water", "air", "lead"}; // not in alphabetical order
static const int ZMAX = 4;

static std::string show(const Mix &m) {
  std::string s;
  for (auto &z : m) { s += "["; for (auto &p : z) s += fmt("%s=%g ", p.first.c_str(), p.second); s += "]"; }
  return s;
}
enum Form { FULL, BYELEM, BYMAT, UNIMAT, NFORMS };
static const char *FN[] = {"full", "sparse-by-element", "sparse-by-material", "uni-buffer-by-material"};
struct Style { int itype = 0, ftype = 0, map = 0, order = 0; };
static void put(Node &n, const std::vector<double> &v, int t) {
  if (t == 0) n.set(v);
  else if (t == 1) { n.set(DataType::float32((index_t)v.size())); for (size_t i = 0; i < v.size(); i++) n.as_float32_array()[(index_t)i] = (float)v[i]; }
  else { n.set(DataType(DataType::FLOAT64_ID, (index_t)v.size(), 8, 16, 8, conduit::Endianness::DEFAULT_ID)); for (size_t i = 0; i < v.size(); i++) n.as_float64_array()[(index_t)i] = v[i]; }
}
static void puti(Node &n, const std::vector<int> &v, int t) {
  if (t == 0) n.set(v);
  else if (t == 1) { n.set(DataType::int64((index_t)v.size())); for (size_t i = 0; i < v.size(); i++) n.as_int64_array()[(index_t)i] = v[i]; }
  else { n.set(DataType::uint16((index_t)v.size())); for (size_t i = 0; i < v.size(); i++) n.as_uint16_array()[(index_t)i] = (unsigned short)v[i]; }
}
static void put1(Node &n, int v, int t) { if (t == 0) n.set(v); else if (t == 1) n.set((conduit::int64)v); else n.set((conduit::uint16)v); }
// the same content in a given form
static void build(Form f, const Mix &vf, const Mix &val, int nm, Style s, Node &m, Node &fld) {
  int nz = (int)vf.size();
  int id[3] = {0, 1, 2};
  if (s.map == 1) { id[0] = 7; id[1] = 3; id[2] = 5; }
  m["topology"] = "topo";
  fld["association"] = "element"; fld["topology"] = "topo"; fld["volume_dependent"] = "false"; fld["matset"] = "mset";
  { std::vector<double> w; for (int z = 0; z < nz; z++) w.push_back(z * 1.5); put(fld["values"], w, s.ftype); }
  bool usemap = f == BYELEM || f == UNIMAT || s.map;
  if (usemap) for (int i = 0; i < nm; i++) put1(m["material_map"][NM[i]], id[i], s.itype);
  auto has = [&](int z, int i) { return vf[z].count(NM[i]) != 0; };
  if (f == FULL)
    for (int i = 0; i < nm; i++) {
      std::vector<double> a, b;
      for (int z = 0; z < nz; z++) { a.push_back(has(z, i) ? vf[z].at(NM[i]) : 0); b.push_back(has(z, i) ? val[z].at(NM[i]) : 0); }
      put(m["volume_fractions"][NM[i]], a, s.ftype); put(fld["matset_values"][NM[i]], b, s.ftype);
    }
  else if (f == BYMAT)
    for (int i = 0; i < nm; i++) {
      std::vector<double> a, b; std::vector<int> e;
      for (int zz = 0; zz < nz; zz++) { int z = s.order & 1 ? nz - 1 - zz : zz; if (has(z, i)) { a.push_back(vf[z].at(NM[i])); b.push_back(val[z].at(NM[i])); e.push_back(z); } }
      put(m["volume_fractions"][NM[i]], a, s.ftype); put(fld["matset_values"][NM[i]], b, s.ftype); puti(m["element_ids"][NM[i]], e, s.itype);
    }
  else if (f == BYELEM) {
    std::vector<double> a, b; std::vector<int> sz(nz), off(nz), ids;
    for (int zz = 0; zz < nz; zz++) {
      int z = s.order & 1 ? nz - 1 - zz : zz;
      if (s.order == 3) { a.push_back(99); b.push_back(99); ids.push_back(id[0]); } // a gap
      off[z] = (int)a.size();
      for (int ii = 0; ii < nm; ii++) { int i = s.order & 2 ? nm - 1 - ii : ii; if (has(z, i)) { a.push_back(vf[z].at(NM[i])); b.push_back(val[z].at(NM[i])); ids.push_back(id[i]); sz[z]++; } }
    }
    put(m["volume_fractions"], a, s.ftype); puti(m["material_ids"], ids, s.itype); puti(m["sizes"], sz, s.itype); puti(m["offsets"], off, s.itype);
    put(fld["matset_values"], b, s.ftype);
  } else {
    std::vector<double> a, b; std::vector<int> e, ids;
    for (int i = 0; i < nm; i++)
      for (int zz = 0; zz < nz; zz++) { int z = s.order & 1 ? nz - 1 - zz : zz; if (has(z, i)) { a.push_back(vf[z].at(NM[i])); b.push_back(val[z].at(NM[i])); e.push_back(z); ids.push_back(id[i]); } }
    put(m["volume_fractions"], a, s.ftype); puti(m["material_ids"], ids, s.itype); puti(m["element_ids"], e, s.itype);
    put(fld["matset_values"], b, s.ftype);
  }
}
// independent readers of each form; entries with no volume are dropped
static bool read(Form f, const Node &m, const Node *fld, int nz, Mix &vf, Mix &val, std::string &err) {
  vf.assign(nz, Z()); val.assign(nz, Z());
  auto add = [&](int z, const std::string &n, double v, double w) {
    if (z < 0 || z >= nz) { err = fmt("zone %d", z); return false; }
    if (v == 0) return true;
    if (vf[z].count(n)) { err = fmt("material %s twice in zone %d", n.c_str(), z); return false; }
    vf[z][n] = v; val[z][n] = w;
    return true;
  };
  const Node &V = m["volume_fractions"];
  if (f == FULL || f == BYMAT) {
    for (index_t i = 0; i < V.number_of_children(); i++) {
      std::string n = V.child(i).name();
      conduit::float64_accessor a = V.child(i).as_float64_accessor(), b = fld ? (*fld)["matset_values"][n].as_float64_accessor() : a;
      conduit::index_t_accessor e;
      if (f == BYMAT) { if (!m["element_ids"].has_child(n)) { err = "element ids missing for " + n; return false; } e = m["element_ids"][n].as_index_t_accessor(); if (e.number_of_elements() != a.number_of_elements()) { err = "lengths"; return false; } }
      else if (a.number_of_elements() != nz) { err = fmt("%d zones for %s", (int)a.number_of_elements(), n.c_str()); return false; }
      if (b.number_of_elements() != a.number_of_elements()) { err = "field lengths of " + n; return false; }
      for (index_t k = 0; k < a.number_of_elements(); k++) if (!add(f == BYMAT ? (int)e[k] : (int)k, n, a[k], b[k])) return false;
    }
    if (fld && (*fld)["matset_values"].number_of_children() != V.number_of_children()) { err = "field materials"; return false; }
    return true;
  }
  std::map<index_t, std::string> nm;
  for (index_t i = 0; i < m["material_map"].number_of_children(); i++) nm[m["material_map"].child(i).to_index_t()] = m["material_map"].child(i).name();
  conduit::index_t_accessor id = m["material_ids"].as_index_t_accessor();
  conduit::float64_accessor a = V.as_float64_accessor(), b = fld ? (*fld)["matset_values"].as_float64_accessor() : a;
  if (b.number_of_elements() != a.number_of_elements() || id.number_of_elements() != a.number_of_elements()) { err = "lengths"; return false; }
  if (f == BYELEM) {
    conduit::index_t_accessor sz = m["sizes"].as_index_t_accessor(), off = m["offsets"].as_index_t_accessor();
    if (sz.number_of_elements() != nz || off.number_of_elements() != nz) { err = fmt("%d zones", (int)sz.number_of_elements()); return false; }
    for (int z = 0; z < nz; z++)
      for (index_t k = off[z]; k < off[z] + sz[z]; k++) {
        if (k >= a.number_of_elements() || !nm.count(id[k])) { err = fmt("entry %d", (int)k); return false; }
        if (!add(z, nm[id[k]], a[k], b[k])) return false;
      }
  } else {
    conduit::index_t_accessor e = m["element_ids"].as_index_t_accessor();
    for (index_t k = 0; k < a.number_of_elements(); k++) if (!nm.count(id[k]) || !add((int)e[k], nm[id[k]], a[k], b[k])) { err = "entry"; return false; }
  }
  return true;
}
static void expect(Form f, const Node &m, const Node &fld, const Mix &vf, const Mix &val, const std::string &w, const std::string &name) {
  Node info;
  if (!ms::verify(m, info)) fail(std::string("invalid-") + FN[f], "the result is not a valid material set: " + w + " " + dump(m));
  if (m["topology"].as_string() != "topo") fail("topology", "topology lost: " + w);
  bool multi = f == FULL || f == BYMAT, elem = f == FULL || f == BYELEM;
  if (ms::is_multi_buffer(m) != multi || ms::is_uni_buffer(m) == multi || ms::is_element_dominant(m) != elem || ms::is_material_dominant(m) == elem) fail(std::string("kind-") + FN[f], "wrong kind of material set: " + w);
  Mix a, b; std::string err;
  if (!read(f, m, nullptr, (int)vf.size(), a, b, err) || a != vf) fail(std::string("fractions-") + FN[f], "fractions differ (" + err + "): " + show(a) + " instead of " + show(vf) + " " + w);
  if (!read(f, m, &fld, (int)vf.size(), a, b, err) || b != val) fail(std::string("values-") + FN[f], "field values differ (" + err + "): " + show(b) + " instead of " + show(val) + " " + w);
  if (fld["association"].as_string() != "element" || fld["topology"].as_string() != "topo" || fld["matset"].as_string() != name || fld["volume_dependent"].as_string() != "false") fail("field-parts", "field description differs: " + w + dump(fld));
  conduit::float64_accessor v = fld["values"].as_float64_accessor();
  if (v.number_of_elements() != (index_t)vf.size()) fail("field-values", "plain field values lost: " + w);
  for (size_t z = 0; z < vf.size(); z++) if (v[(index_t)z] != z * 1.5) fail("field-values", "plain field values differ: " + w);
  for (index_t i = 0; i < fld.number_of_children(); i++) { std::string n = fld.child(i).name(); if (n != "association" && n != "topology" && n != "matset" && n != "volume_dependent" && n != "values" && n != "matset_values") fail("field-extra", "unexpected " + n + ": " + w); }
}
static void convert(Form to, const Node &m, const Node &fld, Node &dm, Node &df, const std::string &w) {
  std::string b1 = dump(m), b2 = dump(fld);
  try {
    if (to == FULL) { ms::to_multi_buffer_full(m, dm); mf::to_multi_buffer_full(m, fld, "new", df); }
    else if (to == BYELEM) { ms::to_sparse_by_element(m, dm); mf::to_sparse_by_element(m, fld, "new", df); }
    else { ms::to_multi_buffer_by_material(m, dm); mf::to_multi_buffer_by_material(m, fld, "new", df); }
  } catch (conduit::Error &e) { fail("refused", std::string("conversion refused: ") + e.what() + " " + w); }
  if (dump(m) != b1 || dump(fld) != b2) fail("source-changed", "the source was changed: " + w);
  mc::transition();
}
static void silo(const Node &m, const Node &fld, const Mix &vf, const Mix &val, const std::string &w) {
  Node d, e; d["old"] = 1;
  std::string b1 = dump(m), b2 = dump(fld);
  ms::to_silo(m, d); mf::to_silo(fld, m, e);
  if (dump(m) != b1 || dump(fld) != b2) fail("source-changed", "the source was changed by to_silo: " + w);
  for (int p = 0; p < 2; p++) {
    const Node &s = p ? e : d;
    std::map<index_t, std::string> nm;
    for (index_t i = 0; i < s["material_map"].number_of_children(); i++) nm[s["material_map"].child(i).to_index_t()] = s["material_map"].child(i).name();
    conduit::index_t_accessor ml = s["matlist"].as_index_t_accessor(), nx = s["mix_next"].as_index_t_accessor(), mm = s["mix_mat"].as_index_t_accessor();
    conduit::float64_accessor mv = s["mix_vf"].as_float64_accessor();
    if (ml.number_of_elements() != (index_t)vf.size()) fail("silo", "wrong number of zones: " + w);
    index_t used = 0;
    for (size_t z = 0; z < vf.size(); z++) {
      Z a, b;
      if (ml[(index_t)z] >= 0) { if (!nm.count(ml[(index_t)z])) fail("silo", "unknown material: " + w); a[nm[ml[(index_t)z]]] = 1; }
      else
        for (index_t k = -ml[(index_t)z] - 1;;) {
          if (k < 0 || k >= mm.number_of_elements() || !nm.count(mm[k])) fail("silo", "broken list: " + w);
          a[nm[mm[k]]] = mv[k]; used++;
          if (p) b[nm[mm[k]]] = s["field_mixvar_values"].as_float64_accessor()[k];
          if (nx[k] == 0) break;
          k = nx[k] - 1;
        }
      if (a != vf[z]) fail("silo", fmt("zone %d differs: ", (int)z) + show({a}) + w);
      if (p && b.size() && b != val[z]) fail("silo-values", fmt("zone %d differs: ", (int)z) + show({b}) + w);
    }
    if (used != mm.number_of_elements() || used != mv.number_of_elements() || used != nx.number_of_elements()) fail("silo", "unused slots: " + w);
  }
  mc::transition();
}
// every presence pattern; fractions of a zone add up to one
static void content(int nz, int nm, Mix &vf, Mix &val) {
  vf.assign(nz, Z()); val.assign(nz, Z());
  static const double F[4][3] = {{0, 0, 0}, {1, 0, 0}, {.25, .75, 0}, {.125, .375, .5}};
  for (int z = 0; z < nz; z++) {
    int p = 1 + choose((1 << nm) - 1), k = 0, n = __builtin_popcount(p);
    for (int i = 0; i < nm; i++) if (p >> i & 1) { vf[z][NM[i]] = F[n][(k + z) % n]; val[z][NM[i]] = 10 * (z + 1) + i + .5; k++; }
  }
}
static void all(int nz, int nm, Form from, Style s) {
  Mix vf, val; content(nz, nm, vf, val);
  Node m, f; build(from, vf, val, nm, s, m, f);
  std::string w = fmt("%s map=%d order=%d types=%d/%d ", FN[from], s.map, s.order, s.itype, s.ftype) + show(vf);
  expect(from, m, f, vf, val, "source " + w, "mset");
  silo(m, f, vf, val, w);
  for (int a = 0; a < 3; a++) {
    Node m1, f1; m1["old"] = 1; f1["old"] = 1;
    convert((Form)a, m, f, m1, f1, w);
    expect((Form)a, m1, f1, vf, val, w, "new");
    silo(m1, f1, vf, val, w + " via " + FN[a]);
    for (int b = 0; b < 3; b++) {
      Node m2, f2;
      convert((Form)b, m1, f1, m2, f2, w + " via " + FN[a]);
      expect((Form)b, m2, f2, vf, val, w + " via " + FN[a], "new");
    }
  }
  mc::outcome(fmt("%s nz=%d nm=%d", FN[from], nz, nm)); mc::checked();
}
static void sp_forms() {
  int nm = 1 + choose(3), nz = 1 + choose(3);
  Form f = (Form)choose(NFORMS); Style s; s.map = choose(2);
  all(nz, nm, f, s);
}
static void sp_styles() {
  Form f = (Form)choose(NFORMS); Style s; s.map = choose(2); s.itype = choose(3); s.ftype = choose(3); s.order = choose(4);
  all(thorough() ? 3 : 2, thorough() ? 3 : 2 + choose(2), f, s);
}
static void sp_deep() { Form f = (Form)choose(3); Style s; s.order = choose(thorough() ? 4 : 1); all(4, thorough() ? 3 : 2, f, s); }
// fractions at and below the threshold are dropped, larger ones kept
static void sp_eps() {
  int nz = 2, nm = 2 + choose(2);
  double eps = choose(2) ? 0.0 : 1e-3;
  Mix want(nz), vals(nz); Node m, f;
  m["topology"] = "topo"; f["topology"] = "topo"; f["association"] = "element"; f["matset"] = "mset";
  std::vector<std::vector<double>> a(nm, std::vector<double>(nz));
  static const double O[] = {0, 5e-4, 1e-3, 2e-3, .5};
  for (int z = 0; z < nz; z++)
    for (int i = 0; i < nm; i++) {
      double v = i == nm - 1 ? .75 : O[choose(5)];
      a[i][z] = v;
      if (v > eps) { want[z][NM[i]] = v; vals[z][NM[i]] = 10 * z + i; }
    }
  for (int i = 0; i < nm; i++) { m["volume_fractions"][NM[i]].set(a[i]); std::vector<double> b; for (int z = 0; z < nz; z++) b.push_back(10 * z + i); f["matset_values"][NM[i]].set(b); }
  Node d, e; Mix x, y; std::string err;
  ms::to_sparse_by_element(m, d, eps); mf::to_sparse_by_element(m, f, "n", e, eps);
  if (!read(BYELEM, d, &e, nz, x, y, err) || x != want || y != vals) fail("epsilon-by-element", fmt("eps %g: ", eps) + show(x) + " instead of " + show(want) + err);
  Node d2, e2;
  ms::to_multi_buffer_by_material(m, d2, eps); mf::to_multi_buffer_by_material(m, f, "n", e2, eps);
  if (!read(BYMAT, d2, &e2, nz, x, y, err) || x != want || y != vals) fail("epsilon-by-material", fmt("eps %g: ", eps) + show(x) + " instead of " + show(want) + err);
  mc::checked(); mc::transition(2);
}
// species sets: per material, mass fractions of its species in every zone
static void sp_species() {
  int nm = 1 + choose(3), nz = 1 + choose(thorough() ? 3 : 2);
  Form from = (Form)choose(4); Style s; s.map = choose(2); s.itype = choose(3);
  int ns[3] = {1, 1, 1}; for (int i = 0; i < nm; i++) ns[i] = 1 + choose(2);
  Mix vf, val; content(nz, nm, vf, val);
  Node m, f; build(from, vf, val, nm, s, m, f);
  Node sp; sp["matset"] = "mset"; sp["volume_dependent"] = "false";
  auto mass = [&](int i, int k, int z) { return i * 100 + k * 10 + z + .25; };
  for (int i = 0; i < nm; i++) for (int k = 0; k < ns[i]; k++) { std::vector<double> v; for (int z = 0; z < nz; z++) v.push_back(mass(i, k, z)); sp["matset_values"][NM[i]][fmt("s%d", k)].set(v); }
  std::string w = fmt("%s map=%d itype=%d ", FN[from], s.map, s.itype) + show(vf), b1 = dump(m), b2 = dump(sp);
  for (int pre = 0; pre < 3; pre++) { // from the material set, from its silo form, into a used node
    Node sm, d, x; ms::to_silo(m, sm);
    if (pre == 2) msp::to_silo(sp, m, d);
    msp::to_silo(sp, pre == 1 ? sm : m, d);
    if (dump(m) != b1 || dump(sp) != b2) fail("source-changed", w);
    conduit::index_t_accessor nms = d["nmatspec"].as_index_t_accessor(), sl = d["speclist"].as_index_t_accessor(), mx = d["mix_spec"].as_index_t_accessor();
    conduit::float64_accessor mfr = d["species_mf"].as_float64_accessor();
    if (d["nmat"].to_int() != nm || nms.number_of_elements() != nm || sl.number_of_elements() != nz || d["nspecies_mf"].to_index_t() != mfr.number_of_elements() || d["mixlen"].to_index_t() != mx.number_of_elements()) fail("species-shape", w);
    int tot = 0, c = 0;
    for (int i = 0; i < nm; i++) { if (nms[i] != ns[i]) fail("species-shape", w); tot += ns[i]; }
    if (d["specnames"].number_of_children() != tot) fail("species-names", fmt("%d names instead of %d (call %d) ", (int)d["specnames"].number_of_children(), tot, pre) + w);
    for (int i = 0; i < nm; i++) for (int k = 0; k < ns[i]; k++) if (d["specnames"].child(c++).as_string() != fmt("s%d", k)) fail("species-names", w);
    conduit::index_t_accessor ml = sm["matlist"].as_index_t_accessor(), nx = sm["mix_next"].as_index_t_accessor(), mm = sm["mix_mat"].as_index_t_accessor();
    if (mx.number_of_elements() != mm.number_of_elements()) fail("species-mix", w);
    auto at = [&](index_t start, index_t matid, int z) {
      int i = -1; for (int q = 0; q < nm; q++) if (sm["material_map"][NM[q]].to_index_t() == matid) i = q;
      if (i < 0) fail("species-mat", w);
      for (int k = 0; k < ns[i]; k++) if (start < 1 || start - 1 + k >= mfr.number_of_elements() || mfr[start - 1 + k] != mass(i, k, z)) fail("species-value", fmt("zone %d material %s species %d is wrong: ", z, NM[i], k) + w);
    };
    for (int z = 0; z < nz; z++) {
      if (ml[z] >= 0) { at(sl[z], ml[z], z); continue; }
      index_t q = -sl[z] - 1;
      for (index_t k = -ml[z] - 1;;) { if (q < 0 || q >= mx.number_of_elements()) fail("species-mix", w); at(mx[q], mm[k], z); if (!nx[k]) break; k = nx[k] - 1; q++; }
    }
    mc::transition();
  }
  mc::outcome(fmt("%s nm=%d", FN[from], nm)); mc::checked();
}
int main(int argc, char **argv) {
  init();
  mc::Opt o; o.shard_depth = 4;
  return mc::main_(argc, argv, "B04",
                   {{"forms", sp_forms, o, "every presence pattern of up to 3 materials in up to 3 zones, from each of 4 forms to each of 3 and on to each of 3, and to silo form, with two material numberings"},
                    {"styles", sp_styles, o, "the same over integer and float types, entry orders and gaps"},
                    {"deep", sp_deep, o, "4 zones with 2 (3) materials"},
                    {"epsilon", sp_eps, o, "every combination of fractions below, at and above the threshold"},
                    {"species", sp_species, o, "species sets of up to 2 species per material over every presence pattern"}},
                   {"per-material relations inside multi-buffer fractions are not used", "every zone has a material"});
}
