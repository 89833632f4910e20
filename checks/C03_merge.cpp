// C03: update, update_compatible, update_external, move and swap on every ordered pair of small trees,
// in several surroundings, against merge rules on reference trees.
#include "gen.hpp"
#include <algorithm>
using namespace gen;

static const std::vector<std::string> ALPHA = {"a", "b", "a/b", "x", "y", "w", ""};
// ---- atoms
static const int NATOMS = 11;
static void atom(Env &E, Node &n, int k, int salt) {
  switch (k) {
  case 0: break;                                              // empty
  case 1: make_leaf(E, n, 3, 1, OWNED, {0, 1}, salt); break;   // int64
  case 2: make_leaf(E, n, 3, 3, OWNED, {0, 1}, salt); break;   // int64[3]
  case 3: make_leaf(E, n, 3, 2, EXTERNAL, {1, 2}, salt); break; // int64[2] in the caller's memory
  case 4: make_leaf(E, n, 9, 2, OWNED, {0, 1}, salt); break;   // float64[2]
  case 5: n.set(salt & 1 ? "abc" : "d"); break;
  case 6: n.set(DataType::object()); break;
  case 7: n.set(DataType::list()); break;
  case 8: make_leaf(E, n, 0, 2, SCHEMA, {1, 2}, salt); break;  // int8[2], strided
  case 9: n.set(DataType::int64(0)); break;                    // int64[0]
  case 10: n.set(salt & 1 ? "" : "wxyz"); break;
  }
}
static const char *NAMES[] = {"a", "b", "a/b"};
// a tree: an atom, or a container of up to two children (depth further levels)
static void tree(Env &E, Node &n, int depth, int atoms, int salt) {
  int c = depth ? mc::choose(atoms + 4) : mc::choose(atoms);
  if (c < atoms) { atom(E, n, c, salt); return; }
  c -= atoms;
  int kids = c % 2 + 1;
  if (c < 2) { // object
    int first = mc::choose(3);
    tree(E, n.add_child(NAMES[first]), depth - 1, atoms, salt + 1);
    if (kids == 2) { int second = mc::choose(2); if (second >= first) second++; tree(E, n.add_child(NAMES[second]), depth - 1, atoms, salt + 2); }
  } else {
    for (int i = 0; i < kids; i++) tree(E, n.append(), depth - 1, atoms, salt + 3 + i);
  }
}

// ---- merge rules
static void split(const std::string &leaf, std::string &type, std::vector<std::string> &v) {
  size_t c = leaf.find(':'); type = leaf.substr(0, c);
  std::string s = leaf.substr(c + 1);
  if (s.empty()) return;
  size_t b = 0;
  while (true) { size_t e = s.find(',', b); v.push_back(s.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) break; b = e + 1; }
}
// in-place copy when the destination has the type and at least the length; returns false otherwise
static bool fits(const M &d, const M &s, M &out, long dn, long sn) {
  if (d.k != M::LEAF || s.k != M::LEAF) return false;
  std::string td, ts; std::vector<std::string> vd, vs;
  split(d.leaf, td, vd); split(s.leaf, ts, vs);
  if (td != ts || dn < sn) return false;
  out = d;
  if (td == "char8_str") { out.leaf = s.leaf; return true; }
  for (size_t i = 0; i < vs.size(); i++) vd[i] = vs[i];
  out.leaf = td + ":";
  for (size_t i = 0; i < vd.size(); i++) { if (i) out.leaf += ','; out.leaf += vd[i]; }
  return true;
}
// lengths of the leaves are needed for strings (terminator and unused tail count)
struct Len { long n = 0; std::vector<Len> kids; };
static Len lens(const Node &n) { Len l; l.n = n.dtype().number_of_elements(); for (index_t i = 0; i < n.number_of_children(); i++) l.kids.push_back(lens(n.child(i))); return l; }

enum { UPDATE, COMPATIBLE, EXTERN };
static void merge(int op, M &d, Len &dl, const M &s, const Len &sl) {
  if (s.k == M::OBJ) {
    for (size_t i = 0; i < s.kids.size(); i++) {
      int j = d.k == M::OBJ ? d.find(s.names[i]) : -1;
      if (op == COMPATIBLE) { if (j >= 0) merge(op, d.kids[j], dl.kids[j], s.kids[i], sl.kids[i]); continue; }
      if (d.k != M::OBJ) { dl = Len(); }
      M &c = d.child(s.names[i]);
      j = d.find(s.names[i]);
      if ((size_t)j >= dl.kids.size()) dl.kids.resize(j + 1);
      merge(op, c, dl.kids[j], s.kids[i], sl.kids[i]);
    }
  } else if (s.k == M::LIST) {
    for (size_t i = 0; i < s.kids.size(); i++) {
      if (op == COMPATIBLE) { if (d.k == M::LIST && i < d.kids.size()) merge(op, d.kids[i], dl.kids[i], s.kids[i], sl.kids[i]); continue; }
      if (d.k != M::LIST) { d.clear(); d.k = M::LIST; dl = Len(); }
      if (i >= d.kids.size()) { d.kids.emplace_back(); dl.kids.emplace_back(); }
      merge(op, d.kids[i], dl.kids[i], s.kids[i], sl.kids[i]);
    }
  } else if (s.k == M::LEAF) {
    M o;
    if (op == EXTERN) { d = s; dl = sl; }
    else if (fits(d, s, o, dl.n, sl.n)) d = o;
    else if (op == UPDATE) { d = s; dl = sl; }
  }
}
// leaf addresses of the places where the source has a leaf
static void aliases(int op, const Node &d, const Node &s, const std::string &p) {
  if (s.dtype().is_object()) { for (index_t i = 0; i < s.number_of_children(); i++) { std::string c = s.schema().child_name(i); if (d.has_child(c)) aliases(op, d.child(c), s.child(i), p + "/" + c); } }
  else if (s.dtype().is_list()) { for (index_t i = 0; i < s.number_of_children() && i < d.number_of_children(); i++) aliases(op, d.child(i), s.child(i), p + "/" + std::to_string(i)); }
  else if (s.dtype().number_of_elements() > 0 && d.dtype().id() == s.dtype().id()) {
    bool same = d.element_ptr(0) == s.element_ptr(0);
    if (op == EXTERN) MC_CHECK(same, "not-aliased", "leaf '%s' does not alias the source after update_external", p.c_str());
    else MC_CHECK(!same, "aliased", "leaf '%s' shares memory with the source", p.c_str());
  }
}

static const char *OPS[] = {"update", "update_compatible", "update_external", "move", "swap"};
static void apply(Node &d, Node &s, M &md, M &ms, int op) {
  Len dl = lens(d), sl = lens(s);
  switch (op) {
  case 0: d.update(s); merge(UPDATE, md, dl, ms, sl); break;
  case 1: d.update_compatible(s); merge(COMPATIBLE, md, dl, ms, sl); break;
  case 2: d.update_external(s); merge(EXTERN, md, dl, ms, sl); break;
  case 3: d.move(s); md = ms; ms = M(); break;
  case 4: d.swap(s); std::swap(md, ms); break;
  }
  mc::transition();
}
static int g_salt;
// a container whose first child is a depth-1 tree and whose second, if any, is an atom
static void deep_tree(Env &E, Node &n, int atoms, int salt) {
  bool list = mc::flip(); int second = mc::choose(atoms + 1);
  if (list) { tree(E, n.append(), 1, atoms, salt); if (second) atom(E, n.append(), second - 1, salt + 9); }
  else { tree(E, n.add_child("a"), 1, atoms, salt); if (second) atom(E, n.add_child("b"), second - 1, salt + 9); }
}
static void pairs_(bool deep, int atoms) {
  Env E; Node *s = new Node(), *d = new Node();
  if (deep) { deep_tree(E, *d, atoms, 0); deep_tree(E, *s, atoms, 5); }
  else { tree(E, *d, 1, atoms, 0); tree(E, *s, 1, atoms, 5); }
  int op = mc::choose(5);
  M md = value(*d), ms = value(*s);
  mc::note("destination %s", md.str().c_str());
  mc::note("source      %s", ms.str().c_str());
  mc::note("%s", OPS[op]);
  apply(*d, *s, md, ms, op);
  mc::note("expected    %s", md.str().c_str());
  check_tree(*d, md, ALPHA, nullptr, "", "");
  check_tree(*s, ms, ALPHA, nullptr, "", "");
  if (op <= 2) aliases(op, *d, *s, "");
  // copies and moves do not depend on the source any more, externals not on the destination
  if (op != 2) { delete s; s = nullptr; check_tree(*d, md, {}, nullptr, "", ""); }
  else { delete d; d = nullptr; check_tree(*s, ms, {}, nullptr, "", ""); }
  delete d; delete s;
  MC_CHECK(E.guards_ok(), "guard", "bytes of the caller's memory outside the elements changed");
  mc::observe(mc::mix(md.hash() * 31 + ms.hash()) + op);
  mc::outcome(OPS[op]);
}
static void pairs() { pairs_(false, mc::thorough() ? NATOMS : 8); }
static void deep_pairs() { pairs_(true, mc::thorough() ? 4 : 2); }

// destination and source inside bigger trees (or the same one), then a second operation
static void context() {
  Env E; Node r0, r1;
  int cd = mc::choose(3), cs = mc::choose(4); // 0 root, 1 member of an object, 2 element of a list, 3 sibling of the destination
  if (cs == 3 && cd == 0) throw mc::Abandon();
  auto place = [&](Node &r, int c) -> Node * {
    if (c == 0) return &r;
    if (c == 1) { r["w"].set((i64)77); Node *x = &r["x"]; r["y"].set("tail"); return x; }
    r.append().set((i64)77); r.append(); r.append().set("tail"); return &r.child(1);
  };
  Node *d = place(r0, cd), *s;
  if (cs == 3) { if (cd == 1) s = &r0["y"]; else s = &r0.child(2); } else s = place(r1, cs);
  tree(E, *d, 1, mc::thorough() ? 4 : 2, 0);
  s->reset(); tree(E, *s, 1, 2, 5);
  if (cs == 3) { d = cd == 1 ? &r0["x"] : &r0.child(1); }
  M m0 = value(r0), m1 = value(r1);
  auto mplace = [&](M &r, int c) -> M * { return c == 0 ? &r : &r.kids[1]; };
  M *md = mplace(m0, cd), *ms = cs == 3 ? &m0.kids[2] : mplace(m1, cs);
  int rounds = mc::thorough() ? 3 : 2;
  for (int i = 0; i < rounds; i++) {
    int op = mc::choose(5), dir = mc::choose(2);
    mc::note("R0 %s  R1 %s", m0.str().c_str(), m1.str().c_str());
    mc::note("%s %s", dir ? "source <-" : "destination <-", OPS[op]);
    if (dir) apply(*s, *d, *ms, *md, op); else apply(*d, *s, *md, *ms, op);
    check_tree(r0, m0, ALPHA, nullptr, "", "");
    if (cs != 3) check_tree(r1, m1, ALPHA, nullptr, "", "");
    if (op == 2) break; // from here on the two trees share storage
    mc::Hasher H; H.str(m0.str()); H.str(m1.str()); H.u64(cd * 4 + cs);
    mc::observe(H.h);
  }
  MC_CHECK(E.guards_ok(), "guard", "bytes of the caller's memory outside the elements changed");
  mc::outcome("surroundings");
}
// an operation of a tree with itself changes nothing
static void self() {
  Env E; Node r; tree(E, r, 1, NATOMS, 0);
  M m = value(r);
  int op = mc::choose(3);
  mc::note("%s with itself: %s", OPS[op == 2 ? 4 : op], m.str().c_str());
  if (op == 0) r.update(r); else if (op == 1) r.update_compatible(r); else r.swap(r);
  mc::transition();
  check_tree(r, m, ALPHA, nullptr, "", "");
  MC_CHECK(E.guards_ok(), "guard", "bytes of the caller's memory outside the elements changed");
  mc::outcome("self");
}

int main(int argc, char **argv) {
  cn::init();
  mc::Opt o; o.shard_depth = 2; o.leaks = true;
  mc::Opt o4; o4.shard_depth = 5; o4.leaks = true;
  return mc::main_(argc, argv, "C03",
    {{"pairs", pairs, o4, "every ordered pair of trees of depth 1 over 8 (11 thorough) atoms (empty, leaf kinds of several types, lengths and layouts, strings, empty containers) and names with a slash, times 5 operations"},
     {"deep", deep_pairs, o4, "every ordered pair of containers of a depth-1 tree and an optional atom, over 2 (4) atoms, times 5 operations"},
     {"surroundings", context, o4, "both trees as root, object member, list element or siblings, two (three) operations in a row in either direction"},
     {"self", self, o, "operations of a tree with itself"}},
    {"the destination and the source do not contain each other", "a longer destination leaf of the same type is updated in place and keeps its length, as the library documents"});
}
