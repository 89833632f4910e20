// C01: operation histories on node trees (and on schemas) against an ordered
// dictionary / list, plus the complete state machine of the child iterators.
#include "cnode.hpp"
using namespace cn;

static const std::vector<std::string> NAMES = {"a", "b", "c"};
static const std::vector<std::string> PROBE = {"a", "b", "c", "p/q", "d", "", "p", "q", ".."};
static const char *CREATE_PATHS[] = {"a/b", "b/a/c", "/c", "a//b", "b/", "a/../c"};
static const char *LOOKUP_PATHS[] = {"a", "a/b", "b/a", "b/a/c", "c/d", "a/b/c/d", "d", "p/q"};

// ---- reference path resolution
static std::vector<std::string> comps(const std::string &p) {
  std::vector<std::string> r; std::string c;
  for (char ch : p + "/") { if (ch == '/') { if (!c.empty()) r.push_back(c); c.clear(); } else c += ch; }
  return r;
}
struct Ref { // node + path of indices from the root
  std::vector<int> at;
};
static M &at(M &root, const std::vector<int> &p) { M *m = &root; for (int i : p) m = &m->kids[i]; return *m; }
static Node &at(Node &root, const std::vector<int> &p) { Node *n = &root; for (int i : p) n = &n->child(i); return *n; }
static M *create(M &root, std::vector<int> &pos, const std::string &path) {
  for (auto &c : comps(path)) {
    M &m = at(root, pos);
    if (c == "..") { m.obj(); if (pos.empty()) return nullptr; pos.pop_back(); continue; }
    m.child(c);
    pos.push_back(at(root, pos).find(c));
  }
  return &at(root, pos);
}
static M *lookup(M &root, std::vector<int> pos, const std::string &path) {
  for (auto &c : comps(path)) {
    M &m = at(root, pos);
    int i = m.k == M::OBJ ? m.find(c) : -1;
    if (i < 0) return nullptr;
    pos.push_back(i);
  }
  return &at(root, pos);
}
static void all_nodes(const M &m, std::vector<int> pre, std::vector<std::vector<int>> &out, int maxd) {
  out.push_back(pre);
  if ((int)pre.size() >= maxd) return;
  for (size_t i = 0; i < m.kids.size(); i++) { pre.push_back((int)i); all_nodes(m.kids[i], pre, out, maxd); pre.pop_back(); }
}
static std::string show(const std::vector<int> &p) { std::string s = "root"; for (int i : p) s += "[" + std::to_string(i) + "]"; return s; }

static int g_target = 2;
static int g_depth = 4, g_maxkids = 3, g_maxsize = 9;

// one operation on node n (at pos) and on the model; returns false if it is not enabled
static void step(Node &root, M &m) {
  std::vector<std::vector<int>> all;
  all_nodes(m, {}, all, g_target);
  std::vector<int> pos = all[mc::choose((int)all.size(), "target")];
  Node &n = at(root, pos);
  M &t = at(m, pos);
  bool full = (int)t.kids.size() >= g_maxkids || m.size() >= g_maxsize;
  M before = m;
  int op = mc::choose(17, "op");
  const std::string at_s = mc::replaying() ? show(pos) : std::string();
  const char *A = at_s.c_str();
  switch (op) {
  case 0: { // fetch / create by name
    const std::string &nm = mc::pick(NAMES);
    mc::note("%s[\"%s\"]", A, nm.c_str());
    if (full && t.find(nm) < 0) { mc::outcome("skipped (bound)"); throw mc::Abandon(); }
    Node *r = &n[nm];
    std::vector<int> q = pos; create(m, q, nm);
    MC_CHECK(r == &at(root, q), "fetch-result", "fetch returned another node");
    break;
  }
  case 1: { // path creation
    const char *p = CREATE_PATHS[mc::choose(6, "path")];
    mc::note("%s.fetch(\"%s\")", A, p);
    if (full) throw mc::Abandon();
    std::vector<int> q = pos; create(m, q, p);
    Node *r = &n.fetch(p);
    MC_CHECK(r == &at(root, q), "fetch-result", "fetch('%s') returned another node", p);
    break;
  }
  case 2: { // add_child, names taken literally
    static const std::vector<std::string> AN = {"a", "p/q", "c"};
    const std::string &nm = mc::pick(AN);
    mc::note("%s.add_child(\"%s\")", A, nm.c_str());
    if (full && t.find(nm) < 0) throw mc::Abandon();
    Node *r = &n.add_child(nm);
    t.child(nm);
    std::vector<int> q = pos; q.push_back(at(m, pos).find(nm));
    MC_CHECK(r == &at(root, q), "add_child-result", "add_child returned another node");
    break;
  }
  case 3: { // append
    mc::note("%s.append()", A);
    if (full) throw mc::Abandon();
    Node *r = &n.append();
    t.list(); t.kids.emplace_back();
    MC_CHECK(r == &n.child(n.number_of_children() - 1), "append-result", "append returned another node");
    break;
  }
  case 4: { // remove by index, in and out of range
    int i = mc::choose((int)t.kids.size() + 2, "index") - 1;
    mc::note("%s.remove(%d)", A, i);
    bool bad = i < 0 || i >= (int)t.kids.size();
    bool th = throws([&] { n.remove((index_t)i); });
    MC_CHECK(th == bad, "remove-index", "remove(%d) with %d children: error reported %d", i, (int)t.kids.size(), th);
    if (!bad) t.erase(i);
    break;
  }
  case 5: { // remove by path
    const char *p = LOOKUP_PATHS[mc::choose(7, "path")];
    mc::note("%s.remove(\"%s\")", A, p);
    auto cs = comps(p);
    std::vector<int> q = pos; bool ok = true;
    for (auto &c : cs) { M &x = at(m, q); int i = x.k == M::OBJ ? x.find(c) : -1; if (i < 0) { ok = false; break; } q.push_back(i); }
    bool th = throws([&] { n.remove(std::string(p)); });
    MC_CHECK(th == !ok, "remove-path", "remove('%s'): error reported %d, expected %d", p, th, !ok);
    if (ok) { int i = q.back(); q.pop_back(); at(m, q).erase(i); }
    break;
  }
  case 6: { // remove_child, literal names
    static const std::vector<std::string> AN = {"p/q", "a", "b", "d"};
    const std::string &nm = mc::pick(AN);
    mc::note("%s.remove_child(\"%s\")", A, nm.c_str());
    int i = t.k == M::OBJ ? t.find(nm) : -1;
    bool th = throws([&] { n.remove_child(nm); });
    MC_CHECK(th == (i < 0), "remove_child", "remove_child('%s'): error reported %d", nm.c_str(), th);
    if (i >= 0) t.erase(i);
    break;
  }
  case 7: { // rename
    static const std::vector<std::string> AN = {"a", "b", "p/q"};
    const std::string &o = mc::pick(AN);
    const std::string &w = mc::pick(AN);
    mc::note("%s.rename_child(\"%s\",\"%s\")", A, o.c_str(), w.c_str());
    int i = t.k == M::OBJ ? t.find(o) : -1;
    bool bad = i < 0 || t.find(w) >= 0;
    bool th = throws([&] { n.rename_child(o, w); });
    MC_CHECK(th == bad, "rename", "rename_child('%s','%s'): error reported %d, expected %d", o.c_str(), w.c_str(), th, bad);
    if (!bad) t.names[i] = w;
    break;
  }
  case 8: { // leaf values
    int k = mc::choose(3, "leaf");
    mc::note("%s = leaf %d", A, k);
    if (k == 0) { n = (conduit::int64)7; t.set_leaf("int64:7"); }
    else if (k == 1) { n.set(2.5); t.set_leaf("float64:2.5"); }
    else { n.set(std::string("s")); t.set_leaf("char8_str:s"); }
    break;
  }
  case 9: mc::note("%s.reset()", A); n.reset(); t.clear(); break;
  case 10: { // become an empty container
    bool l = mc::flip();
    mc::note("%s.set(DataType::%s())", A, l ? "list" : "object");
    n.set(l ? DataType::list() : DataType::object());
    // setting the type a container already has keeps nothing: documented as (re)initialisation
    if (l) { if (t.k != M::LIST) t.list(); } else { if (t.k != M::OBJ) t.obj(); }
    break;
  }
  case 11: { // copy another subtree here
    std::vector<int> src = all[mc::choose((int)all.size(), "source")];
    mc::note("%s = copy of %s", A, show(src).c_str());
    // neither inside the other
    size_t k = std::min(src.size(), pos.size());
    if (std::equal(src.begin(), src.begin() + k, pos.begin())) throw mc::Abandon();
    M s = at(m, src);
    if (m.size() + s.size() > g_maxsize + 4 || m.depth() > 4) throw mc::Abandon();
    n = at(root, src);
    at(m, pos) = s;
    break;
  }
  case 12: { // failing and succeeding lookups change nothing
    const char *p = LOOKUP_PATHS[mc::choose(8, "path")];
    mc::note("%s.fetch_existing(\"%s\")", A, p);
    M *e = lookup(m, pos, p);
    const Node &cn_ = n;
    Node *r = nullptr; const Node *cr = nullptr;
    bool th = throws([&] { r = &n.fetch_existing(p); });
    bool th2 = throws([&] { cr = &cn_.fetch_existing(p); });
    MC_CHECK(th == (e == nullptr) && th2 == th, "lookup", "fetch_existing('%s'): errors %d/%d, expected %d", p, th, th2, e == nullptr);
    MC_CHECK(n.has_path(p) == (e != nullptr), "has_path", "has_path('%s') is %d", p, n.has_path(p));
    MC_CHECK((cn_.fetch_ptr(p) != nullptr) == (e != nullptr), "fetch_ptr", "const fetch_ptr('%s')", p);
    bool th3 = throws([&] { cn_[p]; });
    MC_CHECK(th3 == th, "const-fetch", "const operator[]('%s') error %d", p, th3);
    if (e) MC_CHECK(r == cr && value(*r) == *e, "lookup-result", "fetch_existing('%s') found another node", p);
    break;
  }
  case 13: { // degenerate lookups are errors, not crashes
    static const char *BAD[] = {"", "/", "a/", "//"};
    const char *p = BAD[mc::choose(4, "path")];
    mc::note("%s.fetch_existing(\"%s\")", A, p);
    M *e = std::string(p) == "a/" ? lookup(m, pos, "a") : nullptr;
    const Node &cn_ = n;
    bool th = throws([&] { n.fetch_existing(p); }), th2 = throws([&] { cn_.fetch_existing(p); });
    MC_CHECK(th == (e == nullptr) && th2 == th, "lookup-degenerate", "fetch_existing('%s'): errors %d/%d", p, th, th2);
    break;
  }
  case 14: { // child index out of range
    int i = (int)t.kids.size() + (mc::flip() ? 0 : -1 - (int)t.kids.size());
    mc::note("%s.child(%d)", A, i);
    const Node &cn_ = n;
    bool th = throws([&] { n.child((index_t)i); }), th2 = throws([&] { cn_.child((index_t)i); });
    bool th3 = throws([&] { n[(index_t)i]; }), th4 = throws([&] { n.child_ptr((index_t)i); });
    MC_CHECK(th && th2 && th3 && th4, "child-range", "child(%d) of %d children: no error", i, (int)t.kids.size());
    bool th5 = throws([&] { n.child(std::string("zz")); });
    MC_CHECK(th5, "child-name", "child(\"zz\") of a node without it: no error");
    break;
  }
  case 15: { // creation below a leaf or list turns it into an object
    mc::note("%s.fetch(\"c\") = 7", A);
    if (full && t.find("c") < 0) throw mc::Abandon();
    n["c"].set((conduit::int64)7);
    t.child("c").set_leaf("int64:7");
    break;
  }
  case 16: { // round trip of the whole tree through copy construction
    mc::note("root = Node(root)");
    Node c(root);
    Node d; d.set(c);
    root.set(d);
    break;
  }
  }
}

static void history() {
  Node root;
  M m;
  for (int d = 0; d < g_depth; d++) {
    size_t c0 = mc::g().cursor;
    step(root, m);
    mc::transition();
    if (mc::fresh()) check_tree(root, m, PROBE, nullptr, "", "");
    mc::note("   -> %s", m.str().c_str());
    mc::Hasher H; H.u64(m.hash());
    // last operation kept in the key, so that equal trees reached differently are both explored
    H.u64(mc::g().trail.size() > c0 + 1 ? mc::g().trail[c0 + 1].first : 0);
    if (!mc::visit(H.h, g_depth - d)) return;
  }
  mc::outcome("history completed");
}

// histories that start from a populated tree
static void populated() {
  Node root; M m;
  g_target = mc::thorough() ? 2 : 1;
  int k = mc::choose(3, "start");
  if (k == 0) { for (auto &s : NAMES) { root[s] = (conduit::int64)7; m.child(s).set_leaf("int64:7"); } }
  else if (k == 1) { for (int i = 0; i < 3; i++) { root.append() = (conduit::int64)(7 + i); m.list(); m.kids.emplace_back(); m.kids.back().set_leaf("int64:" + std::to_string(7 + i)); } }
  else { root["a/b"] = 2.5; root["b/a/c"] = "s"; m.child("a").child("b").set_leaf("float64:2.5"); m.child("b").child("a").child("c").set_leaf("char8_str:s"); }
  check_tree(root, m, PROBE, nullptr, "", "");
  int depth = g_depth - 1;
  for (int d = 0; d < depth; d++) {
    size_t c0 = mc::g().cursor;
    step(root, m);
    mc::transition();
    if (mc::fresh()) check_tree(root, m, PROBE, nullptr, "", "");
    mc::note("   -> %s", m.str().c_str());
    mc::Hasher H; H.u64(m.hash()); H.u64(mc::g().trail.size() > c0 + 1 ? mc::g().trail[c0 + 1].first : 0);
    if (!mc::visit(H.h, depth - d)) return;
  }
  mc::outcome("history completed");
}

// ------------------------------------------------------------- schema histories
static void check_schema(const Schema &s, const M &m, const Schema *parent) {
  int k = s.dtype().is_empty() ? M::EMPTY : s.dtype().is_object() ? M::OBJ : s.dtype().is_list() ? M::LIST : M::LEAF;
  MC_CHECK(k == m.k, "schema-kind", "schema at '%s' has kind %d, expected %d", s.path().c_str(), k, m.k);
  MC_CHECK(s.parent() == parent, "schema-parent", "schema at '%s': wrong parent", s.path().c_str());
  MC_CHECK(s.number_of_children() == (index_t)m.kids.size(), "schema-count", "schema at '%s': %ld children, expected %zu", s.path().c_str(), (long)s.number_of_children(), m.kids.size());
  if (k == M::OBJ) MC_CHECK(s.child_names() == m.names, "schema-names", "schema names differ: %s", m.str().c_str());
  for (auto &a : PROBE) {
    int i = k == M::OBJ ? m.find(a) : -1;
    MC_CHECK(s.has_child(a) == (i >= 0), "schema-has_child", "schema has_child('%s') is %d", a.c_str(), s.has_child(a));
    if (i >= 0) MC_CHECK(s.child_index(a) == i && &s.child(a) == s.child_ptr(i), "schema-index", "schema child '%s' index", a.c_str());
  }
  for (size_t i = 0; i < m.kids.size(); i++) check_schema(s.child((index_t)i), m.kids[i], &s);
}
static void schema_history() {
  Schema root; M m;
  int depth = g_depth;
  for (int d = 0; d < depth; d++) {
    std::vector<std::vector<int>> all;
    all_nodes(m, {}, all, 1);
    std::vector<int> pos = all[mc::choose((int)all.size(), "target")];
    Schema *s = &root; for (int i : pos) s = s->child_ptr(i);
    M &t = at(m, pos);
    bool full = (int)t.kids.size() >= g_maxkids || m.size() >= g_maxsize;
    int op = mc::choose(10, "op");
    switch (op) {
    case 0: { const std::string &nm = mc::pick(NAMES); mc::note("%s[\"%s\"]", show(pos).c_str(), nm.c_str());
      if (full && t.find(nm) < 0) throw mc::Abandon(); (*s)[nm]; t.child(nm); break; }
    case 1: { static const std::vector<std::string> PP = {"a/b", "b/c"}; const std::string &p = mc::pick(PP);
      mc::note("%s.fetch(\"%s\")", show(pos).c_str(), p.c_str()); if (full) throw mc::Abandon(); s->fetch(p); std::vector<int> q = pos; create(m, q, p); break; }
    case 2: { static const std::vector<std::string> AN = {"p/q", "a"}; const std::string &nm = mc::pick(AN); mc::note("add_child %s", nm.c_str());
      if (full && t.find(nm) < 0) throw mc::Abandon(); s->add_child(nm); t.child(nm); break; }
    case 3: mc::note("append"); if (full) throw mc::Abandon(); s->append(); t.list(); t.kids.emplace_back(); break;
    case 4: { int i = mc::choose((int)t.kids.size() + 2) - 1; mc::note("remove(%d)", i); bool bad = i < 0 || i >= (int)t.kids.size();
      bool th = throws([&] { s->remove((index_t)i); }); MC_CHECK(th == bad, "schema-remove", "Schema::remove(%d): error %d", i, th); if (!bad) t.erase(i); break; }
    case 5: { static const std::vector<std::string> AN = {"p/q", "a", "b"}; const std::string &nm = mc::pick(AN); mc::note("remove_child %s", nm.c_str());
      int i = t.k == M::OBJ ? t.find(nm) : -1; bool th = throws([&] { s->remove_child(nm); });
      MC_CHECK(th == (i < 0), "schema-remove_child", "remove_child('%s') error %d", nm.c_str(), th); if (i >= 0) t.erase(i); break; }
    case 6: { static const std::vector<std::string> AN = {"a", "b", "p/q"}; const std::string &o = mc::pick(AN); const std::string &w = mc::pick(AN); mc::note("rename %s %s", o.c_str(), w.c_str());
      int i = t.k == M::OBJ ? t.find(o) : -1; bool bad = i < 0 || t.find(w) >= 0; bool th = throws([&] { s->rename_child(o, w); });
      MC_CHECK(th == bad, "schema-rename", "rename_child error %d expected %d", th, bad); if (!bad) t.names[i] = w; break; }
    case 7: mc::note("set(int64)"); s->set(DataType::int64(2)); t.set_leaf("x"); break;
    case 8: mc::note("reset"); s->reset(); t.clear(); break;
    case 9: { mc::note("copy and assign back"); Schema c(root); root = c; break; }
    }
    mc::transition();
    if (mc::fresh()) check_schema(root, m, nullptr);
    mc::Hasher H; H.u64(m.hash()); H.u64(op);
    if (!mc::visit(H.h, depth - d)) return;
  }
  mc::outcome("schema history completed");
}

// ------------------------------------------------------------- iterators
template <class It, class N_> static void run_iter(N_ &n, const M &m, int depth) {
  It it = n.children();
  int N = (int)m.kids.size(), k = 0;
  for (int d = 0; d < depth; d++) {
    int op = mc::choose(6);
    switch (op) {
    case 0: mc::note("to_front"); it.to_front(); k = 0; break;
    case 1: mc::note("to_back"); it.to_back(); k = N; break;
    case 2: { mc::note("next at %d", k); const Node *r = nullptr; bool th = throws([&] { r = &it.next(); });
      MC_CHECK(th == (k >= N), "iter-next", "next at %d of %d: error %d", k, N, th); if (!th) { k++; MC_CHECK(r == &n.child(k - 1), "iter-next-node", "next returned another child"); } break; }
    case 3: { mc::note("previous at %d", k); const Node *r = nullptr; bool th = throws([&] { r = &it.previous(); });
      MC_CHECK(th == (k <= 1), "iter-previous", "previous at %d of %d: error %d", k, N, th); if (!th) { k--; MC_CHECK(r == &n.child(k - 1), "iter-previous-node", "previous returned another child"); } break; }
    case 4: { const Node *r = nullptr; bool th = throws([&] { r = &it.peek_next(); });
      MC_CHECK(th == (k >= N), "iter-peek", "peek_next at %d of %d: error %d", k, N, th); if (!th) MC_CHECK(r == &n.child(k), "iter-peek-node", "peek_next returned another child"); break; }
    case 5: { It c2(it); It c3; c3 = c2; it = c3; break; }
    }
    MC_CHECK(it.has_next() == (N > 0 && k < N), "iter-has_next", "has_next at %d of %d is %d", k, N, it.has_next());
    MC_CHECK(it.has_previous() == (k > 1), "iter-has_previous", "has_previous at %d of %d is %d", k, N, it.has_previous());
    if (k > 0) {
      MC_CHECK(it.index() == k - 1, "iter-index", "index at %d is %ld", k, (long)it.index());
      MC_CHECK(&it.node() == &n.child(k - 1), "iter-node", "node at %d", k);
      std::string en = m.k == M::OBJ ? m.names[k - 1] : std::to_string(k - 1);
      MC_CHECK(it.name() == en, "iter-name", "name at %d is '%s', expected '%s'", k, it.name().c_str(), en.c_str());
    }
    mc::transition();
    mc::Hasher H; H.u64(k); H.u64(N); H.u64(m.k); H.u64(op);
    if (!mc::visit(H.h, depth - d)) return;
  }
}
static void iterators() {
  int kind = mc::choose(3), N = mc::choose(4);
  bool cst = mc::flip();
  Node n; M m;
  if (kind == 0) { n.set(DataType::object()); m.obj(); for (int i = 0; i < N; i++) { std::string s = NAMES[i]; if (i == 1) s = "x/y"; n.add_child(s) = (conduit::int64)i; m.child(s).set_leaf("l"); } }
  else if (kind == 1) { n.set(DataType::list()); m.list(); for (int i = 0; i < N; i++) { n.append() = (conduit::int64)i; m.kids.emplace_back(); } }
  else { if (N) throw mc::Abandon(); n = 3; m.set_leaf("l"); }
  mc::note("iterator over %s (%s)", m.str().c_str(), cst ? "const" : "mutable");
  // range-style iteration, both directions
  std::vector<const Node *> seen;
  if (cst) { const Node &c = n; for (const Node &x : c.children()) seen.push_back(&x); }
  else for (Node &x : n.children()) seen.push_back(&x);
  MC_CHECK((int)seen.size() == N, "range-count", "range iteration visits %zu of %d", seen.size(), N);
  for (int i = 0; i < N; i++) MC_CHECK(seen[i] == &n.child(i), "range-order", "range iteration position %d", i);
  auto itx = n.children();
  auto b = itx.begin(), e = itx.end();
  MC_CHECK(e - b == N, "range-distance", "end - begin is %ld", (long)(e - b));
  auto p = e; for (int i = N - 1; i >= 0; i--) { --p; MC_CHECK(&*p == &n.child(i) && &b[i] == &n.child(i) && &*(b + i) == &n.child(i), "range-random", "random access at %d", i); }
  MC_CHECK(p == b, "range-back", "walking back does not end at begin");
  int depth = mc::thorough() ? 9 : 7;
  if (cst) { const Node &c = n; run_iter<conduit::NodeConstIterator>(c, m, depth); }
  else run_iter<conduit::NodeIterator>(n, m, depth);
}

int main(int argc, char **argv) {
  cn::init();
  bool th = (getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"));
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough")) th = true;
  g_depth = th ? 5 : 4;
  mc::Opt o; o.shard_depth = 4; o.leaks = true; o.table_bits = th ? 26 : 22;
  mc::Opt oi; oi.shard_depth = 4;
  return mc::main_(argc, argv, "C01",
    {{"history", history, o, "all operation sequences from an empty node, up to the depth, children per node <= 3, nodes <= 9, names a,b,c,p/q"},
     {"populated", populated, o, "all operation sequences from three populated trees"},
     {"schema", schema_history, o, "all operation sequences on a schema"},
     {"iterators", iterators, oi, "all sequences of iterator operations on objects, lists and leaves with 0..3 children"}},
    {"names are from a five-letter alphabet including names with slashes; paths are relative, with culled empty components",
     "equal reference trees with the same last operation are explored once per remaining depth"});
}
