// C02: histories of ownership operations on two node trees and two caller buffers, against a
// model in which storage is explicit (who owns which block, which leaves alias it).
#include "cnode.hpp"
#include <algorithm>
#include <set>
using namespace cn;
typedef conduit::int64 i64;

static const int EW = 6; // words in each caller buffer
struct Sto { std::vector<i64> w; bool freed = false; int ext = -1; };
typedef std::shared_ptr<Sto> SP;
struct T {
  enum { EMPTY, OBJ, LIST, LEAF } k = EMPTY;
  std::vector<std::string> names;
  std::vector<T> kids;
  int type = 0; // 0 int64, 1 float64 (bits)
  SP st; int off = 0, str = 1, n = 0;
  SP owned;
  void clear() { for (auto &c : kids) c.clear(); if (owned) owned->freed = true; owned.reset(); st.reset(); kids.clear(); names.clear(); k = EMPTY; n = 0; }
  void obj() { if (k != OBJ) { clear(); k = OBJ; } }
  T &child(const std::string &s) {
    obj();
    for (size_t i = 0; i < names.size(); i++) if (names[i] == s) return kids[i];
    names.push_back(s); kids.emplace_back(); return kids.back();
  }
  i64 get(int i) const { return st->w[off + str * i]; }
  void put(int i, i64 v) { st->w[off + str * i] = v; }
  void alloc(int ty, int cnt) { clear(); k = LEAF; type = ty; n = cnt; owned = st = std::make_shared<Sto>(); st->w.assign(cnt, 0); off = 0; str = 1; }
  void init(int ty, int cnt) { if (k == LEAF && type == ty && n >= cnt) return; alloc(ty, cnt); }
  bool dangling() const { if (k == LEAF && st->freed) return true; for (auto &c : kids) if (c.dangling()) return true; return false; }
  int leaves() const { if (k == LEAF) return n; int s = 0; for (auto &c : kids) s += c.leaves(); return s; }
  void stos(std::set<const Sto *> &o) const { if (k == LEAF) o.insert(st.get()); for (auto &c : kids) c.stos(o); }
  void owns(std::set<const Sto *> &o) const { if (owned) o.insert(owned.get()); for (auto &c : kids) c.owns(o); }
  int count() const { int s = 1; for (auto &c : kids) s += c.count(); return s; }
};
static i64 fbits(double d) { i64 b; memcpy(&b, &d, 8); return b; }

// copy semantics of assignment: every leaf owns its own compact storage
static void m_set(T &d, const T &s) {
  if (s.k == T::OBJ || s.k == T::LIST) {
    d.clear(); d.k = s.k; d.names = s.names;
    d.kids.resize(s.kids.size());
    for (size_t i = 0; i < s.kids.size(); i++) m_set(d.kids[i], s.kids[i]);
  } else if (s.k == T::LEAF) {
    T t; t.alloc(s.type, s.n); for (int i = 0; i < s.n; i++) t.put(i, s.get(i));
    d.clear(); d = t;
  } else d.clear();
}
// alias semantics
static void m_external(T &d, const T &s) {
  d.clear(); d.k = s.k; d.names = s.names; d.type = s.type; d.st = s.st; d.off = s.off; d.str = s.str; d.n = s.n;
  d.kids.resize(s.kids.size());
  for (size_t i = 0; i < s.kids.size(); i++) m_external(d.kids[i], s.kids[i]);
}
// compaction: one block owned by the root, leaves packed in order
static void m_pack(T &d, const T &s, SP blk, int &at) {
  d.k = s.k; d.names = s.names; d.type = s.type;
  if (s.k == T::LEAF) { d.st = blk; d.off = at; d.str = 1; d.n = s.n; for (int i = 0; i < s.n; i++) blk->w[at + i] = s.get(i); at += s.n; }
  d.kids.resize(s.kids.size());
  for (size_t i = 0; i < s.kids.size(); i++) m_pack(d.kids[i], s.kids[i], blk, at);
}
static void m_compact(T &d, const T &s) {
  T t; SP blk = std::make_shared<Sto>(); blk->w.assign(s.leaves(), 0);
  int at = 0; m_pack(t, s, blk, at);
  if (!blk->w.empty()) t.owned = blk;
  d.clear(); d = t;
}
static void m_update(T &d, const T &s) {
  if (s.k == T::OBJ) for (size_t i = 0; i < s.kids.size(); i++) m_update(d.child(s.names[i]), s.kids[i]);
  else if (s.k == T::LIST) {
    for (size_t i = 0; i < s.kids.size(); i++) {
      if (d.k != T::LIST) { d.clear(); d.k = T::LIST; }
      if (i >= d.kids.size()) d.kids.emplace_back();
      m_update(d.kids[i], s.kids[i]);
    }
  } else if (s.k == T::LEAF) {
    if (d.k == T::LEAF && d.type == s.type && d.n >= s.n) for (int i = 0; i < s.n; i++) d.put(i, s.get(i));
    else m_set(d, s);
  }
}
static void m_update_ext(T &d, const T &s) {
  if (s.k == T::OBJ) for (size_t i = 0; i < s.kids.size(); i++) m_update_ext(d.child(s.names[i]), s.kids[i]);
  else if (s.k == T::LIST) {
    for (size_t i = 0; i < s.kids.size(); i++) {
      if (d.k != T::LIST) { d.clear(); d.k = T::LIST; }
      if (i >= d.kids.size()) d.kids.emplace_back();
      m_update_ext(d.kids[i], s.kids[i]);
    }
  } else if (s.k == T::LEAF) m_external(d, s);
}

struct Lay { int n, off, str; };
static const Lay LAYS[] = {{2, 0, 1}, {2, 1, 2}, {3, 0, 2}};

// ---- comparison
struct Cmp {
  std::map<const Sto *, const i64 *> base;
  long alloc = 0;
  i64 *ebuf[2];
  void go(const Node &n, const T &t, const std::string &p) {
    const DataType &d = n.dtype();
    int k = d.is_empty() ? T::EMPTY : d.is_object() ? T::OBJ : d.is_list() ? T::LIST : T::LEAF;
    MC_CHECK(k == t.k, "kind", "%s has kind %d, expected %d", p.c_str(), k, t.k);
    MC_CHECK(n.number_of_children() == (index_t)t.kids.size(), "count", "%s has %ld children, expected %zu", p.c_str(), (long)n.number_of_children(), t.kids.size());
    if (t.owned) alloc += (long)t.owned->w.size() * 8;
    if (k == T::LEAF) {
      MC_CHECK(d.id() == (t.type ? DataType::FLOAT64_ID : DataType::INT64_ID), "type", "%s has type %s", p.c_str(), d.name().c_str());
      MC_CHECK(d.number_of_elements() == t.n, "length", "%s has %ld elements, expected %d", p.c_str(), (long)d.number_of_elements(), t.n);
      for (int i = 0; i < t.n; i++) {
        const i64 *e = (const i64 *)n.element_ptr(i);
        MC_CHECK(*e == t.get(i), "value", "element %d of %s is %ld, expected %ld", i, p.c_str(), (long)*e, (long)t.get(i));
        const i64 *b = e - (t.off + t.str * i);
        auto it = base.find(t.st.get());
        if (it == base.end()) {
          for (auto &o : base) { // distinct storage must not overlap
            bool apart = b + t.st->w.size() <= o.second || o.second + o.first->w.size() <= b;
            MC_CHECK(apart, "aliasing", "%s shares memory with another node although it was copied", p.c_str());
          }
          if (t.st->ext < 0) for (int x = 0; x < 2; x++)
            MC_CHECK(b + t.st->w.size() <= ebuf[x] || ebuf[x] + EW <= b, "aliasing-external", "%s points into a caller buffer although it was copied", p.c_str());
          base[t.st.get()] = b;
        } else MC_CHECK(it->second == b, "not-aliased", "element %d of %s is not where its storage is", i, p.c_str());
        if (t.st->ext >= 0) MC_CHECK(b == ebuf[t.st->ext], "external-address", "%s does not address the caller's buffer", p.c_str());
      }
      if (t.st->ext >= 0) MC_CHECK(n.is_data_external(), "is-external", "%s is external but says it owns its data", p.c_str());
    }
    for (size_t i = 0; i < t.kids.size(); i++) {
      MC_CHECK(n.child(i).parent() == &n, "parent", "child %zu of %s does not name it as its parent", i, p.c_str());
      if (t.k == T::OBJ) MC_CHECK(n.schema().child_name(i) == t.names[i], "names", "%s child %zu is '%s', expected '%s'", p.c_str(), i, n.schema().child_name(i).c_str(), t.names[i].c_str());
      go(n.child(i), t.kids[i], p + "/" + (t.k == T::OBJ ? t.names[i] : std::to_string(i)));
    }
  }
};

static void t_dump(const T &t, std::string &o, std::map<const Sto *, int> &ids) {
  o += "~{[<"[t.k];
  if (t.owned) o += '!';
  if (t.k == T::LEAF) {
    int id = t.st->ext >= 0 ? 100 + t.st->ext : ids.emplace(t.st.get(), (int)ids.size()).first->second;
    o += mc::fmt("%c%d@%d,%d,%d:", t.type ? 'f' : 'i', id, t.off, t.str, t.n);
    for (int i = 0; i < t.n; i++) o += mc::fmt("%ld,", (long)t.get(i));
  }
  for (size_t i = 0; i < t.kids.size(); i++) { if (t.k == T::OBJ) o += t.names[i]; t_dump(t.kids[i], o, ids); }
  o += ')';
}

static const char *PATHS[] = {"", "a", "b"};
struct World {
  Node *r[2]; T m[2];
  i64 *e[2]; SP es[2];
  World() {
    for (int i = 0; i < 2; i++) {
      r[i] = new Node();
      e[i] = (i64 *)malloc(EW * sizeof(i64));
      es[i] = std::make_shared<Sto>(); es[i]->ext = i;
      for (int k = 0; k < EW; k++) { e[i][k] = 10 * (i + 1) + k; es[i]->w.push_back(e[i][k]); }
    }
  }
  ~World() { for (int i = 0; i < 2; i++) { delete r[i]; free(e[i]); } }
};
static int g_depth = 3;
static std::vector<int> g_ops;

static void check_world(World &W) {
  Cmp c; c.ebuf[0] = W.e[0]; c.ebuf[1] = W.e[1];
  for (int i = 0; i < 2; i++) {
    c.alloc = 0;
    c.go(*W.r[i], W.m[i], i ? "R1" : "R0");
    MC_CHECK(W.r[i]->total_bytes_allocated() == c.alloc, "bytes-allocated", "R%d reports %ld bytes allocated, expected %ld", i, (long)W.r[i]->total_bytes_allocated(), c.alloc);
    for (int k = 0; k < EW; k++) MC_CHECK(W.e[i][k] == W.es[i]->w[k], "caller-buffer", "word %d of caller buffer %d is %ld, expected %ld", k, i, (long)W.e[i][k], (long)W.es[i]->w[k]);
  }
}

static void history() {
  World W;
  int serial = 0;
  for (int d = 0; d < g_depth; d++) {
    int op = g_ops[mc::choose((int)g_ops.size(), "op")];
    int ri = d ? mc::choose(2, "root") : 0, pi = mc::choose(3, "path");
    // the other operand
    int rj = -1, pj = 0;
    if (op >= 20) { rj = mc::choose(2, "other"); pj = mc::choose(3, "otherpath"); }
    auto get = [&](int r, int p) -> Node & { return p ? W.r[r]->fetch(PATHS[p]) : *W.r[r]; };
    auto mget = [&](int r, int p) -> T & { return p ? W.m[r].child(PATHS[p]) : W.m[r]; };
    auto has = [&](int r, int p) { return !p || (W.m[r].k == T::OBJ && std::find(W.m[r].names.begin(), W.m[r].names.end(), PATHS[p]) != W.m[r].names.end()); };
    std::string tgt = mc::fmt("R%d%s%s", ri, pi ? "/" : "", PATHS[pi]), oth = rj >= 0 ? mc::fmt("R%d%s%s", rj, pj ? "/" : "", PATHS[pj]) : "";
    if (rj >= 0 && !has(rj, pj)) throw mc::Abandon(); // the source must exist
    i64 v = 1000 + ++serial;
    if (op < 20) {
      Node &n = get(ri, pi);
      T &t = mget(ri, pi);
      if (W.m[0].dangling() || W.m[1].dangling()) throw mc::Abandon();
      switch (op) {
      case 0: mc::note("%s = int64 %ld", tgt.c_str(), (long)v); n.set(v); t.init(0, 1); t.put(0, v); break;
      case 1: { mc::note("%s = vector of 2", tgt.c_str()); std::vector<i64> x = {v, v + 100}; n.set(x); t.init(0, 2); t.put(0, v); t.put(1, v + 100); break; }
      case 2: { int x = mc::choose(2); const Lay &l = LAYS[mc::choose(3)]; mc::note("%s.set(caller buffer %d, n %d offset %d stride %d) (copy)", tgt.c_str(), x, l.n, l.off, l.str);
        if (t.k == T::LEAF && t.st == W.es[x]) throw mc::Abandon(); // a copy between overlapping layouts of one buffer is not judged
        std::vector<i64> vals; for (int i = 0; i < l.n; i++) vals.push_back(W.e[x][l.off + l.str * i]);
        n.set(W.e[x], l.n, l.off * 8, l.str * 8);
        t.init(0, l.n); for (int i = 0; i < l.n; i++) t.put(i, vals[i]);
        break; }
      case 3: { int x = mc::choose(2); const Lay &l = LAYS[mc::choose(3)]; mc::note("%s.set_external(caller buffer %d, n %d offset %d stride %d)", tgt.c_str(), x, l.n, l.off, l.str);
        n.set_external(W.e[x], l.n, l.off * 8, l.str * 8);
        t.clear(); t.k = T::LEAF; t.type = 0; t.st = W.es[x]; t.off = l.off; t.str = l.str; t.n = l.n; break; }
      case 4: mc::note("%s = float64", tgt.c_str()); n.set(2.5); t.init(1, 1); t.put(0, fbits(2.5)); break;
      case 5: mc::note("%s.set(DataType::int64(2))", tgt.c_str()); n.set(DataType::int64(2)); t.init(0, 2); break;
      case 6: mc::note("%s.reset()", tgt.c_str()); n.reset(); t.clear(); break;
      case 7: if (pi) throw mc::Abandon(); mc::note("delete R%d; new Node", ri); delete W.r[ri]; W.r[ri] = new Node(); W.m[ri].clear(); break;
      case 8: case 9: case 10: { // bound to a schema: object {a: 2 words with stride 2 at 0, b: 1 word at 4}
        Schema s; s["a"].set(DataType::int64(2, 0, 16)); s["b"].set(DataType::int64(1, 32));
        SP blk;
        if (op == 8) { mc::note("%s.set_external(schema, caller buffer 0)", tgt.c_str()); n.set_external(s, W.e[0]); blk = W.es[0]; }
        else {
          blk = std::make_shared<Sto>(); blk->w.assign(5, 0);
          if (op == 9) { mc::note("%s.set(schema, caller buffer 0) (copy)", tgt.c_str()); for (int i = 0; i < 5; i++) blk->w[i] = W.e[0][i]; n.set(s, W.e[0]); }
          else { mc::note("%s.set(schema)", tgt.c_str()); n.set(s); }
        }
        t.clear(); t.obj(); if (op != 8) t.owned = blk;
        T a; a.k = T::LEAF; a.st = blk; a.off = 0; a.str = 2; a.n = 2; T b = a; b.off = 4; b.str = 1; b.n = 1;
        t.names = {"a", "b"}; t.kids = {a, b};
        break; }
      case 11: { mc::note("%s.set(Schema())", tgt.c_str()); Schema s; n.set(s); t.clear(); break; }
      case 12: { mc::note("%s.list_of_external(buffer 1, int64 x 2)", tgt.c_str()); n.list_of_external(W.e[1], Schema(DataType::int64(2)), 2);
        t.clear(); t.k = T::LIST; for (int i = 0; i < 2; i++) { T a; a.k = T::LEAF; a.st = W.es[1]; a.off = 2 * i; a.n = 2; t.kids.push_back(a); } break; }
      case 13: { mc::note("%s.list_of(int64 x 2)", tgt.c_str()); n.list_of(Schema(DataType::int64(2)), 2);
        t.clear(); t.k = T::LIST; t.owned = std::make_shared<Sto>(); t.owned->w.assign(4, 0);
        for (int i = 0; i < 2; i++) { T a; a.k = T::LEAF; a.st = t.owned; a.off = 2 * i; a.n = 2; t.kids.push_back(a); } break; }
      case 14: { // write through the node
        if (t.k != T::LEAF || t.type != 0) throw mc::Abandon();
        int i = mc::choose(t.n); mc::note("%s element %d := %ld", tgt.c_str(), i, (long)v);
        n.as_int64_array()[i] = v; t.put(i, v); break; }
      case 15: { // the caller writes its buffer
        if (ri || pi) throw mc::Abandon();
        int x = mc::choose(2), w = mc::choose(3); mc::note("caller buffer %d word %d := %ld", x, w * 2, (long)v);
        W.e[x][w * 2] = v; W.es[x]->w[w * 2] = v; break; }
      case 16: mc::note("%s.append() = %ld", tgt.c_str(), (long)v); { if (t.k == T::LIST && t.kids.size() > 2) throw mc::Abandon(); n.append().set(v); if (t.k != T::LIST) { t.clear(); t.k = T::LIST; } t.kids.emplace_back(); t.kids.back().alloc(0, 1); t.kids.back().put(0, v); } break;
      case 17: { if (!has(ri, 1) || pi) throw mc::Abandon(); mc::note("R%d.remove(a)", ri); W.r[ri]->remove("a"); T &o = W.m[ri]; size_t i = std::find(o.names.begin(), o.names.end(), "a") - o.names.begin(); o.kids[i].clear(); o.kids.erase(o.kids.begin() + i); o.names.erase(o.names.begin() + i); break; }
      case 18: { mc::note("%s.compact_to(itself through a temporary)", tgt.c_str()); if (t.k == T::EMPTY) throw mc::Abandon(); Node x; n.compact_to(x); n.set_external(x); throw mc::Abandon(); }
      case 19: { mc::note("%s.set(DataType::object())", tgt.c_str()); n.set(DataType::object()); t.obj(); break; }
      }
    } else {
      bool related = ri == rj && (!pi || !pj || pi == pj); // one contains the other
      if (op != 20 && op != 27 && related) throw mc::Abandon();
      if (W.m[ri].count() + W.m[rj].count() > 9) throw mc::Abandon();
      if (pi && !has(ri, pi) && related && op != 20) throw mc::Abandon();
      if (related && !has(ri, pi)) throw mc::Abandon();
      Node &n = get(ri, pi); T &t = mget(ri, pi);
      if (W.m[0].dangling() || W.m[1].dangling()) throw mc::Abandon();
      Node &o = get(rj, pj); T &q = mget(rj, pj);
      if (!related && op != 24) { // the target owns what the source aliases: the assignment would free its own source
        std::set<const Sto *> a, b; t.owns(a); q.stos(b);
        for (auto x : a) if (b.count(x)) throw mc::Abandon();
      }
      switch (op) {
      case 20: { mc::note("%s = %s (copy)", tgt.c_str(), oth.c_str()); n.set(o); if (&t != &q) { T c; m_set(c, q); t.clear(); t = c; } break; }
      case 21: mc::note("%s.set_external(%s)", tgt.c_str(), oth.c_str()); n.set_external(o); m_external(t, q); break;
      case 22: mc::note("%s.compact_to(%s)", oth.c_str(), tgt.c_str()); o.compact_to(n); m_compact(t, q); break;
      case 23: { mc::note("%s.move(%s)", tgt.c_str(), oth.c_str()); n.move(o); t.clear(); T x = q; q = T(); t = x; break; }
      case 24: { mc::note("%s.swap(%s)", tgt.c_str(), oth.c_str()); n.swap(o); std::swap(t, q); break; }
      case 25: mc::note("%s.update(%s)", tgt.c_str(), oth.c_str()); { // when target and source share storage the order of the element copies would matter: not judged
        std::set<const Sto *> a, b; t.stos(a); q.stos(b);
        for (auto x : a) if (b.count(x)) throw mc::Abandon();
        n.update(o); m_update(t, q); } break;
      case 26: mc::note("%s.update_external(%s)", tgt.c_str(), oth.c_str()); n.update_external(o); m_update_ext(t, q); break;
      }
    }
    mc::transition();
    if (W.m[0].dangling() || W.m[1].dangling()) { mc::outcome("user error (dangling external), not judged"); throw mc::Abandon(); }
    if (mc::fresh()) check_world(W);
    std::string s; std::map<const Sto *, int> ids;
    t_dump(W.m[0], s, ids); s += '|'; t_dump(W.m[1], s, ids);
    for (int i = 0; i < 2; i++) for (i64 x : W.es[i]->w) s += mc::fmt(",%ld", (long)x);
    mc::note("   -> %s", s.c_str());
    mc::Hasher H; H.str(s); H.u64(op);
    if (!mc::visit(H.h, g_depth - d)) return;
  }
  mc::outcome("history completed");
}

// custom allocators: every block is returned to the allocator it came from
static std::map<void *, int> g_live[2];
static int g_bad = 0;
static void *al(int k, size_t n, size_t s) { void *p = calloc(n ? n * s : 1, 1); g_live[k][p] = 1; return p; }
static void *al0(size_t n, size_t s) { return al(0, n, s); }
static void *al1(size_t n, size_t s) { return al(1, n, s); }
static void fr(int k, void *p) { if (!g_live[k].erase(p)) { g_bad++; return; } free(p); }
static void fr0(void *p) { fr(0, p); }
static void fr1(void *p) { fr(1, p); }
static int A0 = -1, A1 = -1;
static void allocators() {
  g_live[0].clear(); g_live[1].clear(); g_bad = 0;
  {
    Node r0, r1;
    r0.set_allocator(A0); r1.set_allocator(A1);
    for (int d = 0; d < (mc::thorough() ? 5 : 4); d++) {
      int op = mc::choose(13);
      Node &a = mc::flip() ? r0 : r1; Node &b = &a == &r0 ? r1 : r0;
      const char *A = &a == &r0 ? "R0" : "R1";
      switch (op) {
      case 0: mc::note("%s[x] = array", A); a["x"].set(std::vector<i64>{1, 2}); break;
      case 1: mc::note("%s = array", A); a.set(std::vector<i64>{1, 2, 3}); break;
      case 2: mc::note("%s = other (copy)", A); a.set(b); break;
      case 3: mc::note("other.compact_to(%s)", A); b.compact_to(a); break;
      case 4: mc::note("%s.move(other)", A); a.move(b); break;
      case 5: mc::note("%s.swap(other)", A); a.swap(b); break;
      case 6: mc::note("%s.reset()", A); a.reset(); break;
      case 7: mc::note("%s.update(other)", A); a.update(b); break;
      case 8: mc::note("%s.append()", A); if (a.number_of_children() > 2) throw mc::Abandon(); a.append().set("text"); break;
      case 9: mc::note("%s.set(schema)", A); { Schema s; s["x"].set(DataType::float64(2)); s["y"].set(DataType::int8(1)); a.set(s); } break;
      case 10: mc::note("%s[x].set(other)", A); a["x"].set(b); if (a.total_bytes_compact() > 400) throw mc::Abandon(); break;
      case 11: mc::note("%s.reset_allocator(); set_allocator", A); a.reset_allocator(); a.set_allocator(&a == &r0 ? A1 : A0); break;
      case 12: mc::note("%s.list_of", A); a.list_of(Schema(DataType::int64(2)), 2); break;
      }
      mc::transition();
      MC_CHECK(g_bad == 0, "wrong-allocator", "a block was returned to an allocator it did not come from");
      mc::Hasher H; H.str(r0.schema().to_json()); H.str(r1.schema().to_json()); H.u64(op); H.u64(r0.allocator()); H.u64(r1.allocator()); H.u64(g_live[0].size()); H.u64(g_live[1].size());
      mc::observe(H.h);
    }
  }
  MC_CHECK(g_bad == 0, "wrong-allocator", "a block was returned to an allocator it did not come from");
  MC_CHECK(g_live[0].empty() && g_live[1].empty(), "allocator-leak", "%zu blocks of the custom allocators were not returned", g_live[0].size() + g_live[1].size());
  mc::outcome("allocator history completed");
}

int main(int argc, char **argv) {
  cn::init();
  bool th = (getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"));
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough")) th = true;
  A0 = conduit::utils::register_allocator(al0, fr0);
  A1 = conduit::utils::register_allocator(al1, fr1);
  g_depth = th ? 4 : 3;
  for (int i = 0; i <= 26; i++) if (i != 18) g_ops.push_back(i);
  mc::Opt o; o.shard_depth = 4; o.leaks = true; o.table_bits = th ? 26 : 22;
  mc::Opt oa; oa.shard_depth = 4;
  return mc::main_(argc, argv, "C02",
    {{"ownership", history, o, "all sequences of ownership operations on two trees (root and two children each) and two caller buffers"},
     {"allocators", allocators, oa, "all sequences of operations on two trees with different custom allocators"}},
    {"external data is only used while the caller's (or owning node's) memory is alive: histories that leave a dangling alias are cut",
     "AddressSanitizer observes frees and accesses; a leak is an allocation of an execution that repeats on every re-execution"});
}
