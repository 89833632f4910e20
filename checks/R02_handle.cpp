// R02: I/O handles against an in-memory tree: every sequence of opens, writes, removals and closes.
#include "relay.hpp"
using namespace rl;
using scratch::file;
static const char *const MODE[] = {"", "rw", "r", "w", "wa", "wt", "rwt", "rwa", "q", "rat"};
static bool rd(int m) { return m != 3 && m != 4 && m != 5; }
static bool wr(int m) { return m != 2; }
static bool trunc(int m) { return m == 5 || m == 6; }
static void part(Node &n, int k, bool typed) {
  switch (k) {
  case 0: n["a"].set((conduit::int64)1); n["b/c"].set("s"); break;
  case 1: n["b/d"].set((conduit::float64)2.5); n["b/c"].set("t"); break;
  case 2: n["a"].set((conduit::int64)7); if (typed) { n["e"].append().set((conduit::int64)1); n["e"].append().set((conduit::int64)2); } else { n["e"].append().set("u"); n["e"].append().set("v"); } break;
  case 3: typed ? n["a"].set((conduit::uint16)3) : n["a"].set((conduit::float64)0.5); break; // another type
  case 4: n["a/x"].set((conduit::int64)4); break; // a group over a leaf
  case 5: if (typed) n["e"].append().set((conduit::int64)9); else n["e"].append().set("w"); n["g"].set(DataType::int64(3)); n["g"].as_int64_ptr()[0] = 1; n["g"].as_int64_ptr()[1] = 2; n["g"].as_int64_ptr()[2] = 3; break;
  }
}
static const char *const PATHS[] = {"a", "b", "b/c", "e", "b/zz", "zz/y", "a/x"};
static const int NP = 7, NK = 6;
struct H {
  int p; std::string f; Node ref; bool exists = false; // the file
  io::IOHandle *h; int mode = -1; Node live;            // the handle and what it stores
};
static bool same(const Node &a, const Node &b, int) { return soft(a, 3) == soft(b, 3); } // merging an empty group may or may not create it
// every read-only operation, in this state
static void probe(H &s) {
  Node g;
  MC_CHECK(s.h->is_open() == (s.mode >= 0), "is-open", "%s: is_open is %d, the handle is %s", PROTO[s.p], (int)s.h->is_open(), s.mode >= 0 ? "open" : "closed");
  std::vector<std::string> names = {"old"};
  if (s.mode < 0 || !rd(s.mode)) {
    g["k"] = 1; bool q = reported([&] { s.h->read(g); }) && reported([&] { s.h->read("a", g); }) && reported([&] { s.h->has_path("a"); }) && reported([&] { s.h->list_child_names(names); }) && reported([&] { s.h->list_child_names("b", names); });
    MC_CHECK(q && g.number_of_children() == 1, "refuse-read", "%s: reading through a %s handle is not refused", PROTO[s.p], s.mode < 0 ? "closed" : "write only");
  } else {
    s.h->read(g); MC_CHECK(same(g, s.live, s.p), "read", "%s: reading gives %s, written %s", PROTO[s.p], cn::dump(g).c_str(), cn::dump(s.live).c_str());
    Node pre, w; pre["k"].set((conduit::int64)5); pre["b/c"].set("x"); w.set(pre); w.update(s.live); if (!(s.p == 3 && clash(cn::value(pre), cn::value(s.live)))) { s.h->read("", pre); MC_CHECK(same(pre, w, s.p), "read-merge", "%s: reading into a tree gives %s, update %s", PROTO[s.p], cn::dump(pre).c_str(), cn::dump(w).c_str()); }
    s.h->list_child_names(names); MC_CHECK(names == s.live.child_names(), "list", "%s: the child names of the root differ", PROTO[s.p]);
    for (int i = 0; i < NP; i++) {
      bool has = s.live.has_path(PATHS[i]); MC_CHECK(s.h->has_path(PATHS[i]) == has, "has-path", "%s: has_path(%s) is wrong", PROTO[s.p], PATHS[i]);
      Node q, w2; q["k"].set((conduit::int64)1); w2.set(q); names = {"old"};
      if (has) {
        Node r; s.h->read(PATHS[i], r); MC_CHECK(same(r, s.live[PATHS[i]], s.p), "read-path", "%s: reading %s gives %s, written %s", PROTO[s.p], PATHS[i], cn::dump(r).c_str(), cn::dump(s.live[PATHS[i]]).c_str());
        const Node &t = s.live.fetch_existing(PATHS[i]);
        if (!t.dtype().is_list()) { s.h->list_child_names(PATHS[i], names); MC_CHECK(names == t.child_names(), "list-path", "%s: the child names of %s differ", PROTO[s.p], PATHS[i]); }
      } else {
        reported([&] { s.h->read(PATHS[i], q); }); MC_CHECK(cn::dump(q) == cn::dump(w2), "read-missing", "%s: reading the missing path %s changed the destination", PROTO[s.p], PATHS[i]);
        s.h->list_child_names(PATHS[i], names); MC_CHECK(names.empty(), "list-missing", "%s: listing the missing path %s gives names", PROTO[s.p], PATHS[i]);
      }
      MC_CHECK(!s.live.has_path(PATHS[i]) == !has, "harness", "internal");
    }
  }
  if (s.mode < 0 || !wr(s.mode)) {
    Node n; n["a"].set((conduit::int64)99); bool q = reported([&] { s.h->write(n); }) && reported([&] { s.h->write(n, "b"); }) && reported([&] { s.h->remove("a"); });
    MC_CHECK(q, "refuse-write", "%s: writing through a %s handle is not refused", PROTO[s.p], s.mode < 0 ? "closed" : "read only");
  }
}
static void on_disk(H &s, const char *after) {
  if (!s.exists) { MC_CHECK(!scratch::exists(s.f), "no-file", "%s: %s created the file", PROTO[s.p], after); return; }
  Node g; if (s.ref.dtype().is_empty() && s.p >= 4) return;
  try { io::load(s.f, PROTO[s.p], g); } catch (std::exception &e) { mc::fail("disk", mc::fmt("%s: after %s the file does not load: %s", PROTO[s.p], after, std::string(e.what()).substr(0, 300).c_str())); }
  MC_CHECK(same(g, s.ref, s.p), "disk", "%s: after %s the file holds %s, expected %s", PROTO[s.p], after, cn::dump(g).c_str(), cn::dump(s.ref).c_str());
}
static void sequences() {
  H s; s.p = mc::choose(6); s.f = file("h"); wipe(s.f); Res r; int steps = (s.p == 0 || s.p == 3 ? 4 : 3) + mc::thorough(); io::IOHandle hnd; s.h = &hnd;
  if (mc::choose(2)) { Node t; part(t, 0, s.p < 4); io::save(t, s.f, PROTO[s.p]); s.ref.set(t); s.exists = true; }
  for (int i = 0; i < steps; i++) {
    int op = mc::choose(s.mode >= 0 && wr(s.mode) ? 5 : 2); const char *what = "";
    if (op == 0) { // open, also over an open handle: that closes it
      static const int LATER[] = {0, 2, 3, 5, 8}; int m = i ? LATER[mc::choose(mc::thorough() ? 5 : 4)] : mc::choose(10); what = "open"; Node o; if (m) o["mode"] = MODE[m]; bool closing = s.mode >= 0 && wr(s.mode); if (closing) { s.ref.set(s.live); s.exists = true; if (s.live.dtype().is_empty()) s.ref.reset(); } s.mode = -1;
      bool ok = m < 8 && (m != 2 || s.exists), bad = reported([&] { m ? hnd.open(s.f, PROTO[s.p], o) : hnd.open(s.f, PROTO[s.p]); });
      MC_CHECK(bad == !ok, "open", "%s: opening with mode '%s' %s", PROTO[s.p], MODE[m], ok ? "fails" : "is not refused");
      if (ok) { s.mode = m; if (trunc(m)) s.live.reset(); else { s.live.reset(); if (s.exists) s.live.set(s.ref); } if (m != 2) { s.exists = true; if (trunc(m)) s.ref.reset(); } }
    } else if (op == 1) { what = "close"; hnd.close(); if (s.mode >= 0 && wr(s.mode)) { s.ref.set(s.live); s.exists = true; if (s.live.dtype().is_empty()) s.ref.reset(); } s.mode = -1; }
    else if (op < 4) { // write
      what = "write"; Node t, next, w; int k = mc::choose(NK); part(t, k, s.p < 4); next.set(s.live); const char *at = op == 2 ? "" : !mc::thorough() || mc::choose(2) ? "b" : "b/q";
      if (*at) { next[at].update(t); w[at].set(t); } else { next.update(t); w.set(t); }
      bool must = s.p != 3 || s.live.dtype().is_empty() || fits(cn::value(s.live), cn::value(w)); bool bad = reported([&] { *at ? hnd.write(t, at) : hnd.write(t); });
      MC_CHECK(!(bad && must), "write", "%s: a write that fits is refused", PROTO[s.p]); if (!bad) s.live.set(next);
    } else { what = "remove"; static const int RM[] = {0, 1, 2, 5, 3, 4, 6}; const char *q = PATHS[RM[mc::choose(mc::thorough() ? NP : 4)]]; bool has = s.live.has_path(q); Node before; before.set(s.live); bool bad = reported([&] { hnd.remove(q); }); MC_CHECK(bad == !has, "remove", "%s: removing %s path %s %s", PROTO[s.p], has ? "the" : "the missing", q, bad ? "fails" : "is not reported"); if (has) s.live.remove(q); }
    mc::transition(); probe(s); if (s.mode < 0) { r.ok(what); on_disk(s, what); }
    std::string key = cn::dump(s.live) + "|" + cn::dump(s.ref) + std::to_string(s.mode) + (s.exists ? "+" : "-"); mc::observe(mc::hash_str(key) + s.p);
    if (!mc::visit(mc::hash_str(key) + s.p, steps - i - 1)) break;
  }
  bool closing = s.mode >= 0 && wr(s.mode); if (closing) { s.ref.set(s.live); s.exists = true; } s.mode = -1; hnd.close(); r.ok("close"); on_disk(s, "the last close"); wipe(s.f);
}
static void scope() { // the destructor closes; several handles on different files; auto detection by extension
  int p = mc::choose(6), how = mc::choose(3), k = mc::choose(NK), k2 = mc::choose(NK); Node t, t2, g; part(t, k, p < 4); part(t2, k2, p < 4); std::string f = file(EXT[p]), f2 = file((std::string("2") + EXT[p]).c_str()); wipe(f); wipe(f2); Res r;
  { io::IOHandle a, b; a.open(f); b.open(f2); if (how == 0) { a.write(t); b.write(t2); } else if (how == 1) { b.write(t2); a.write(t); } else { a.write(t); a.close(); b.write(t2); a.open(f2.c_str()); a.close(); a.open(f); } }
  r.ok("destroying handles"); io::load(f, g); MC_CHECK(same(g, t, p), "scope", "%s: the file holds %s, written %s", PROTO[p], cn::dump(g).c_str(), cn::dump(t).c_str());
  if (how < 2) { Node g2; io::load(f2, g2); MC_CHECK(same(g2, t2, p), "scope", "%s: the second file holds %s, written %s", PROTO[p], cn::dump(g2).c_str(), cn::dump(t2).c_str()); }
  wipe(f); wipe(f2); mc::transition();
}
static void wide() { // roots with many children, lists and objects
  int p = mc::choose(6), list = mc::choose(2), cnt = 1 + mc::choose(30), re = mc::choose(2); std::string f = file(EXT[p]); wipe(f); Node n, g; io::IOHandle h; h.open(f);
  for (int i = 0; i < cnt; i++) { Node &c = list ? n.append() : n["n" + std::to_string((i * 7) % 31)]; if (p < 4) c.set((conduit::int64)i); else c.set("s" + std::to_string(i)); }
  h.write(n); if (re) { h.close(); h.open(f); } h.read(g); MC_CHECK(cn::dump(g) == cn::dump(n), "wide", "%s: %d children at the root: read %s, written %s", PROTO[p], cnt, cn::dump(g).c_str(), cn::dump(n).c_str()); h.close(); wipe(f); mc::transition();
}
static void refused() { // paths and protocols handles do not support
  int p = mc::choose(6), k = mc::choose(4); io::IOHandle h; Res r; std::string f = file(EXT[p]); wipe(f); bool q;
  if (k == 0) q = reported([&] { h.open(f + ":a/b"); }); else if (k == 1) q = reported([&] { h.open(file("no/such/dir") + EXT[p]); }); else if (k == 2) q = reported([&] { h.open(f, "nope"); }); else { scratch::spit(f, "\x01\x02{[not a file"); if (p == 0) scratch::spit(f + "_json", "{{"); q = reported([&] { h.open(f); }); }
  if (k == 3 && p == 5) { wipe(f); return; } // yaml reads almost anything
  MC_CHECK(q && !h.is_open(), "refused", "%s: opening a path that cannot be opened is not refused (%d)", PROTO[p], k); Node n; n["a"] = 1; MC_CHECK(reported([&] { h.write(n); }) && reported([&] { h.read(n); }), "refused-use", "%s: a handle that did not open accepts operations", PROTO[p]); h.close(); r.ok("a refused open"); wipe(f); mc::transition();
}
int main(int argc, char **argv) {
  cn::init(); quiet_h5(); scratch::Dir dir("r02"); scratch::cur() = &dir; mc::Opt o; o.table_bits = 22; o.shard_depth = 6;
  return mc::main_(argc, argv, "R02", {{"sequences", sequences, o, "open (10 modes), close, write (6 trees at 3 places), remove (7 paths) to depth 4 (5 thorough); all read-only calls in each state"}, {"scope", scope, o, "destructors, several handles"}, {"wide", wide, o, "up to 30 children at the root"}, {"refused", refused, o, "paths that cannot be opened"}},
    {"HDF5: writes that change the kind or length of existing data may be refused; child names of lists are not judged"});
}
