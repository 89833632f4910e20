// C11: save/load round trips, mapped files, damaged files and failing I/O calls.
#include "plain.hpp"
#include "fault.hpp"
#include "scratch.hpp"
using namespace gen;
using scratch::file; using scratch::slurp; using scratch::spit;

static const char *const PROTO[] = {"conduit_bin", "conduit_json", "conduit_base64_json", "json", "yaml"};
static const char *const EXT[] = {".bin", ".conduit_json", ".conduit_base64_json", ".json", ".yaml"};
struct Res { int fds, maps; Res() : fds(scratch::open_fds()), maps(scratch::maps()) {} void ok(const char *after) { MC_CHECK(scratch::open_fds() == fds, "fd-leak", "%s leaves %d open file descriptors behind", after, scratch::open_fds() - fds); MC_CHECK(scratch::maps() == maps, "map-leak", "%s leaves a file mapped", after); } };
template <class F> static bool reported(F f) { try { f(); } catch (std::exception &e) { return true; } return false; }
static void wipe(const std::string &f) { ::rmdir(f.c_str()); ::unlink(f.c_str()); ::unlink((f + "_json").c_str()); }
static bool has_empty_list(const M &m) { if (m.k == M::EMPTY) return true; for (auto &k : m.kids) if (has_empty_list(k)) return true; return false; }
static void expect(const Node &r, const M &m, int proto, const char *key) {
  M g = cn::value(r);
  if (proto < 3) { MC_CHECK(g == m, key, "%s: read %s, written %s", PROTO[proto], g.str().c_str(), m.str().c_str()); }
  else if (proto == 3) pl::same(g, m, "");
  else pl::same(g, pl::yview(m), "", true);
}
static void tree(Env &E, Node &n, int depth, int width) {
  int k = mc::choose(depth ? 9 : 7);
  switch (k) {
  case 0: break;
  case 1: n.set((conduit::int64)-5); break;
  case 2: make_leaf(E, n, 1, 3, EXTERNAL, Lay{1, 2}, 0); break;
  case 3: { conduit::float64 v[2] = {1.5, -2}; n.set(v, 2); break; }
  case 4: n.set("st\"r\\"); break;
  case 5: n.set(mc::flip() ? DataType::object() : DataType::list()); break;
  case 6: n.set(DataType::int32(0)); break;
  case 7: { n.set(DataType::object()); int w = 1 + mc::choose(width); static const char *nm[] = {"a", "b/c"}; for (int i = 0; i < w; i++) tree(E, n.add_child(nm[i]), depth - 1, width); break; }
  case 8: { n.set(DataType::list()); int w = 1 + mc::choose(width); for (int i = 0; i < w; i++) tree(E, n.append(), depth - 1, width); break; }
  }
}
static bool loadable(const M &m, int p) { // what the text form cannot tell from nothing at all
  return !(p == 4 && pl::yview(m).k == M::EMPTY) && !(p == 3 && m.k == M::EMPTY);
}
static void cycle(const Env &E, const Node &n, int p, int how) {
  M m = cn::value(n); mc::note("%s %s", PROTO[p], m.str().c_str());
  std::string f = file(how == 1 ? EXT[p] : "data"); wipe(f);
  if (how == 2) { spit(f, std::string(4000, '#')); spit(f + "_json", std::string(4000, '#')); } // over an older, longer file
  Res r;
  n.save(f, how == 1 ? "" : PROTO[p]);
  r.ok("save");
  MC_CHECK(cn::value(n) == m && E.guards_ok(), "save-changed", "saving changed the tree");
  if (!loadable(m, p)) { mc::outcome("nothing to load"); wipe(f); return; }
  Node g; g["old/x"] = 1; g["old/y"].append();
  try { g.load(f, how == 1 ? "" : PROTO[p]); } catch (std::exception &e) { mc::fail("load", mc::fmt("%s: its own file does not load: %s", PROTO[p], std::string(e.what()).substr(0, 300).c_str())); }
  r.ok("load");
  expect(g, m, p, "round-trip");
  if (p == 0) { // the same with a schema given by the caller, and in place over a mapped node
    Schema s; s.load(f + "_json"); Node h; h.load(f, s); expect(h, m, 0, "load-schema");
    Node q; q.mmap(f); expect(q, m, 0, "mmap"); q.load(f, s); expect(q, m, 0, "load-over-mapped"); q.mmap(f, s); expect(q, m, 0, "mmap-schema"); q.mmap(f, s); expect(q, m, 0, "mmap-again"); q.reset();
    r.ok("closing a mapped node");
    MC_CHECK(slurp(f).size() == (size_t)n.total_bytes_compact(), "bin-size", "the data file has %zu bytes, the compact data %ld", slurp(f).size(), (long)n.total_bytes_compact());
  }
  mc::observe(mc::hash_str(m.str() + PROTO[p])); wipe(f);
}
static void leaves() {
  Env E; Node n; int p = mc::choose(5), at = mc::choose(3), t = mc::choose(11), cnt = mc::choose(4); Node &d = at == 0 ? n : at == 1 ? n["c"] : n.append();
  if (t == 10) { d.set(std::string("abc").substr(0, cnt)); if (p == 4 && !cnt) return; }
  else { int l = mc::choose(NLAYS + 1); if (l == NLAYS) make_leaf(E, d, t, cnt, OWNED, Lay{0, 1}, mc::choose(2)); else make_leaf(E, d, t, cnt, EXTERNAL, LAYS[l], mc::choose(2)); }
  cycle(E, n, p, mc::choose(3));
}
static void trees() { Env E; Node n; int p = mc::choose(5); tree(E, n, 2, mc::thorough() ? 2 : 1); cycle(E, n, p, 0); }
static void wide() { Env E; Node n; int p = mc::choose(5); n.set(DataType::object()); tree(E, n.add_child("a"), 0, 2); tree(E, n.add_child("b/c"), 0, 2); tree(E, n["d"].append(), 0, 2); cycle(E, n, p, 2); }

// ---------------------------------------------------------------- damaged files
static void sample(Node &n, int k) {
  if (k == 0) { n["a"].set((conduit::int32)7); n["b"].append().set("xy"); n["b"].append().set(2.5); n["c"].set(DataType::int8(3)); }
  else if (k == 1) n.set("text");
  else if (k == 2) { conduit::int16 v[3] = {1, -2, 3}; n.append().set(v, 3); n.append(); n.append().set(DataType::object()); }
  else { n["big"].set(DataType::float64(2000)); conduit::float64 *p = n["big"].value(); for (int i = 0; i < 2000; i++) p[i] = i * 0.5; n["s"].set(std::string(9000, 'q')); }
}
static void truncated() { // every truncation point
  int k = mc::choose(3), p = mc::choose(3); Node n; sample(n, k); M m = cn::value(n);
  std::string f = file("data"); wipe(f); n.save(f, PROTO[p]);
  bool schema = p == 0 && mc::flip(); std::string g = schema ? f + "_json" : f, full = slurp(g);
  int cut = mc::choose((int)full.size()); spit(g, full.substr(0, cut));
  mc::note("%s %s cut to %d of %zu bytes", PROTO[p], schema ? "schema" : "file", cut, full.size());
  bool blank = full.find_first_not_of(" \n\t", cut) == std::string::npos; // only white space is missing
  for (int way = 0; way < 3; way++) {
    if (way && p) break;
    Res r; { Node q; q["old"] = 1;
      bool rep = reported([&] { if (way == 0) q.load(f, PROTO[p]); else if (way == 1) q.mmap(f); else { Schema s(n.schema()); Node c; n.compact_to(c); q.load(f, c.schema()); } });
      if (way == 2 && schema) { MC_CHECK(!rep, "load-schema", "loading a whole data file is reported as an error"); }
      else if (blank && (schema || p)) { if (!rep) expect(q, m, p, "blank"); }
      else MC_CHECK(rep, "truncated", "%s of a truncated %s reports no error", way == 1 ? "mmap" : "load", schema ? "schema" : "file"); }
    r.ok("a reported error");
  }
  mc::observe(mc::hash_str(full.substr(0, cut)) ^ p); wipe(f);
}
static void missing() {
  int p = mc::choose(5), what = mc::choose(4), way = mc::choose(4); Node n; sample(n, 0);
  std::string f = file("data"), d = file("nodir/data"); wipe(f); n.save(f, "conduit_bin");
  if (what == 0) ::unlink(f.c_str()); else if (what == 1) ::unlink((f + "_json").c_str());
  else if (what == 2) { ::unlink(f.c_str()); mkdir(f.c_str(), 0700); } else f = d; // a directory in its place; a path through a missing directory
  if (what == 1 && (p || way == 2)) { wipe(file("data")); return; }
  Res r;
  if (way < 3) {
    Node q, c; n.compact_to(c);
    bool rep = reported([&] { if (way == 0) q.load(f, PROTO[p]); else if (way == 1) q.mmap(f); else { Schema s(c.schema()); if (mc::flip()) q.load(f, s); else q.mmap(f, s); } });
    MC_CHECK(rep, "missing", "%s of a missing file reports no error", way == 1 ? "mmap" : "load");
    if (what == 0) MC_CHECK(!scratch::exists(f), "created", "reading a missing file created it");
    q.reset();
  } else { bool rep = reported([&] { n.save(f, PROTO[p]); }); MC_CHECK(rep == (what >= 2), "save-missing", "saving %s", rep ? "reports an error" : "to a place that cannot be written reports no error"); }
  r.ok("a reported error");
  if (what == 2) rmdir(f.c_str()); wipe(file("data"));
}
// ---------------------------------------------------------------- mapped files
static void mapped() { // histories of edits through a mapped tree
  std::string f = file("map"); wipe(f);
  // four leaves with gaps between and inside them, guard bytes around
  struct L { const char *path; int t, n, off, str; }; static const L leaf[] = {{"a", 2, 2, 4, 8}, {"o/b", 9, 1, 24, 8}, {"o/c", 4, 3, 36, 1}, {"s", 10, 4, 41, 1}};
  Schema s; for (auto &l : leaf) s[l.path].set(DataType(l.t == 10 ? DataType::CHAR8_STR_ID : TYPE_IDS[l.t], l.n, l.off, l.str, l.t == 10 ? 1 : TYPE_BYTES[l.t], conduit::Endianness::DEFAULT_ID));
  std::string model(64, '\x11'); // 19 bytes beyond the described ones
  for (int i = 0; i < 64; i++) model[i] = (char)(i * 7 + 1);
  memcpy(&model[41], "abc", 4);
  spit(f, model); s.save(f + "_json");
  Res r;
  { Node n; n.mmap(f); bool live[4] = {true, true, true, true};
    int len = mc::thorough() ? 5 : 4;
    for (int step = 0; step < len; step++) {
      int op = mc::choose(11); bool stop = false;
      auto put = [&](int k, int i, const void *v, size_t z) { if (live[k]) memcpy(&model[leaf[k].off + leaf[k].str * i], v, z); };
      switch (op) {
      case 0: stop = true; break;
      case 1: { if (!live[0]) break; conduit::int32 v = 77 + step; n["a"].as_int32_array()[1] = v; put(0, 1, &v, 4); break; }
      case 2: { conduit::int32 v[2] = {5 + step, -6}; n["a"].set(v, 2); put(0, 0, v, 4); put(0, 1, v + 1, 4); break; } // same type and length: in place
      case 3: { double v = 0.25 * step; n["o/b"].set(v); put(1, 0, &v, 8); break; }
      case 4: { n["o/c"].set((conduit::int64)9); live[2] = false; break; } // another type: no longer in the file
      case 5: { Node v; v.set("xyz"); n["s"].update(v); put(3, 0, "xyz", 4); break; }
      case 6: if (n["o"].has_child("c")) { n["o"].remove("c"); live[2] = false; } break;
      case 7: { Node c(n); if (live[2]) c["o/c"].as_uint8_array()[0] = 0; c["o/b"].set(99.0); break; } // a copy is detached
      case 8: { Node e; e.set_external(n["o"]); double v = 3.5 + step; e["b"].set(v); put(1, 0, &v, 8); break; } // an alias is not
      case 9: { for (int k = 0; k < 4; k++) if (!live[k]) stop = true; if (stop) break; n.mmap(f); break; } // map again
      case 10: { Node m; m.move(n); n.move(m); break; }
      }
      if (stop) break;
      MC_CHECK(slurp(f) == model, "write-through", "after edit %d the file does not hold the mapped tree's values", op);
      mc::observe(mc::hash_str(model));
    }
    int how = mc::choose(3); // ways to close
    if (how == 1) n.reset(); else if (how == 2) n["x"].set_int64(1), n.set_int64(4);
  }
  r.ok("closing a mapped node");
  MC_CHECK(slurp(f) == model, "after-close", "after closing, the file has other bytes than were written through the map");
  wipe(f);
}
static void large() { // a sparse file beyond 4 GB
  std::string f = file("large"); int k = mc::choose(3); index_t end = k == 0 ? (1LL << 31) : k == 1 ? (1LL << 32) : (1LL << 32) + 8192 + 5;
  int fd = ::open(f.c_str(), O_RDWR | O_CREAT, 0600); if (ftruncate(fd, end + 8)) { close(fd); wipe(f); mc::outcome("no sparse files"); return; } close(fd);
  Schema s; s["first"].set(DataType::int8(1)); s["last"].set(DataType(DataType::INT64_ID, 1, end, 8, 8, conduit::Endianness::DEFAULT_ID));
  Res r; { Node n; n.mmap(f, s); n["first"].set_int8(3); n["last"].set_int64(12345); }
  r.ok("closing a large mapped node");
  fd = ::open(f.c_str(), O_RDONLY); conduit::int64 v = 0; conduit::int8 w = 0; bool got = pread(fd, &v, 8, end) == 8 && pread(fd, &w, 1, 0) == 1; close(fd);
  MC_CHECK(got && v == 12345 && w == 3, "large", "values written beyond %lld are not in the file", (long long)end);
  mc::observe(k); wipe(f);
}
// ---------------------------------------------------------------- failing calls
static void save_faults() {
  int k = mc::choose(4), p = mc::choose(5), mode = mc::choose(4); Node n; sample(n, k); M m = cn::value(n);
  std::string f = file("data"); wipe(f);
  fault::arm(-1, fault::NONE, 0); n.save(f, PROTO[p]); int calls = fault::disarm();
  MC_CHECK(calls >= 2, "injector", "no I/O calls seen");
  std::string want = slurp(f), wants = slurp(f + "_json");
  int at = mc::choose(calls); wipe(f);
  Res r;
  fault::arm(at, mode == 0 || mode == 1 ? fault::ERR : mode == 2 ? fault::SHORT : fault::INTR, mode == 0 ? ENOSPC : EIO, mode == 1);
  bool rep = reported([&] { n.save(f, PROTO[p]); });
  fault::disarm(); std::string what = fault::st().what; bool fired = fault::st().fired;
  mc::note("%s call %d (%s) %s", PROTO[p], at, what.c_str(), mode == 0 ? "fails once" : mode == 1 ? "and all later ones fail" : mode == 2 ? "is short" : "is interrupted");
  r.ok("a failed save");
  if (mode < 2) MC_CHECK(rep || !fired, "save-silent", "%s failed, but save reports no error", what.c_str());
  else MC_CHECK(!rep, "save-short", "a partial or interrupted %s makes save fail", what.c_str());
  if (!rep) MC_CHECK(slurp(f) == want && slurp(f + "_json") == wants, "save-bytes", "save reports no error, but the file is not what it should be");
  mc::outcome(what + (rep ? " reported" : " harmless")); mc::observe(mc::hash_str(what) + k * 64 + p * 8 + mode + at * 4096); wipe(f);
}
static void load_faults() {
  int k = mc::choose(4), p = mc::choose(6), mode = mc::choose(4); bool map = p == 5; if (map) p = 0; Node n; sample(n, k); M m = cn::value(n);
  if (!loadable(m, p)) return;
  std::string f = file("data"); wipe(f); n.save(f, PROTO[p]);
  int calls; { Node q; fault::arm(-1, fault::NONE, 0); if (map) q.mmap(f); else q.load(f, PROTO[p]); calls = fault::disarm(); }
  MC_CHECK(calls >= 2, "injector", "no I/O calls seen");
  int at = mc::choose(calls);
  Res r; bool rep; std::string what; { Node q; q["old"] = 1;
    fault::arm(at, mode == 0 || mode == 1 ? fault::ERR : mode == 2 ? fault::SHORT : fault::INTR, EIO, mode == 1);
    rep = reported([&] { if (map) q.mmap(f); else q.load(f, PROTO[p]); });
    fault::disarm(); what = fault::st().what;
    mc::note("%s call %d (%s) mode %d", map ? "mmap" : PROTO[p], at, what.c_str(), mode);
    if (!rep) expect(q, m, p, "load-silent");
    if (mode >= 2) MC_CHECK(!rep, "load-short", "a partial or interrupted %s makes load fail", what.c_str()); }
  r.ok("a failed load");
  if (mode < 2 && what.compare(0, 4, "read") == 0) MC_CHECK(rep, "load-silent", "%s failed, but load reports no error", what.c_str());
  mc::outcome(what + (rep ? " reported" : " harmless")); mc::observe(mc::hash_str(what) + k * 64 + p * 8 + mode + at * 4096); wipe(f);
}
int main(int argc, char **argv) {
  cn::init(); scratch::Dir dir("c11"); scratch::cur() = &dir;
  mc::Opt o; o.shard_depth = 3; o.leaks = true; mc::Opt nl = o; nl.leaks = false; nl.shard_depth = 1;
  return mc::main_(argc, argv, "C11",
    {{"leaves", leaves, o, "5 formats x 11 leaf types, 0-3 elements, 6 layouts, in 3 places; explicit and detected format, over older files"},
     {"trees", trees, o, "5 formats x all trees of depth 2, width 1 (2) over 7 atoms"},
     {"wide", wide, o, "5 formats x all triples of 7 atoms in an object and a nested list"},
     {"truncated", truncated, o, "every truncation point of data and schema files of 3 trees in 3 typed formats; load and mmap"},
     {"missing", missing, o, "missing files, directories in their place, missing directories; load, mmap and save"},
     {"mapped", mapped, o, "all histories of 4 (5) edits through a mapped tree of 4 leaves with gaps, 3 ways to close; every byte of the file"},
     {"large", large, nl, "mapped files at and beyond 2 GB and 4 GB"},
     {"save_faults", save_faults, o, "4 trees x 5 formats x every I/O call: fails once, fails from there on, partial, interrupted"},
     {"load_faults", load_faults, o, "the same for load and mmap"}},
    {"a plain number in a truncated plain JSON or YAML file can be another valid number: truncation is judged for the typed formats",
     "what YAML cannot tell from nothing at all (empty trees and strings) is not loaded back"});
}
