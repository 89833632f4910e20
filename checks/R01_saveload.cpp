// R01: relay save, save_merged, load and load_merged in every file protocol of the build.
#include "relay.hpp"
using namespace rl;
using scratch::file;
static const char *const NAMES[] = {"a", "b c", "0", "\xc3\xa9", "..x", "p:q", "__conduit_list", "["};
static void tree(Env &E, Node &n, int depth, int width) {
  int k = mc::choose(depth ? 9 : 7);
  switch (k) {
  case 0: break;
  case 1: n.set((conduit::int64)-5); break;
  case 2: make_leaf(E, n, 1, 3, EXTERNAL, Lay{1, 2}, 0); break;
  case 3: { conduit::float64 v[2] = {1.5, -2}; n.set(v, 2); break; }
  case 4: n.set("st\"r\\"); break;
  case 5: n.set(mc::flip() ? DataType::object() : DataType::list()); break;
  case 6: n.set(DataType::int32(0)); break;
  case 7: { n.set(DataType::object()); int w = 1 + mc::choose(width); static const char *nm[] = {"b", "a"}; for (int i = 0; i < w; i++) tree(E, n.add_child(nm[i]), depth - 1, width); break; }
  case 8: { n.set(DataType::list()); int w = 1 + mc::choose(width); for (int i = 0; i < w; i++) tree(E, n.append(), depth - 1, width); break; }
  }
}
// save and load, in each form of the calls; at: 0 the root, 1 a sub path
static void cycle(const Env &E, const Node &n, int p, int how, int at, const Node *opts = nullptr) {
  M m = cn::value(n); mc::note("%s %s", PROTO[p], m.str().c_str());
  std::string f = file(how == 1 ? EXT[p] : "data"); wipe(f); std::string pr = how == 1 ? "" : PROTO[p];
  Node none; const Node &o = opts ? *opts : none;
  std::string to = f;
  if (at) { Node first; first["keep"] = 1; io::save(first, f, pr, o); to = f + (at == 1 ? ":x/y" : ":x"); }
  else if (how == 2) { Node big; big["old/a"].set(DataType::int64(500)); big["old/b"] = "x"; io::save(big, f, pr); } // over an older file
  Res r;
  bool can = p != 3 || at || group(m); // the root of an HDF5 file is a group
  if (p == 3 && at && m.k == M::EMPTY) can = true;
  if (!can) { MC_CHECK(reported([&] { io::save(n, to, pr, o); }), "root-leaf", "saving a leaf as the root of an HDF5 file is not reported"); r.ok("a refused save"); wipe(f); mc::outcome("not a group"); return; }
  how == 3 ? io::save(n, to) : io::save(n, to, pr, o);
  r.ok("save");
  MC_CHECK(cn::value(n) == m && E.guards_ok(), "save-changed", "saving changed the tree");
  Node g; g["old/x"] = 1; g["old/y"].append();
  bool loadable = !(p == 5 && pl::yview(m).k == M::EMPTY) && !(p == 4 && m.k == M::EMPTY);
  if (!loadable && !at) { wipe(f); mc::outcome("nothing to load"); return; }
  try { how == 3 ? io::load(to, g) : io::load(to, pr, o, g); } catch (std::exception &e) { mc::fail("load", mc::fmt("%s: the saved tree does not load: %s", PROTO[p], std::string(e.what()).substr(0, 300).c_str())); }
  r.ok("load");
  expect(g, m, p, at ? "sub-path" : "round-trip");
  if (loadable) { Node h; io::load_merged(to, pr, o, h); Node w; w.update(g); if (p != 3 || m.k != M::EMPTY) MC_CHECK(cn::dump(h) == cn::dump(w) || cn::dump(h) == cn::dump(g), "load-merged-fresh", "%s: load_merged into an empty node gives %s, load %s", PROTO[p], cn::dump(h).c_str(), cn::dump(g).c_str()); }
  if (at && p != 3) { Node all; io::load(f, pr, all); MC_CHECK(all.has_child("keep") && all["keep"].to_int() == 1, "sub-rest", "%s: saving at a sub path lost the rest of the file", PROTO[p]); }
  if (p == 3 && group(m)) { // the HDF5 entry points
    Node h; io::hdf5_read(to, h); expect(h, m, p, "hdf5_read");
    hid_t id = io::hdf5_open_file_for_read(f); Node q; io::hdf5_read(id, at == 1 ? "x/y" : at == 2 ? "x" : "/", q); expect(q, m, p, "hdf5_read-id");
    if (!at) { std::vector<std::string> c; io::hdf5_group_list_child_names(id, "/", c); if (m.k == M::OBJ) MC_CHECK(c == m.names, "hdf5-names", "the child names listed differ from those saved"); }
    io::hdf5_close_file(id); r.ok("hdf5_read");
  }
  mc::observe(mc::hash_str(m.str() + PROTO[p] + std::to_string(at))); wipe(f);
}
static void leaves() {
  Env E; Node n; int p = mc::choose(6), at = mc::choose(3), place = mc::choose(3), t = mc::choose(11), cnt = mc::choose(4); Node &d = place == 0 ? n : place == 1 ? n["c"] : n.append();
  if (t == 10) { d.set(std::string("abc").substr(0, cnt)); if (p == 5 && !cnt) return; }
  else { How how = (How)mc::choose(3); int lay = mc::choose(NLAYS); int salt = mc::choose(mc::thorough() ? 6 : 2) * 3; make_leaf(E, d, t, cnt, how, LAYS[lay], salt); }
  cycle(E, n, p, mc::choose(2), at); mc::transition();
}
static void into() { // merged loads into leaves that already exist, however they are laid out
  Env E, D; int p = mc::choose(6), t = mc::choose(10), cnt = 1 + mc::choose(3), dc = 1 + mc::choose(3), lay = mc::choose(NLAYS), sub = mc::choose(2); How how = (How)mc::choose(3); Node n, g, w; make_leaf(E, n["v"], t, cnt, OWNED, LAYS[0], 0); make_leaf(D, g["v"], t, dc, how, LAYS[lay], 2); g["x"] = 5;
  if (mc::choose(2)) g["v"].set(1.5f); // another type: replaced
  w.set(g); std::string f = file(EXT[p]); wipe(f); io::save(n, f); { Node m; io::load(f, m); w.update(m); } mc::note("%s %s into %s", PROTO[p], n.to_json().c_str(), g.to_json().c_str());
  sub ? io::load_merged(f + ":v", PROTO[p], g["v"]) : io::load_merged(f, PROTO[p], g);
  MC_CHECK(cn::dump(g) == cn::dump(w), "into", "%s: load_merged gives %s, update %s", PROTO[p], cn::dump(g).c_str(), cn::dump(w).c_str()); MC_CHECK(D.guards_ok(), "into-guard", "%s: load_merged wrote outside the leaf's elements", PROTO[p]); mc::observe(mc::hash_str(cn::dump(w)) + p); mc::transition(); wipe(f);
}
static void big_endian() { // leaves stored in the other byte order come back with the same values
  Node n, w; int p = mc::choose(4), t = mc::choose(10), cnt = mc::choose(4); Env E; make_leaf(E, n["v"], t, cnt, OWNED, LAYS[0], 0); w.set(n); M m = cn::value(n);
  n["v"].endian_swap_to_big(); std::string f = file(EXT[p]); wipe(f); io::save(n, f); Node g; io::load(f, g); g["v"].endian_swap_to_machine_default();
  expect(g, m, p, "big-endian"); mc::transition(); mc::observe(mc::hash_str(m.str()) + p); wipe(f);
}
static void trees() { Env E; Node n; int p = mc::choose(6), at = mc::choose(2), how = mc::choose(4); if (how && how != 2 && at) return; if (how == 3 && p) return; tree(E, n, how || mc::thorough() ? 2 : 3, mc::thorough() && p < 4 && !how ? 2 : 1); cycle(E, n, p, how, at); mc::transition(); }
static void wide() { Env E; Node n; int p = mc::choose(6), at = mc::choose(2); tree(E, n, 1, 2); cycle(E, n, p, 0, at); mc::transition(); }
static void names() { Env E; Node n; int p = mc::choose(6), a = mc::choose(8), b = mc::choose(8), k = mc::choose(4); if (a == b) return; Node &x = n.add_child(NAMES[a]); Node &y = n.add_child(NAMES[b]);
  if (k & 1) x.add_child(NAMES[b]).set((conduit::int64)3); else x.set((conduit::int64)1); if (k & 2) y.append().set((conduit::int64)4); else y.set((conduit::int64)2); if (p == 5) return; cycle(E, n, p, 0, mc::choose(2)); mc::transition(); }
static void many() { // more children than fit a compact group, lists past one digit
  Env E; Node n; int p = mc::choose(4), c = mc::choose(4), list = mc::choose(2); static const int CNT[] = {9, 11, 33, 120};
  for (int i = 0; i < CNT[c]; i++) { Node &k = list ? n["l"].append() : n["o"].add_child("n" + std::to_string((i * 7) % CNT[c]) + (CNT[c] % 7 ? "" : std::to_string(i))); k.set((conduit::int32)i); }
  cycle(E, n, p, 0, mc::choose(2)); mc::transition();
}
static void h5opts() { // every storage layout, whatever the tree
  Env E; Node n, o; int t = mc::choose(11), cnt; static const int C[] = {0, 1, 2, 3, 5, 8, 17}; cnt = C[mc::choose(7)];
  if (t == 10) n["v/s"].set(std::string("abcdefghijklmnopqrstuvw").substr(0, cnt)); else make_leaf(E, n["v/d"], t, cnt, EXTERNAL, LAYS[mc::choose(3)], 1);
  n["w"].append().set((conduit::int8)1); n["w"].append();
  int cs = mc::choose(3), ch = mc::choose(4), cm = mc::choose(3), lv = mc::choose(4);
  o["hdf5/compact_storage/enabled"] = cs ? "true" : "false"; o["hdf5/compact_storage/threshold"] = cs == 1 ? 8 : 1024;
  o["hdf5/chunking/enabled"] = ch ? "true" : "false"; o["hdf5/chunking/threshold"] = ch == 1 ? 0 : ch == 2 ? 16 : 100000; o["hdf5/chunking/chunk_size"] = ch == 2 ? 8 : 64;
  o["hdf5/chunking/compression/method"] = cm ? "gzip" : "none"; o["hdf5/chunking/compression/level"] = cm == 2 ? 9 : 1;
  static const char *V[] = {"default", "v108", "latest", "none"}; o["hdf5/libver"] = V[lv]; if (lv && (cm || ch > 1)) return;
  Node before, after; io::hdf5_options(before); cycle(E, n, 3, 0, 0, &o); io::hdf5_options(after);
  MC_CHECK(before.to_json() == after.to_json(), "options-restored", "saving with options changed the library's options: %s to %s", before.to_json().c_str(), after.to_json().c_str()); mc::transition();
  MC_CHECK(reported([&] { io::save(n, file("no/such/dir"), "hdf5", o); }) && reported([&] { io::save_merged(n, file("no/such/dir"), "hdf5", o); }), "no-dir", "saving to a missing directory is not reported");
  io::hdf5_options(after); MC_CHECK(before.to_json() == after.to_json(), "options-restored", "a failing save with options changed the library's options: %s to %s", before.to_json().c_str(), after.to_json().c_str());
}
// ---------------------------------------------------------------- histories on one file
static void part(Node &n, int k) {
  switch (k) {
  case 0: n["a"].set((conduit::int64)1); n["b/c"].set("s"); break;
  case 1: n["b/c"].set("t"); n["b/d"].set((conduit::float64)2.5); break;
  case 2: n["a"].set((conduit::int64)7); n["e"].append().set((conduit::int32)1); n["e"].append().set((conduit::int32)2); break;
  case 3: n["e"].append().set((conduit::int32)5); n["f"]; break;
  case 4: n["a"].set(DataType::int64(3)); n["a"].as_int64_ptr()[2] = 9; n["g/h"].set((conduit::uint8)3); break; // longer than in 0
  case 5: n["a/x"].set((conduit::int16)4); n["b"].set((conduit::float32)1); break; // other kinds at the same paths
  case 6: n.set(DataType::object()); break;
  }
}
static void history() {
  int p = mc::choose(4), steps = mc::thorough() ? 4 : 3; std::string f = file("h"); wipe(f); std::string pr = PROTO[p];
  Node ref; bool have = false; Res r;
  for (int s = 0; s < steps; s++) {
    int op = mc::choose(4); Node t; int k = mc::choose(7); part(t, k); bool bad = false; Node next; next.set(ref);
    switch (op) {
    case 0: bad = reported([&] { io::save(t, f, pr); }); next.set(t); MC_CHECK(!bad, "h-save", "%s: saving over an existing file fails", PROTO[p]); break;
    case 1: { if (!have) next.reset(); next.update(t); bool must = !have || p != 3 || fits(cn::value(ref), cn::value(t)); bad = reported([&] { io::save_merged(t, f, pr); }); MC_CHECK(!(bad && must), "h-merge", "%s: a merged save that fits fails", PROTO[p]); break; }
    case 2: { if (!have) { next.reset(); } Node w; w["b"].set(t); next["b"].update(t); bool must = !have || p != 3 || fits(cn::value(ref), cn::value(w)); bad = reported([&] { io::save_merged(t, f + ":b", pr); }); MC_CHECK(!(bad && must), "h-merge-sub", "%s: a merged save at a sub path that fits fails", PROTO[p]); break; }
    case 3: { if (!have) { MC_CHECK(reported([&] { Node g; io::load(f, pr, g); }), "h-missing", "%s: loading a missing file is not reported", PROTO[p]); r.ok("a refused load"); break; }
      Node g, w; part(g, k); w.set(g); w.update(ref); bool role = p == 3 && clash(cn::value(g), cn::value(ref));
      io::load_merged(f, pr, g); r.ok("load_merged"); if (!role) MC_CHECK(soft(g, p) == soft(w, p), "h-load-merged", "%s: load_merged gives %s, update %s", PROTO[p], cn::dump(g).c_str(), cn::dump(w).c_str()); next.set(ref); break; }
    }
    if (op < 3) { if (!bad) { ref.set(next); if (next.dtype().is_empty()) ref.reset(); have = true; } r.ok(bad ? "a refused save" : "save"); }
    mc::transition(); mc::observe(mc::hash_str(cn::dump(ref)) + p);
    if (have) { Node g; try { io::load(f, pr, g); } catch (std::exception &e) { mc::fail("h-load", mc::fmt("%s: the file no longer loads (operation %d %s): %s", PROTO[p], op, bad ? "was refused" : "succeeded", std::string(e.what()).substr(0, 300).c_str())); }
      r.ok("load"); MC_CHECK(soft(g, p) == soft(ref, p), "h-content", "%s: operation %d with part %d %s; the file holds %s, expected %s", PROTO[p], op, k, bad ? "was refused" : "succeeded", cn::dump(g).c_str(), cn::dump(ref).c_str()); }
    if (!mc::visit(mc::hash_str(cn::dump(ref) + (have ? "+" : "-")) + p, steps - s - 1)) break;
  }
  wipe(f);
}
static void protocols() { // the extension selects the protocol; unknown ones are refused
  static const char *E_[] = {"hdf5", "h5", "silo", "json", "conduit_json", "conduit_base64_json", "yaml", "bp", "adios", "csv", "bin", "", "h5x", "JSON"};
  static const char *W[] = {"hdf5", "hdf5", "conduit_silo", "json", "conduit_json", "conduit_base64_json", "yaml", "adios", "adios", "csv", "conduit_bin", "conduit_bin", "conduit_bin", "conduit_bin"};
  int e = mc::choose(14), b = mc::choose(5), s = mc::choose(3); static const char *B[] = {"f", "dir/f", "dir.json/f", "a.b", "./x.hdf5.d/f"}; static const char *S[] = {"", ":a/b", ":a.json"};
  std::string path = std::string(B[b]) + (*E_[e] ? "." : "") + E_[e] + S[s], got; if (!*E_[e] && b > 1) return; io::identify_protocol(path, got);
  MC_CHECK(got == W[e], "identify", "the protocol of '%s' is taken for %s, not %s", path.c_str(), got.c_str(), W[e]);
  Node n; n["a"] = 1; MC_CHECK(reported([&] { io::save(n, file("u"), "nope"); }) && !scratch::exists(file("u")), "unknown", "an unknown protocol is not refused"); MC_CHECK(reported([&] { io::load(file("u"), "nope", n); }), "unknown", "an unknown protocol is not refused"); mc::transition();
}
static void filetype() { // what identify_file_type says of files the library wrote
  int p = mc::choose(6), k = mc::choose(7); Node t; part(t, k); std::string f = file("t"); wipe(f); io::save(t, f, PROTO[p]); std::string ft; Res r; io::identify_file_type(f, ft); r.ok("identify_file_type");
  if (p == 3) MC_CHECK(ft == "hdf5", "file-type", "an HDF5 file is taken for %s", ft.c_str()); else MC_CHECK(ft != "hdf5" && io::is_hdf5_file(f) == false, "file-type", "a %s file is taken for HDF5", PROTO[p]);
  if ((p == 1 || p == 2) ) MC_CHECK(ft == "json", "file-type", "a %s file is taken for %s", PROTO[p], ft.c_str());
  wipe(f); mc::transition();
}
int main(int argc, char **argv) {
  cn::init(); quiet_h5(); scratch::Dir dir("r01"); scratch::cur() = &dir; mc::Opt o;
  return mc::main_(argc, argv, "R01", {{"leaves", leaves, o, "every type x length 0-3 x storage x protocol x place in the tree x sub path"}, {"into", into, o, "merged loads into existing leaves x layouts"}, {"big_endian", big_endian, o, "other byte order"}, {"trees", trees, o, "all unary trees of depth 3 x protocols, of depth 2 x call forms (thorough: binary)"}, {"wide", wide, o, "all trees of depth 1 with up to two children"},
    {"names", names, o, "pairs of unusual names"}, {"many", many, o, "wide groups and lists"}, {"h5opts", h5opts, o, "HDF5 storage options x types x lengths"}, {"history", history, o, "all sequences of save, save_merged (root and sub path), load_merged up to depth 3 (4 thorough) on one file"},
    {"protocols", protocols, o, "protocol selection"}, {"filetype", filetype, o, "file type detection"}},
    {"silo, adios and zfp are not in this build", "HDF5: child names with '/' or '.' are not HDF5 link names and are not stored"});
}
