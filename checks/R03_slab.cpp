// R03: partial HDF5 reads and writes, for every selection of small data sets.
#include "relay.hpp"
using namespace rl;
using scratch::file;
typedef std::vector<long> V;
static hid_t H5T(int t) { static const hid_t T[] = {H5T_STD_I8LE, H5T_STD_I16LE, H5T_STD_I32LE, H5T_STD_I64LE, H5T_STD_U8LE, H5T_STD_U16LE, H5T_STD_U32LE, H5T_STD_U64LE, H5T_IEEE_F32LE, H5T_IEEE_F64LE}; return T[t]; }
static std::string shp(const V &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
// a data set of the given shape holding 10, 11, 12, ... made with HDF5 itself
static void make(const std::string &f, const V &dims, int t, bool big, bool unlimited) {
  hid_t fid = H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); std::vector<hsize_t> d(dims.begin(), dims.end()), mx(dims.size(), H5S_UNLIMITED), ch(dims.size(), 2); size_t n = 1; for (long x : dims) n *= x;
  hid_t sp = dims.empty() ? H5Screate(H5S_SCALAR) : H5Screate_simple((int)d.size(), d.data(), unlimited ? mx.data() : NULL), pl = H5Pcreate(H5P_DATASET_CREATE); if (unlimited) H5Pset_chunk(pl, (int)d.size(), ch.data());
  hid_t ty = big ? (t == 2 ? H5T_STD_I32BE : t == 9 ? H5T_IEEE_F64BE : H5T_STD_U16BE) : H5T(t); hid_t ds = H5Dcreate2(fid, "v", ty, sp, H5P_DEFAULT, pl, H5P_DEFAULT); std::vector<double> val(n + 1); for (size_t i = 0; i < n; i++) val[i] = 10 + (double)i;
  if (n) H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, val.data()); H5Dclose(ds); H5Pclose(pl); H5Sclose(sp); H5Fclose(fid);
}
static std::string text(const Node &n) { if (!n.dtype().is_number()) return "(" + n.dtype().name() + ")"; std::string s; conduit::float64_accessor a = n.as_float64_accessor(); for (index_t i = 0; i < a.number_of_elements(); i++) s += (i ? "," : "") + std::to_string((long)a[i]); return s; }
static void opt(Node &o, const char *nm, const V &v, int plural, int ty) { Node &n = o[std::string(nm) + (plural ? "s" : "")]; if (ty == 0) { n.set(DataType::index_t(v.size())); for (size_t i = 0; i < v.size(); i++) ((index_t *)n.data_ptr())[i] = v[i]; } else if (ty == 1) { n.set(DataType::int32(v.size())); for (size_t i = 0; i < v.size(); i++) n.as_int32_ptr()[i] = (int)v[i]; } else { n.set(DataType::float64(v.size())); for (size_t i = 0; i < v.size(); i++) n.as_float64_ptr()[i] = (double)v[i]; } }
// size 0 or left out selects all that is left; returns false if the selection does not fit
static bool select(const V &dims, const V &sz, const V &off, const V &st, V &cnt, bool &maybe) {
  cnt = sz; maybe = false; bool ok = true, odd = false;
  for (size_t d = 0; d < dims.size(); d++) { if (st[d] < 1 || off[d] < 0 || sz[d] < 0) odd = true; else if (!sz[d]) { if (off[d] > dims[d]) odd = true; else if (off[d] == dims[d]) { maybe = true; cnt[d] = 0; } else cnt[d] = (dims[d] - off[d] + st[d] - 1) / st[d]; } else if (off[d] + (sz[d] - 1) * st[d] + 1 > dims[d]) ok = false; }
  if (odd || (!ok && !maybe)) return false; // a selection without elements may be accepted or not
  return true;
}
static std::string picked(const V &dims, const V &cnt, const V &off, const V &st) {
  std::string s; V i(dims.size(), 0); for (long c : cnt) if (!c) return s;
  for (bool first = true;; first = false) { long lin = 0; for (size_t d = 0; d < dims.size(); d++) lin = lin * dims[d] + off[d] + i[d] * st[d]; s += (first ? "" : ",") + std::to_string(10 + lin); int d = (int)dims.size() - 1; while (d >= 0 && ++i[d] == cnt[d]) i[d--] = 0; if (d < 0) return s; }
}
static void read_it(const std::string &f, const Node &o, int how, Node &g) {
  switch (how) {
  case 0: io::load(f + ":v", "hdf5", o, g); break;
  case 1: io::hdf5_read(f, "v", o, g); break;
  case 2: { hid_t id = io::hdf5_open_file_for_read(f); try { io::hdf5_read(id, "v", o, g); } catch (...) { io::hdf5_close_file(id); throw; } io::hdf5_close_file(id); break; }
  case 3: { io::IOHandle h; Node m; m["mode"] = "r"; h.open(f, "hdf5", m); h.read("v", g, o); break; }
  case 4: { Node t; io::load(f, "hdf5", o, t); g.set(t["v"]); break; }
  case 5: { hid_t id = io::hdf5_open_file_for_read(f), ds = H5Dopen2(id, "v", H5P_DEFAULT); try { io::hdf5_read(ds, o, g); } catch (...) { H5Dclose(ds); io::hdf5_close_file(id); throw; } H5Dclose(ds); io::hdf5_close_file(id); break; }
  }
}
static void check_read(const V &dims, const V &sz, const V &off, const V &st, const Node &o, int t, int how, const std::string &f) {
  V cnt; bool maybe; bool fits_ = select(dims, sz, off, st, cnt, maybe); Res r; Node g; mc::note("dims %s sizes %s offsets %s strides %s", shp(dims).c_str(), shp(sz).c_str(), shp(off).c_str(), shp(st).c_str());
  bool bad = reported([&] { read_it(f, o, how, g); }); r.ok("a partial read");
  if (!fits_) { MC_CHECK(bad, "unfit", "reading sizes %s offsets %s strides %s of a data set of shape %s gives '%s', and no error", shp(sz).c_str(), shp(off).c_str(), shp(st).c_str(), shp(dims).c_str(), text(g).c_str()); mc::outcome("selections that do not fit"); return; }
  if (bad && maybe) return;
  MC_CHECK(!bad, "fit", "reading sizes %s offsets %s strides %s of a data set of shape %s fails", shp(sz).c_str(), shp(off).c_str(), shp(st).c_str(), shp(dims).c_str());
  std::string w = picked(dims, cnt, off, st); MC_CHECK(text(g) == w && g.dtype().id() == TYPE_IDS[t], "read", "reading sizes %s offsets %s strides %s of a data set of shape %s gives '%s' (%s), expected '%s'", shp(sz).c_str(), shp(off).c_str(), shp(st).c_str(), shp(dims).c_str(), text(g).c_str(), g.dtype().name().c_str(), w.c_str());
  Node info; io::hdf5_read_info(f, "v", o, info); V inf; if (info.has_child("num_elements")) { conduit::float64_accessor a = info["num_elements"].as_float64_accessor(); for (index_t i = 0; i < a.number_of_elements(); i++) inf.push_back((long)a[i]); }
  MC_CHECK(inf == cnt, "info", "read_info of sizes %s offsets %s strides %s of a data set of shape %s says %s elements", shp(sz).c_str(), shp(off).c_str(), shp(st).c_str(), shp(dims).c_str(), shp(inf).c_str());
}
static void read1() { // one dimension: everything
  int n = mc::choose(6), t = mc::choose(mc::thorough() ? 10 : 3), how = mc::choose(6); static const int T[] = {2, 9, 4, 0, 1, 3, 5, 6, 7, 8}; t = T[t]; bool un = how == 0 && mc::flip(); std::string f = file("s"); make(f, {n}, t, false, un);
  long sz = mc::choose(n + 3) - 1, off = mc::choose(n + 3) - 1, st = mc::choose(5) - 1; int form = mc::choose(3); Node o; if (form == 0) { o["size"] = sz; o["offset"] = off; o["stride"] = st; } else { opt(o, "size", {sz}, form - 1, form); opt(o, "offset", {off}, form - 1, form); opt(o, "stride", {st}, form - 1, form); }
  if (sz == 0 && form == 1) o.remove("size"); if (off == 0 && form == 2) o.remove("offsets"); if (st == 1 && form == 2) o.remove("strides");
  check_read({n}, {sz}, {off}, {st}, o, t, how, f); mc::transition(); wipe(f);
}
static void read2() {
  V dims = {1 + mc::choose(3), 1 + mc::choose(3)}; int how = mc::choose(mc::thorough() ? 6 : 2); std::string f = file("s"); make(f, dims, 2, false, false); V sz, off, st; for (int d = 0; d < 2; d++) { sz.push_back(mc::choose(4)); off.push_back(mc::choose(4)); st.push_back(1 + mc::choose(2)); }
  Node o; opt(o, "size", sz, 1, 0); opt(o, "offset", off, 1, 0); opt(o, "stride", st, 1, 0); check_read(dims, sz, off, st, o, 2, how, f); mc::transition(); mc::observe(mc::hash_str(shp(dims) + shp(sz) + shp(off) + shp(st))); wipe(f);
}
static void read3() {
  V dims = {1 + mc::choose(2), 1 + mc::choose(2), 1 + mc::choose(3)}; std::string f = file("s"); make(f, dims, 9, false, false); V sz, off, st; for (int d = 0; d < 3; d++) { sz.push_back(mc::choose(dims[d] + 1)); off.push_back(mc::choose(2)); st.push_back(1 + (d == 2 ? mc::choose(2) : 0)); }
  Node o; opt(o, "size", sz, 1, 0); opt(o, "offset", off, 1, 0); opt(o, "stride", st, 1, 0); check_read(dims, sz, off, st, o, 9, 1, f); mc::transition(); wipe(f);
}
static void shapes() { // option arrays that do not match the number of dimensions, scalars, other byte order
  int k = mc::choose(4); std::string f = file("s"); Res r; Node o, g;
  if (k == 0) { make(f, {2, 3}, 2, false, false); int which = mc::choose(3), len = mc::choose(2); const char *nm[] = {"size", "offset", "stride"}; opt(o, nm[which], V(len, 1), mc::choose(2), 0); bool bad = reported([&] { io::hdf5_read(f, "v", o, g); }); r.ok("a partial read"); MC_CHECK(bad, "short-options", "a %s of %d entries for two dimensions is not refused: '%s'", nm[which], len, text(g).c_str()); }
  else if (k == 1) { int t = mc::choose(10); make(f, {}, t, false, false); int how = mc::choose(6); read_it(f, o, how, g); r.ok("reading a scalar"); MC_CHECK(text(g) == "10" && g.dtype().id() == TYPE_IDS[t], "scalar", "a scalar data set reads as '%s'", text(g).c_str()); }
  else if (k == 2) { static const int T[] = {2, 9, 5}; int t = T[mc::choose(3)]; make(f, {4}, t, true, false); o["offset"] = 1; o["size"] = 2; read_it(f, o, mc::choose(6), g); MC_CHECK(text(g) == "11,12" && g.dtype().id() == TYPE_IDS[t] && g.dtype().endianness_matches_machine(), "big", "big endian data reads as '%s'", text(g).c_str()); }
  else { V dims(1 + mc::choose(3), 2); make(f, dims, 2, false, mc::flip()); Node w; int n = 1 << dims.size(), diff = mc::choose(3) - 1; w.set(DataType::int32(n + diff)); for (int i = 0; i < n + diff; i++) w.as_int32_ptr()[i] = 50 + i; // writing over data sets of several dimensions
    bool bad = reported([&] { io::hdf5_write(w, f, "v", true); }); r.ok("a write"); read_it(f, o, 1, g); std::string a, b; for (int i = 0; i < n; i++) a += (i ? "," : "") + std::to_string(10 + i), b += (i ? "," : "") + std::to_string(50 + i);
    if (bad) { MC_CHECK(text(g) == a, "nd-refused", "a refused write changed the data set: '%s'", text(g).c_str()); if (dims.size() > 1) mc::outcome("writes to several dimensions refused"); }
    else if (!diff) MC_CHECK(text(g) == b, "nd-write", "writing %d elements over a data set of shape %s gives '%s'", n, shp(dims).c_str(), text(g).c_str());
    else MC_CHECK(dims.size() == 1, "nd-length", "writing %d elements over a data set of shape %s is accepted", n + diff, shp(dims).c_str()); }
  mc::transition(); wipe(f);
}
static void write_it(const std::string &f, const Node &v, const Node &o, int how) {
  switch (how) {
  case 0: io::hdf5_write(v, f, "v", o, true); break;
  case 1: io::save_merged(v, f + ":v", "hdf5", o); break;
  case 2: { io::IOHandle h; h.open(f, "hdf5"); h.write(v, "v", o); break; }
  case 3: { hid_t id = io::hdf5_open_file_for_read_write(f); try { io::hdf5_write(v, id, "v", o); } catch (...) { io::hdf5_close_file(id); throw; } io::hdf5_close_file(id); break; }
  case 4: { Node t; t["v"].set_external(const_cast<Node &>(v)); io::hdf5_append(t, f, o); break; }
  case 5: { io::IOHandle h; h.open(f, "hdf5"); Node t; t["v"].set_external(const_cast<Node &>(v)); h.write(t, o); break; }
  }
}
static void writes() { // histories of partial writes to one data set, against a vector
  int t = 2, steps = 2 + mc::thorough(), start = mc::choose(6), fh = 0; std::string f = file("w"); wipe(f); std::vector<long> ref; bool exists = false; int ext = 0; Res r;
  if (start < 4) { Node n; int c = start; n["v"].set(DataType::int32(c)); for (int i = 0; i < c; i++) { n["v"].as_int32_ptr()[i] = 10 + i; ref.push_back(10 + i); } n["k"] = 1; io::save(n, f, "hdf5"); exists = true; }
  else if (start == 4) { make(f, {2}, t, false, true); ref = {10, 11}; exists = true; ext = 1; }
  else { Node n; n["k"] = 1; io::save(n, f, "hdf5"); }
  for (int s = 0; s < steps; s++) {
    int cnt = mc::choose(4), how = s == 0 ? (mc::thorough() ? mc::choose(6) : 2 * mc::choose(3) + (start & 1)) : fh; fh = how; int lay = mc::choose(s || start ? 2 : 3), of = mc::choose(mc::thorough() || !s ? 5 : 4), sf = mc::choose(mc::thorough() || !s ? 5 : 3); Env E; Node v, o; make_leaf(E, v, t, cnt, lay ? EXTERNAL : OWNED, LAYS[lay], 0); static const int OFF[] = {-1, 0, 1, 3, -2}, STR[] = {-1, 1, 2, 0, -2};
    if (of && (mc::thorough() || of < 4 || s == 0)) { if (of == 4) o["offset"] = -1; else o["offset"] = OFF[of]; } else of = 0; if (sf && (mc::thorough() || sf < 3 || s == 0)) { if (sf == 4) o["stride"] = -2; else o["stride"] = STR[sf]; } else sf = 0;
    long off = of ? (of == 4 ? -1 : OFF[of]) : 0, st = sf ? (sf == 4 ? -2 : STR[sf]) : 1; conduit::int32_accessor a = v.as_int32_accessor(); mc::note("write %d elements with %s through %d", cnt, o.to_json().c_str(), how);
    bool bad = reported([&] { write_it(f, v, o, how); }); r.ok("a partial write"); MC_CHECK(E.guards_ok(), "guards", "writing changed the caller's memory");
    bool plain = !of && !sf, ok = off >= 0 && st >= 1; std::vector<long> next = ref;
    if (ok) { if (cnt) { size_t need = off + (cnt - 1) * st + 1; if (next.size() < need) next.resize(need, 0); for (int i = 0; i < cnt; i++) next[off + i * st] = a[i]; } }
    bool either = plain && exists && ext == 2 && cnt != (int)ref.size(); if (plain && exists && !ext && cnt != (int)ref.size()) ok = false; // a fixed data set only takes its own length
    if (either) ; else if (!ok) MC_CHECK(bad, "write-unfit", "writing %d elements with options %s is not refused", cnt, o.to_json().c_str()); else MC_CHECK(!bad, "write-fit", "writing %d elements with options %s to %zu elements fails", cnt, o.to_json().c_str(), ref.size());
    Node g; bool rb = reported([&] { io::hdf5_read(f, "v", g); }); r.ok("a read"); if (!bad) { if (!exists || !plain) ext = ext == 1 ? 1 : 2; if (!exists && plain) ext = 0; exists = true; ref = next; }
    std::string w; for (size_t i = 0; i < ref.size(); i++) w += (i ? "," : "") + std::to_string(ref[i]);
    if (exists) { bool zero = !bad && !cnt && !rb && text(g).size() > w.size() && text(g).compare(0, w.size(), w) == 0; // writing nothing at an offset may extend the data set up to it
      if (zero) { std::string tg = text(g); ref.clear(); for (size_t i = 0; i < tg.size();) { ref.push_back(atol(tg.c_str() + i)); i = tg.find(',', i); if (i == tg.npos) break; i++; } MC_CHECK((long)ref.size() <= off, "zero-extend", "writing no elements at offset %ld made the data set %zu long", off, ref.size()); }
      else MC_CHECK(!rb && text(g) == w, "write", "writing %d elements with options %s (%s): the data set holds '%s', expected '%s'", cnt, o.to_json().c_str(), bad ? "refused" : "done", rb ? "unreadable" : text(g).c_str(), w.c_str()); }
    Node k; if (start != 4) { io::hdf5_read(f, "k", k); MC_CHECK(k.to_int() == 1, "rest", "a partial write changed another data set"); }
    mc::transition(); mc::observe(mc::hash_str(w) + ext); if (!mc::visit(mc::hash_str(w + (exists ? "+" : "-")) * 8 + ext + 16 * how, steps - s - 1)) break;
  }
  wipe(f);
}
int main(int argc, char **argv) {
  cn::init(); quiet_h5(); { Node h; h["chunking/chunk_size"] = 16; io::hdf5_set_options(h); } scratch::Dir dir("r03"); scratch::cur() = &dir; mc::Opt o; o.shard_depth = 4;
  return mc::main_(argc, argv, "R03", {{"read1", read1, o, "every size, offset and stride of data sets of 0-5 elements"}, {"read2", read2, o, "two dimensions up to 3x3"}, {"read3", read3, o, "three dimensions up to 2x2x3"}, {"shapes", shapes, o, "options that do not match, scalars, byte order, writes over several dimensions"}, {"writes", writes, o, "histories of 2 (3) partial writes, fixed, extendible and new data sets"}},
    {"an offset at the end with no size may read nothing or be refused", "partial reads of strings are not judged"});
}
