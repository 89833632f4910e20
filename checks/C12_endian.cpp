// C12: byte order conversion reverses exactly the described elements and is reversible.
#include "gen.hpp"
#include "scratch.hpp"
using namespace gen;
using conduit::Endianness;
static const index_t ENDS[] = {Endianness::DEFAULT_ID, Endianness::BIG_ID, Endianness::LITTLE_ID};
static index_t nat(index_t e) { return e == Endianness::DEFAULT_ID ? (index_t)Endianness::LITTLE_ID : e; }
struct Leaf { std::string bytes; int off, str, eb, n; index_t end; size_t at; }; // reference: the whole memory around a leaf
static void swap_model(Leaf &l, index_t to) {
  if (nat(l.end) != nat(to)) for (int i = 0; i < l.n; i++) for (int k = 0; k < l.eb / 2; k++) std::swap(l.bytes[l.off + i * l.str + k], l.bytes[l.off + i * l.str + l.eb - 1 - k]);
  l.end = nat(to);
}
static void convert(Node &n, int op) {
  switch (op) { case 0: n.endian_swap(Endianness::DEFAULT_ID); break; case 1: n.endian_swap(Endianness::BIG_ID); break; case 2: n.endian_swap(Endianness::LITTLE_ID); break; case 3: n.endian_swap_to_machine_default(); break; case 4: n.endian_swap_to_little(); break; case 5: n.endian_swap_to_big(); break; }
}
static index_t target(int op) { return op == 0 || op == 3 ? ENDS[0] : op == 1 || op == 5 ? ENDS[1] : ENDS[2]; }
struct Ext { std::vector<std::unique_ptr<std::string>> mem; };
static Leaf make(Ext &X, Node &n, int t, int cnt, Lay lay, index_t end, int odd, int salt) {
  Leaf l; l.eb = t == 10 ? 1 : TYPE_BYTES[t]; l.n = cnt; l.off = lay.off * l.eb + odd; l.str = lay.str * l.eb + (lay.str > 1 ? odd : 0); l.end = end;
  size_t span = l.off + (cnt ? (cnt - 1) * l.str + l.eb : 0) + 9;
  for (size_t i = 0; i < span; i++) l.bytes += (char)(i * 37 + salt * 11 + 1);
  l.at = X.mem.size(); X.mem.emplace_back(new std::string(l.bytes));
  n.set_external(DataType(t == 10 ? DataType::CHAR8_STR_ID : TYPE_IDS[t], cnt, l.off, l.str, l.eb, end), &(*X.mem.back())[0]);
  return l;
}
static void same(const Ext &X, const Leaf &l, const Node &n, bool touched, const char *key) {
  MC_CHECK(*X.mem[l.at] == l.bytes, key, "the bytes of a leaf (%s, %d elements, offset %d, stride %d) are not those expected", n.dtype().name().c_str(), l.n, l.off, l.str);
  MC_CHECK(n.dtype().endianness() == l.end, "recorded", "the recorded byte order is %ld, should be %ld", (long)n.dtype().endianness(), (long)l.end);
  if (touched) MC_CHECK(n.dtype().endianness_matches_machine() == (nat(l.end) == Endianness::LITTLE_ID), "matches", "endianness_matches_machine is wrong");
  MC_CHECK(n.dtype().number_of_elements() == l.n && n.dtype().offset() == l.off && n.dtype().stride() == l.str && n.dtype().element_bytes() == l.eb, "layout", "converting changed the layout");
}
static void leaves() {
  int t = mc::choose(11), cnt = mc::choose(4), lay = mc::choose(NLAYS), odd = mc::choose(2), e = mc::choose(3), steps = mc::thorough() ? 5 : 4;
  Ext X; Node n; Leaf l = make(X, n, t, cnt, LAYS[lay], ENDS[e], odd, 1); Leaf first = l;
  same(X, l, n, false, "built");
  for (int s = 0; s < steps; s++) { int op = mc::choose(6); convert(n, op); swap_model(l, target(op)); same(X, l, n, true, "convert"); mc::observe(mc::hash_str(l.bytes) ^ (uint64_t)l.end); mc::transition(); }
  n.endian_swap(ENDS[e]); swap_model(l, ENDS[e]); same(X, l, n, true, "convert-back");
  MC_CHECK(l.bytes == first.bytes && *X.mem[0] == first.bytes, "reversible", "converting back does not restore the bytes");
}
static void values() { // owned leaves: the stored values are read back on the native order, copies keep bytes and order
  int t = mc::choose(10), cnt = mc::choose(4), salt = mc::choose(3), via = mc::choose(7); Env E; Node n; make_leaf(E, n, t, cnt, OWNED, Lay{0, 1}, salt); M m = cn::value(n);
  if (via == 6 && t >= 8) return; // conduit_json writes float values as text: a swapped one may not survive
  n.endian_swap_to_big(); Node c;
  MC_CHECK(n.dtype().endianness() == Endianness::BIG_ID, "recorded", "not recorded as big");
  switch (via) {
  case 0: c.set(n); break; case 1: n.compact_to(c); break; case 2: c["x"].set(n); c["y"].set(n); break; case 3: c.set_external(n); break;
  case 4: { Node d(n.schema(), n.data_ptr(), false); c.set(d); break; }
  case 5: { std::string f = scratch::file("e"); n.save(f, "conduit_bin"); c.load(f, "conduit_bin"); ::unlink(f.c_str()); ::unlink((f + "_json").c_str()); Node q; q.parse(n.to_json("conduit_base64_json"), "conduit_base64_json"); if (cnt) { q.endian_swap_to_machine_default(); MC_CHECK(cn::value(q) == m, "base64", "after base64 JSON %s instead of %s", cn::dump(q).c_str(), m.str().c_str()); } break; }
  case 6: c.parse(n.to_json("conduit_json"), "conduit_json"); break;
  }
  Node &v = via == 2 ? c["y"] : c;
  MC_CHECK(v.dtype().endianness() == Endianness::BIG_ID, "copy-recorded", "a copy (%d) of big endian data is recorded as %ld", via, (long)v.dtype().endianness());
  v.endian_swap_to_machine_default();
  MC_CHECK(cn::value(v) == m, "values", "on the native order %s, stored %s", cn::dump(v).c_str(), m.str().c_str());
  if (via != 3) { n.endian_swap_to_little(); MC_CHECK(cn::value(n) == m, "independent", "converting a copy changed the original"); }
  mc::observe(mc::hash_str(m.str()) + via);
}
static void trees() { // trees of leaves with different orders, converting any part in any sequence
  Ext X; Node n; Leaf l[4]; int e = mc::choose(27), t = mc::choose(3); static const int TY[3][4] = {{1, 2, 3, 8}, {9, 0, 10, 5}, {7, 6, 4, 9}}; int *p;
  (void)p; const int *ty = TY[t];
  n["x"].set_int64(0x0102030405060708LL);
  l[0] = make(X, n["a"], ty[0], 2, LAYS[2], ENDS[e % 3], 0, 1); l[1] = make(X, n["o/b"], ty[1], 1, LAYS[1], ENDS[e / 3 % 3], 1, 2);
  n["o/l"].append(); l[2] = make(X, n["o/l"].append(), ty[2], 3, LAYS[0], ENDS[e / 9], 0, 3); l[3] = make(X, n["e"], ty[3], 0, LAYS[0], ENDS[1], 0, 4);
  index_t xe = n["x"].dtype().endianness(); bool xbig = false;
  int steps = mc::thorough() ? 4 : 3;
  for (int s = 0; s < steps; s++) {
    int part = mc::choose(5), op = mc::choose(3); Node &r = part == 0 ? n : part == 1 ? n["o"] : part == 2 ? n["o/l"] : part == 3 ? n["a"] : n["o/l"][0];
    convert(r, op); index_t to = target(op);
    if (part == 0 || part == 3) swap_model(l[0], to); if (part <= 1) swap_model(l[1], to); if (part <= 2) swap_model(l[2], to); if (part == 0) { swap_model(l[3], to); xe = nat(to); xbig = xe == Endianness::BIG_ID; }
    same(X, l[0], n["a"], true, "tree"); same(X, l[1], n["o/b"], true, "tree"); same(X, l[2], n["o/l"][1], true, "tree"); same(X, l[3], n["e"], true, "tree");
    MC_CHECK(n["x"].as_int64() == (xbig ? 0x0807060504030201LL : 0x0102030405060708LL) && n["x"].dtype().endianness() == xe, "tree-owned", "an owned leaf of the tree has other bytes");
    MC_CHECK(n["o/l"][0].dtype().is_empty() && n.number_of_children() == 4 && n["o/l"].number_of_children() == 2, "tree-shape", "converting changed the tree");
    mc::observe(mc::hash_str(l[0].bytes + l[1].bytes + l[2].bytes) + xbig); mc::transition();
  }
}
static void primitives() {
  int w = mc::choose(3), b = 2 << w, pos = mc::choose(b), val = mc::choose(256), odd = mc::choose(2), bg = mc::choose(3);
  unsigned char buf[16], ref[16]; memset(buf, bg == 0 ? 0 : bg == 1 ? 0xff : 0x5c, 16); for (int i = 0; i < b; i++) if (bg == 2) buf[4 + i + odd - odd] = (unsigned char)(i * 29 + 3);
  int at = 3 + odd; buf[at + pos] = (unsigned char)val; memcpy(ref, buf, 16); std::reverse(ref + at, ref + at + b);
  unsigned char src[16], dst[16]; memcpy(src, buf, 16); memset(dst, 0x77, 16);
  if (w == 0) { Endianness::swap16(buf + at); Endianness::swap16(src + at, dst + 5); } else if (w == 1) { Endianness::swap32(buf + at); Endianness::swap32(src + at, dst + 5); } else { Endianness::swap64(buf + at); Endianness::swap64(src + at, dst + 5); }
  MC_CHECK(!memcmp(buf, ref, 16), "swap", "swap%d in place is wrong", b * 8);
  MC_CHECK(!memcmp(dst + 5, ref + at, b), "swap-to", "swap%d to another place is wrong", b * 8);
  for (int i = 0; i < 16; i++) if (i < 5 || i >= 5 + b) MC_CHECK(dst[i] == 0x77, "swap-guard", "swap%d writes beyond its target", b * 8);
  std::reverse(ref + at, ref + at + b); MC_CHECK(!memcmp(src, ref, 16), "swap-src", "swap%d to another place changes its source", b * 8);
  for (index_t e : ENDS) MC_CHECK(Endianness::name_to_id(Endianness::id_to_name(e)) == e, "names", "names of byte orders do not map back");
  MC_CHECK(Endianness::machine_default() == Endianness::LITTLE_ID && Endianness::machine_is_little_endian() && !Endianness::machine_is_big_endian(), "machine", "wrong machine order");
  mc::observe(mc::hash_str(std::string((char *)buf, 16)) + w);
}
int main(int argc, char **argv) {
  cn::init(); scratch::Dir dir("c12"); scratch::cur() = &dir;
  mc::Opt o; o.shard_depth = 3; o.leaks = true;
  return mc::main_(argc, argv, "C12",
    {{"leaves", leaves, o, "11 types, 0-3 elements, 5 layouts, aligned and not, 3 recorded orders, all sequences of 4 (5) conversions; every byte of the memory around"},
     {"values", values, o, "10 types, 0-3 elements of boundary values, 7 ways to carry converted data on"},
     {"trees", trees, o, "trees of 5 leaves with all combinations of recorded orders; all sequences of 3 (4) conversions of any part"},
     {"primitives", primitives, o, "swap16/32/64 in place and to another place; every byte value in every position"}},
    {"the machine is little endian"});
}
