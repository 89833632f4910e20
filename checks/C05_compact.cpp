// C05: compaction, serialization, contiguity and size answers for every small tree of leaves with
// every placement in memory.
#include "gen.hpp"
#include <unistd.h>
#include <algorithm>
#include <fstream>
using namespace gen;

// one caller block from which leaves are cut
struct Block { Buf b; size_t at = 8; Block() : b(512) {} };
struct Leaf { const unsigned char *first; size_t n, eb, str; std::string name; };

static const int KINDS[] = {0, 3, 8}; // int8, int64, float32
static bool g_zero = false, g_null = false;
// creates one leaf; placement: 0 owned, 1 own strided, 2 right behind the previous leaf in the block, 3 behind a gap, 4 strided in the block, 5 empty node, 6 string, 7 before everything in the block
static void leaf(Env &E, Block &B, Node &n, int salt, int placements, int maxn) {
  int place = mc::choose(placements);
  if (place == 5) return;
  if (place == 6) { n.set(salt & 1 ? "ab" : ""); return; }
  int t = KINDS[mc::choose(3)], cnt = mc::choose(maxn + 1), eb = TYPE_BYTES[t];
  if (cnt == 0) g_zero = true;
  if (place == 0) { make_leaf(E, n, t, cnt, OWNED, {0, 1}, salt); return; }
  if (place == 1) { make_leaf(E, n, t, cnt, SCHEMA, {1, 2}, salt); return; }
  size_t off = place == 3 ? B.at + 3 : place == 7 ? 0 : B.at;
  int str = place == 4 ? 2 : 1;
  for (int i = 0; i < cnt; i++) { put_val(t, B.b.at(off + (size_t)i * str * eb), salt + i); for (int k = 0; k < eb; k++) B.b.used[off + (size_t)i * str * eb + k] = true; }
  if (place != 7 && cnt) B.at = off + (size_t)(cnt - 1) * str * eb + eb;
  // the block's start is the data pointer for even leaves, the element's address for odd ones
  if (salt & 1) n.set_external(DataType(TYPE_IDS[t], cnt, 0, (index_t)str * eb, eb, conduit::Endianness::DEFAULT_ID), B.b.at(off));
  else n.set_external(DataType(TYPE_IDS[t], cnt, (index_t)off, (index_t)str * eb, eb, conduit::Endianness::DEFAULT_ID), B.b.at(0));
}
static void collect(const Node &n, std::vector<Leaf> &o) {
  if (n.dtype().is_object() || n.dtype().is_list()) { for (index_t i = 0; i < n.number_of_children(); i++) collect(n.child(i), o); return; }
  if (n.dtype().is_empty()) return;
  const DataType &d = n.dtype();
  int eb = d.is_string() ? 1 : TYPE_BYTES[std::find(TYPE_IDS, TYPE_IDS + NUM_TYPES, d.id()) - TYPE_IDS];
  o.push_back({(const unsigned char *)n.data_ptr() + d.offset(), (size_t)d.number_of_elements(), (size_t)eb, (size_t)d.stride(), n.path()});
}
static std::vector<conduit::uint8> bytes_of(const std::vector<Leaf> &L) {
  std::vector<conduit::uint8> o;
  for (auto &l : L) for (size_t i = 0; i < l.n; i++) o.insert(o.end(), l.first + i * l.str, l.first + i * l.str + l.eb);
  return o;
}
// structure, names, types and lengths agree and leaves are packed from offset `at`
static void packed(const Schema &s, const Node &n, size_t &at) {
  MC_CHECK(s.dtype().id() == n.dtype().id(), "schema-type", "the compact schema has %s at '%s'", s.dtype().name().c_str(), n.path().c_str());
  MC_CHECK(s.number_of_children() == n.number_of_children(), "schema-children", "the compact schema lost children at '%s'", n.path().c_str());
  if (n.dtype().is_object() || n.dtype().is_list()) {
    for (index_t i = 0; i < n.number_of_children(); i++) {
      if (n.dtype().is_object()) MC_CHECK(s.child_name(i) == n.schema().child_name(i), "schema-names", "the compact schema renamed a child of '%s'", n.path().c_str());
      packed(s.child(i), n.child(i), at);
    }
  } else if (!n.dtype().is_empty()) {
    MC_CHECK(s.dtype().number_of_elements() == n.dtype().number_of_elements(), "schema-length", "the compact schema has another length at '%s'", n.path().c_str());
    MC_CHECK(s.dtype().offset() == (index_t)at, "schema-offset", "the compact schema has offset %ld at '%s', expected %zu", (long)s.dtype().offset(), n.path().c_str(), at);
    MC_CHECK(s.dtype().stride() == DataType::default_bytes(s.dtype().id()) && s.dtype().element_bytes() == s.dtype().stride(), "schema-stride", "the compact schema is strided at '%s'", n.path().c_str());
    at += (size_t)(s.dtype().number_of_elements() * DataType::default_bytes(s.dtype().id()));
  }
}
// expected contiguity: every leaf starts where the previous one ended
static bool contiguous(const std::vector<Leaf> &L, const unsigned char *start, const unsigned char **end) {
  const unsigned char *p = start;
  for (auto &l : L) {
    if (!l.first) return false;
    if (p && l.first != p) return false;
    p = l.first + (l.n ? (l.n - 1) * l.str + l.eb : 0);
  }
  *end = p;
  return true;
}
static std::string g_dir;
static void judge(Env &E, Block &B, Node &n) {
  M before = value(n);
  std::vector<unsigned char> blk = B.b.b;
  std::vector<Leaf> L; collect(n, L);
  mc::note("tree %s", before.str().c_str());
  for (auto &l : L) mc::note("  leaf %s: %zu elements of %zu bytes, stride %zu, address +%ld", l.name.c_str(), l.n, l.eb, l.str, (long)(l.first - (unsigned char *)B.b.at(0)) % 100000);
  std::vector<conduit::uint8> want = bytes_of(L);
  size_t strided = 0; bool comp = true, zero = false;
  for (auto &l : L) { if (l.n) strided += (l.n - 1) * l.str + l.eb; if (l.n > 1 && l.str != l.eb) comp = false; if (!l.n || !l.first) zero = true; }
  MC_CHECK(n.total_bytes_compact() == (index_t)want.size(), "total_bytes_compact", "total_bytes_compact is %ld, the leaves have %zu bytes", (long)n.total_bytes_compact(), want.size());
  MC_CHECK(n.total_strided_bytes() == (index_t)strided, "total_strided_bytes", "total_strided_bytes is %ld, expected %zu", (long)n.total_strided_bytes(), strided);
  MC_CHECK(n.is_compact() == comp, "is_compact", "is_compact is %d, expected %d", (int)n.is_compact(), (int)comp);
  // serialization
  std::vector<conduit::uint8> got;
  n.serialize(got);
  MC_CHECK(got == want, "serialize", "the serialized bytes are not the elements in order");
  { // to a file
    std::string f = g_dir + "/s" + std::to_string(getpid());
    n.serialize(f);
    std::ifstream i(f, std::ios::binary); std::vector<conduit::uint8> fb((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    unlink(f.c_str());
    MC_CHECK(fb == want, "serialize-file", "the serialized file does not hold the elements in order (%zu bytes, expected %zu)", fb.size(), want.size());
  }
  // the compact schema
  Schema cs; n.schema().compact_to(cs);
  size_t at = 0; packed(cs, n, at);
  MC_CHECK(cs.total_bytes_compact() == (index_t)want.size() && cs.total_strided_bytes() == (index_t)want.size() && cs.is_compact(), "schema-size", "the compact schema reports another size");
  Schema cs2; cs.compact_to(cs2);
  MC_CHECK(cs2.to_json() == cs.to_json(), "schema-idempotent", "compacting a compact schema changes it");
  // rebuilding
  std::vector<conduit::uint8> copy = got; copy.push_back(0);
  { Node r; r.set_external(cs, copy.data()); MC_CHECK(value(r) == before, "rebuild-external", "rebuilding from schema and bytes gives %s", value(r).str().c_str());
    std::vector<conduit::uint8> again; r.serialize(again); MC_CHECK(again == want, "serialize-again", "serializing the rebuilt tree gives other bytes"); }
  { Node r; r.set(cs, copy.data()); MC_CHECK(value(r) == before, "rebuild", "rebuilding a copy gives %s", value(r).str().c_str()); }
  { Node r(cs, copy.data(), false); MC_CHECK(value(r) == before, "rebuild-constructor", "constructing from schema and bytes gives %s", value(r).str().c_str()); }
  // compaction
  Node c; c["old"].set("value");
  n.compact_to(c);
  MC_CHECK(value(c) == before, "compact_to", "compacting gives %s", value(c).str().c_str());
  MC_CHECK(c.is_compact() && c.total_bytes_allocated() == (index_t)want.size(), "compact_to-size", "the compacted tree allocates %ld bytes, expected %zu", (long)c.total_bytes_allocated(), want.size());
  at = 0; packed(c.schema(), n, at);
  std::vector<Leaf> LC; collect(c, LC);
  const unsigned char *e;
  for (auto &a : LC) for (auto &b : L) MC_CHECK(!a.n || !b.n || a.first != b.first, "compact_to-aliased", "the compacted tree shares memory with the source");
  if (!zero) {
    MC_CHECK(contiguous(LC, nullptr, &e) && c.is_contiguous(), "compact_to-contiguous", "the compacted tree is not contiguous");
    if (!LC.empty()) MC_CHECK(c.contiguous_data_ptr() == LC[0].first, "compact_to-data-ptr", "contiguous_data_ptr of the compacted tree is not its first leaf");
    if (!LC.empty() && !want.empty()) MC_CHECK(memcmp(c.contiguous_data_ptr(), want.data(), want.size()) == 0, "compact_to-bytes", "the contiguous data pointer does not address all leaves");
  }
  Node c2; c.compact_to(c2);
  MC_CHECK(value(c2) == before && c2.schema().to_json() == c.schema().to_json(), "compact_to-idempotent", "compacting a compact tree changes it");
  // contiguity of the original
  if (!zero) {
    const unsigned char *end = nullptr;
    bool ct = contiguous(L, nullptr, &end);
    MC_CHECK(n.is_contiguous() == ct, "is_contiguous", "is_contiguous is %d, expected %d", (int)n.is_contiguous(), (int)ct);
    void *p = n.contiguous_data_ptr();
    const void *pc = ((const Node &)n).contiguous_data_ptr();
    const void *wp = ct && !L.empty() ? L[0].first : nullptr;
    MC_CHECK(p == wp && pc == wp, "contiguous_data_ptr", "contiguous_data_ptr is wrong");
    if (!L.empty()) {
      for (int k = -1; k <= 1; k++) {
        const unsigned char *a = L[0].first + k;
        bool w = contiguous(L, a, &end);
        MC_CHECK(n.contiguous_with((void *)a) == w, "contiguous_with", "contiguous_with(address of the first leaf %+d) is %d, expected %d", k, (int)n.contiguous_with((void *)a), (int)w);
      }
    }
    MC_CHECK(!n.contiguous_with((void *)nullptr), "contiguous_with-null", "contiguous with NULL");
    if (n.number_of_children() == 2) { // the children with each other
      for (int i = 0; i < 2; i++) {
        std::vector<Leaf> A, Bl; collect(n.child(i), A); collect(n.child(1 - i), Bl);
        if (A.empty() || Bl.empty()) continue;
        const unsigned char *e1, *e2;
        bool w = contiguous(A, nullptr, &e1) && contiguous(Bl, e1, &e2);
        MC_CHECK(n.child(1 - i).contiguous_with(n.child(i)) == w, "contiguous_with-node", "child %d contiguous with child %d is %d, expected %d", 1 - i, i, (int)!w, (int)w);
      }
    }
  }
  MC_CHECK(value(n) == before && B.b.b == blk && E.guards_ok(), "source-changed", "the source changed");
  mc::transition();
  mc::Hasher H; H.str(before.str()); for (auto &l : L) { H.u64(l.str); H.u64(l.n ? (uint64_t)(l.first - (unsigned char *)B.b.at(0)) % 512 : 0); }
  mc::observe(H.h);
}
static void flat() {
  Env E; Block B; Node n;
  int shape = mc::choose(3); // one leaf, object, list
  if (shape == 0) leaf(E, B, n, 1, 8, 3);
  else {
    int k = mc::choose(mc::thorough() ? 4 : 3);
    if (shape == 1) n.set(DataType::object()); else n.set(DataType::list());
    static const char *names[] = {"a", "b/c", "d"};
    for (int i = 0; i < k; i++) leaf(E, B, shape == 1 ? n.add_child(names[i]) : n.append(), i, 8, 2);
  }
  judge(E, B, n);
  mc::outcome("flat");
}
static void nested() {
  Env E; Block B; Node n;
  int shape = mc::choose(4), pl = mc::thorough() ? 8 : 6, mx = mc::thorough() ? 2 : 1;
  Node *x, *y, *z;
  if (shape == 0) { x = &n["a/b"]; y = &n["a/c"]; z = &n["d"]; }
  else if (shape == 1) { x = &n["a"]; y = &n["b"].append(); z = &n["b"].append(); }
  else if (shape == 2) { n.append().set(DataType::object()); Node &o = n.append(); x = &o["p"]; y = &n.append(); z = &n.append()["q/r"]; }
  else { n.append().set(DataType::list()); x = &n.append(); n.append().append(); y = &n.append()["s"]; z = &n.append(); }
  leaf(E, B, *x, 0, pl, mx); leaf(E, B, *y, 1, pl, mx); leaf(E, B, *z, 2, pl, mx);
  judge(E, B, n);
  mc::outcome("nested");
}
// strided leaves of every type, one next to another
static void types() {
  Env E; Block B; Node n;
  for (int i = 0; i < 2; i++) {
    int t = mc::choose(NUM_TYPES), cnt = 1 + mc::choose(3), how = 1 + mc::choose(2), l = mc::choose(NLAYS);
    make_leaf(E, i ? n["b"] : n["a"], t, cnt, (How)how, LAYS[l], i);
  }
  judge(E, B, n);
  mc::outcome("types");
}
int main(int argc, char **argv) {
  cn::init();
  const char *v = getenv("VERIF_DIR"); (void)v;
  g_dir = "/dev/shm/vp_c05_" + std::to_string(getpid()); (void)!system(("mkdir -p " + g_dir).c_str());
  mc::Opt o; o.shard_depth = 4; o.leaks = true;
  pid_t me = getpid();
  int rc = mc::main_(argc, argv, "C05",
    {{"flat", flat, o, "a leaf, or an object or list of up to 2 (3) leaves; each empty, a string or of 3 types, 0-2 elements, in 8 placements (owned, strided, adjacent, after a gap, before, ...)"},
     {"nested", nested, o, "4 nestings of three leaves with empty containers between them"},
     {"types", types, o, "every pair of leaf types, lengths 1-3, external or schema-bound, 5 layouts each"}},
    {"contiguity of trees that contain leaves without elements is not judged"});
  if (getpid() == me) (void)!system(("rm -rf " + g_dir).c_str());
  return rc;
}
