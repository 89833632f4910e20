// B06: one-to-many relations, multi-component arrays and n-dimensional indexes
#include "cnode.hpp"
#include "gen.hpp"
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_ndarray_index.hpp"
using namespace cn;
using namespace gen;
using mc::choose;
using mc::fail;
using mc::fmt;
using mc::thorough;
namespace o2m = conduit::blueprint::o2mrelation;
namespace mca = conduit::blueprint::mcarray;
namespace nda = conduit::blueprint::ndarray;
typedef std::vector<index_t> V;
typedef std::vector<std::pair<index_t, index_t>> Pairs;

// integers in any integer type and layout
static void ints(Node &n, const V &v, int style) {
  int cnt = (int)v.size();
  switch (style) {
  case 0: n.set(DataType::int64(cnt)); for (int i = 0; i < cnt; i++) n.as_int64_array()[i] = v[i]; break;
  case 1: n.set(DataType::int32(cnt)); for (int i = 0; i < cnt; i++) n.as_int32_array()[i] = (int)v[i]; break;
  case 2: n.set(DataType::uint8(cnt)); for (int i = 0; i < cnt; i++) n.as_uint8_array()[i] = (unsigned char)v[i]; break;
  default: {
    Schema s; s.set(DataType(DataType::UINT16_ID, cnt, 2, 4, 2, conduit::Endianness::DEFAULT_ID));
    n.set(s);
    for (int i = 0; i < cnt; i++) n.as_uint16_array()[i] = (unsigned short)v[i];
  } }
}
struct Rel {
  int n = 0, D = 0; bool so = false, ix = false;
  V sz, off, idx;
  std::vector<V> many; // data indices of each one
  Pairs flat;
  void finish() {
    many.assign(n, V()); flat.clear();
    for (int i = 0; i < n; i++)
      for (index_t j = 0; j < (so ? sz[i] : 1); j++) {
        index_t e = (so ? off[i] : i) + j, d = ix ? idx[e] : e;
        many[i].push_back(d); flat.push_back({i, d});
      }
  }
  std::string str() const {
    std::string s = fmt("n=%d D=%d", n, D);
    auto a = [&](const char *k, const V &v) { s += fmt(" %s=", k); for (auto x : v) s += fmt("%d,", (int)x); };
    if (so) { a("sizes", sz); a("offsets", off); }
    if (ix) a("indices", idx);
    return s;
  }
  void build(Node &r, int style, int extra, bool with_off = true) const {
    for (int k = 0; k <= extra; k++) {
      Node &d = r[k == 0 ? "values" : k == 1 ? "other" : "third"];
      if (k == 1) { d.set(DataType::int16(D)); for (int i = 0; i < D; i++) d.as_int16_array()[i] = (short)(100 + i); }
      else { d.set(DataType::float64(D)); for (int i = 0; i < D; i++) d.as_float64_array()[i] = 10 * k + i + 0.5; }
    }
    if (so) { ints(r["sizes"], sz, style); if (with_off) ints(r["offsets"], off, style); }
    if (ix) ints(r["indices"], idx, style);
    r["note"] = "text"; // not numeric: not part of the relation
  }
};
// every relation within the bounds
static Rel relation(int maxn, int D, int maxsz) {
  Rel R; R.D = D;
  int kind = choose(4);
  R.so = kind & 1; R.ix = kind & 2;
  int L = D;
  if (R.ix) { L = choose(D + 2); for (int i = 0; i < L; i++) R.idx.push_back(choose(D)); }
  if (R.so) {
    R.n = choose(maxn + 1);
    for (int i = 0; i < R.n; i++) {
      int s = choose(std::min(maxsz, L) + 1);
      R.sz.push_back(s); R.off.push_back(choose(L - s + 1));
    }
  } else R.n = L;
  R.finish();
  return R;
}
static void relations(const Rel &R, int style, int extra) {
  Node r; R.build(r, style, extra);
  std::string before = dump(r), w = R.str();
  Node info;
  if (!o2m::verify(r, info)) fail("o2m-verify", "a conforming relation is rejected: " + w);
  auto paths = o2m::data_paths(r);
  if ((int)paths.size() != 1 + extra || paths[0] != "values") fail("o2m-paths", "wrong data paths for " + w);
  o2m::O2MIterator it(r);
  int N = (int)R.flat.size();
  if (it.elements(o2m::ONE) != R.n) fail("o2m-ones", fmt("%d ones instead of %d: ", (int)it.elements(o2m::ONE), R.n) + w);
  if (it.elements(o2m::DATA) != N) fail("o2m-data-count", fmt("%d pairs instead of %d: ", (int)it.elements(o2m::DATA), N) + w);
  for (int i = 0; i < R.n; i++) {
    it.to(i, o2m::ONE);
    if (it.elements(o2m::MANY) != (index_t)R.many[i].size()) fail("o2m-many-count", "wrong number of manys: " + w);
    for (size_t j = 0; j < R.many[i].size(); j++) {
      it.to((index_t)j, o2m::MANY);
      if (it.index(o2m::DATA) != R.many[i][j] || it.index(o2m::ONE) != i || it.index(o2m::MANY) != (index_t)j)
        fail("o2m-to", fmt("position (%d,%d) is (%d,%d) data %d, expected data %d: ", i, (int)j, (int)it.index(o2m::ONE), (int)it.index(o2m::MANY), (int)it.index(o2m::DATA), (int)R.many[i][j]) + w);
    }
  }
  // forward and backward over the pairs
  for (int pass = 0; pass < 2; pass++) {
    o2m::O2MIterator a(r);
    if (pass) { while (a.has_next(o2m::DATA)) a.next(o2m::DATA); a.to_front(o2m::DATA); }
    for (int k = 0; k < N; k++) {
      if (!a.has_next(o2m::DATA)) fail("o2m-forward", fmt("iteration ends after %d of %d pairs: ", k, N) + w);
      if (a.peek_next(o2m::DATA) != R.flat[k].second) fail("o2m-peek", fmt("peek at pair %d gives %d: ", k, (int)a.peek_next(o2m::DATA)) + w);
      index_t d = a.next(o2m::DATA);
      if (d != R.flat[k].second || a.index(o2m::DATA) != d || a.index(o2m::ONE) != R.flat[k].first)
        fail("o2m-forward", fmt("pair %d is (%d,%d) instead of (%d,%d): ", k, (int)a.index(o2m::ONE), (int)d, (int)R.flat[k].first, (int)R.flat[k].second) + w);
    }
    if (a.has_next(o2m::DATA)) fail("o2m-forward", "iteration does not end: " + w);
    o2m::O2MIterator c(a), b; b = c;
    for (int k = N - 2; k >= 0; k--) {
      if (!b.has_previous(o2m::DATA)) fail("o2m-backward", fmt("no pair before %d: ", k + 1) + w);
      if (b.peek_previous(o2m::DATA) != R.flat[k].second) fail("o2m-peek", fmt("peek back at pair %d: ", k) + w);
      index_t d = b.previous(o2m::DATA);
      if (d != R.flat[k].second || b.index(o2m::ONE) != R.flat[k].first) fail("o2m-backward", fmt("pair %d backwards is (%d,%d): ", k, (int)b.index(o2m::ONE), (int)d) + w);
    }
    if (N && b.has_previous(o2m::DATA)) fail("o2m-backward", "a pair before the first: " + w);
    b.to_back(o2m::DATA);
    for (int k = N - 1; k >= 0; k--) {
      if (!b.has_previous(o2m::DATA)) fail("o2m-from-back", fmt("no pair before %d from the back: ", k + 1) + w);
      index_t d = b.previous(o2m::DATA);
      if (d != R.flat[k].second || b.index(o2m::ONE) != R.flat[k].first) fail("o2m-from-back", fmt("pair %d from the back is (%d,%d): ", k, (int)b.index(o2m::ONE), (int)d) + w);
    }
    for (int k = 0; k < N; k++) {
      b.to(k, o2m::DATA);
      if (b.index(o2m::DATA) != R.flat[k].second || b.index(o2m::ONE) != R.flat[k].first) fail("o2m-to-data", fmt("moved to pair %d: ", k) + w);
    }
  }
  // nested iteration
  {
    o2m::O2MIterator a(r);
    Pairs got; V ones;
    int guard = 0;
    while (a.has_next(o2m::ONE)) {
      if (++guard > 50) fail("o2m-nested", "iteration over the ones does not end: " + w);
      index_t one = a.next(o2m::ONE);
      ones.push_back(one);
      a.to_front(o2m::MANY);
      while (a.has_next(o2m::MANY)) {
        if (++guard > 500) fail("o2m-nested", "iteration over the manys does not end: " + w);
        a.next(o2m::MANY);
        got.push_back({one, a.index(o2m::DATA)});
      }
    }
    V want; for (int i = 0; i < R.n; i++) want.push_back(i);
    if (ones != want) fail("o2m-nested-ones", fmt("visits %d ones: ", (int)ones.size()) + w);
    if (got != R.flat) fail("o2m-nested", fmt("visits %d pairs: ", (int)got.size()) + w);
  }
  // random access index
  o2m::O2MIndex x(r), y; y = x;
  if (y.size() != R.n) fail("o2m-index-size", fmt("O2MIndex has %d ones: ", (int)y.size()) + w);
  for (int i = 0; i < R.n; i++) {
    if (y.size(i) != (index_t)R.many[i].size()) fail("o2m-index-size", fmt("O2MIndex size(%d)=%d: ", i, (int)y.size(i)) + w);
    if (y.offset(i) != (R.so ? R.off[i] : i)) fail("o2m-index-offset", "O2MIndex offset: " + w);
    for (size_t j = 0; j < R.many[i].size(); j++)
      if (y.index(i, (index_t)j) != R.many[i][j]) fail("o2m-index", fmt("O2MIndex (%d,%d)=%d instead of %d: ", i, (int)j, (int)y.index(i, (index_t)j), (int)R.many[i][j]) + w);
  }
  // compaction keeps every pair's values, packed
  {
    Node c; c["old"] = 1; o2m::compact_to(r, c);
    for (auto &p : paths) {
      if (!c.has_child(p) || c[p].dtype().id() != r[p].dtype().id()) fail("o2m-compact", "array " + p + " is missing: " + w);
      o2m::O2MIterator a(c);
      index_t k = 0;
      conduit::float64_accessor src = r[p].as_float64_accessor(), dst = c[p].as_float64_accessor();
      if (R.so && dst.number_of_elements() != N) fail("o2m-compact", "not compact: " + w);
      while (a.has_next(o2m::DATA)) {
        index_t d = a.next(o2m::DATA);
        if (k >= N || a.index(o2m::ONE) != R.flat[k].first || dst[d] != src[R.flat[k].second])
          fail("o2m-compact", fmt("pair %d of array %s differs after compaction: ", (int)k, p.c_str()) + w);
        if (R.so && d != k) fail("o2m-compact", "gaps after compaction: " + w);
        k++;
      }
      if (k != N) fail("o2m-compact", "pairs are missing after compaction: " + w);
    }
  }
  if (R.so) { // offsets from sizes
    Node g; R.build(g, style, extra, false);
    Node gi; if (!o2m::generate_offsets(g, gi)) fail("o2m-offsets", "refused: " + w);
    index_t s = 0; conduit::index_t_accessor o = g["offsets"].as_index_t_accessor();
    if (o.number_of_elements() != R.n) fail("o2m-offsets", "wrong number: " + w);
    for (int i = 0; i < R.n; i++) { if (o[i] != s) fail("o2m-offsets", "wrong offset: " + w); s += R.sz[i]; }
  }
  if (dump(r) != before) fail("o2m-changed", "the relation was changed: " + w);
  mc::outcome(fmt("%s%s n=%d pairs=%d", R.so ? "so" : "--", R.ix ? "i" : "-", R.n, N));
  mc::checked(); mc::transition(N + 1);
}
static void sp_rel() { Rel R = relation(2, 3, 2); relations(R, 0, 0); }
static void sp_rel3() { Rel R = relation(3, thorough() ? 3 : 2, 2); relations(R, 1, 1); }
static void sp_style() { int st = choose(4), ex = choose(3); Rel R = relation(2, 2, 2); relations(R, st, ex); }
// every sequence of cursor operations
static void sp_cursor() {
  static const char *R_[] = {"2,1", "0,2,0,1", "1", "0", "3,0", "0,0", "1,1,1"};
  Rel R; R.so = true; R.D = 4; R.ix = choose(2);
  { std::string s = R_[choose(7)]; index_t o = 0; for (char c : s) if (c != ',') { R.sz.push_back(c - '0'); R.off.push_back(o); o += c - '0'; R.n++; } }
  if (R.ix) R.idx = {3, 0, 2, 1};
  R.finish();
  Node r; R.build(r, 0, 0);
  o2m::O2MIterator it(r);
  int N = (int)R.flat.size(), p = -1; // -1: before the first, N: after the last
  std::string h = R.str();
  int depth = thorough() ? 7 : 5;
  for (int d = 0; d < depth; d++) {
    bool hn = p + 1 < N, hp = p > 0;
    if (it.has_next(o2m::DATA) != hn) fail("cursor-has-next", fmt("has_next is %d at %d after ", (int)!hn, p) + h);
    if (it.has_previous(o2m::DATA) != hp) fail("cursor-has-prev", fmt("has_previous is %d at %d after ", (int)!hp, p) + h);
    if (hn && it.peek_next(o2m::DATA) != R.flat[p + 1].second) fail("cursor-peek", h);
    if (hp && it.peek_previous(o2m::DATA) != R.flat[p - 1].second) fail("cursor-peek", h);
    if (p >= 0 && p < N && (it.index(o2m::DATA) != R.flat[p].second || it.index(o2m::ONE) != R.flat[p].first)) fail("cursor-index", h);
    int op = choose(6);
    mc::transition();
    if (op == 0) { if (!hn) throw mc::Abandon(); h += " next"; if (it.next(o2m::DATA) != R.flat[++p].second) fail("cursor-next", h); }
    else if (op == 1) { if (!hp) throw mc::Abandon(); h += " prev"; if (it.previous(o2m::DATA) != R.flat[--p].second) fail("cursor-prev", h); }
    else if (op == 2) { h += " front"; it.to_front(o2m::DATA); p = -1; }
    else if (op == 3) { h += " back"; it.to_back(o2m::DATA); p = N; }
    else if (op == 4) { if (!N) throw mc::Abandon(); p = choose(N); h += fmt(" to%d", p); it.to(p, o2m::DATA); }
    else { h += " copy"; o2m::O2MIterator c(it), e; e = c; it = e; }
    if (p == N && N == 0) p = -1;
  }
  mc::outcome(fmt("N=%d end=%d", N, p));
}
// multi-component arrays
static void sp_mcarray() {
  Env E; Node src;
  bool list = choose(2);
  int nc = 1 + choose(3), cnt = choose(thorough() ? 5 : 4);
  int t[3];
  for (int i = 0; i < nc; i++) t[i] = thorough() || i == 0 ? choose(NUM_TYPES) : (t[0] + choose(3) * 3) % NUM_TYPES;
  int how = choose(7); // separate with 5 layouts, one contiguous block, interleaved
  static const char *NM[] = {"x", "y", "z/w"};
  if (how < 5)
    for (int i = 0; i < nc; i++) make_leaf(E, list ? src.append() : src.add_child(NM[i]), t[i], cnt, (How)(i & 1), LAYS[how], i);
  else {
    Schema s; index_t o = 0, tot = 0;
    for (int i = 0; i < nc; i++) tot += TYPE_BYTES[t[i]];
    for (int i = 0; i < nc; i++) {
      index_t b = TYPE_BYTES[t[i]];
      DataType d(TYPE_IDS[t[i]], cnt, o, how == 5 ? b : tot, b, conduit::Endianness::DEFAULT_ID);
      (list ? s.append() : s.add_child(NM[i])).set(d);
      o += how == 5 ? b * cnt : b;
    }
    src.set(s);
    for (int i = 0; i < nc; i++)
      for (int k = 0; k < cnt; k++) put_val(t[i], src.child(i).element_ptr(k), i + k);
  }
  std::string before = dump(src);
  Node info;
  if (!mca::verify(src, info)) fail("mc-verify", "a conforming array is rejected: " + before);
  for (int to = 0; to < 2; to++)
    for (int used = 0; used < 2; used++) {
      Node dst; if (used) { dst["x"] = 1; dst["q"] = "text"; }
      bool ok = to ? mca::to_interleaved(src, dst) : mca::to_contiguous(src, dst);
      if (!ok) fail("mc-convert", "conversion refused");
      if (dump(dst) != before) fail(to ? "mc-interleaved" : "mc-contiguous", "becomes " + dump(dst) + " from " + before);
      index_t o = 0, tot = 0;
      for (int i = 0; i < nc; i++) tot += TYPE_BYTES[t[i]];
      const char *base = (const char *)dst.child(0).element_ptr(0);
      for (int i = 0; i < nc; i++) {
        if (cnt && (const char *)dst.child(i).element_ptr(0) - base != o) fail(to ? "mc-interleaved-layout" : "mc-contiguous-layout", fmt("component %d is misplaced: ", i) + before);
        index_t st = to ? tot : TYPE_BYTES[t[i]];
        if (dst.child(i).dtype().stride() != st) fail(to ? "mc-interleaved-layout" : "mc-contiguous-layout", fmt("component %d has stride %d: ", i, (int)dst.child(i).dtype().stride()) + before);
        o += to ? TYPE_BYTES[t[i]] : TYPE_BYTES[t[i]] * cnt;
      }
      if (cnt > 1) {
        if (to && !mca::is_interleaved(dst)) fail("mc-is-interleaved", "not recognised as interleaved: " + before);
        if (!to && nc > 1 && mca::is_interleaved(dst)) fail("mc-is-interleaved", "contiguous array called interleaved: " + before);
        if (!to && !dst.is_contiguous()) fail("mc-is-contiguous", "not contiguous: " + before);
      }
      // the copy is independent
      if (cnt) { put_val(t[0], dst.child(0).element_ptr(0), 7); if (dump(src) != before) fail("mc-alias", "the copy shares memory: " + before); }
    }
  if (dump(src) != before) fail("mc-changed", "the source was changed");
  if (how < 5 && nc > 1 && cnt > 1 && mca::is_interleaved(src)) fail("mc-is-interleaved", "separate arrays called interleaved: " + before);
  if (how == 6 && cnt > 1 && !mca::is_interleaved(src)) fail("mc-is-interleaved", "interleaved array not recognised: " + before);
  mc::outcome(fmt("nc=%d cnt=%d how=%d", nc, cnt, how)); mc::checked(); mc::transition(4);
}
// which nodes are multi-component arrays
static void sp_mcverify() {
  Node n; int kind = choose(4); // object, list, leaf, empty
  bool ok = kind < 2;
  std::string d;
  if (kind == 2) n = 3;
  if (kind < 2) {
    int nc = choose(4), len0 = -1;
    if (kind == 0) n.set(DataType::object()); else n.set(DataType::list());
    if (!nc) ok = false;
    for (int i = 0; i < nc; i++) {
      Node &c = kind == 0 ? n[std::string(1, (char)('a' + i))] : n.append();
      int k = choose(7);
      d += (char)('0' + k);
      if (k < 4) { c.set(k & 1 ? DataType::float64(k) : DataType::int32(k)); if (len0 < 0) len0 = k; if (len0 != k) ok = false; }
      else { ok = false; if (k == 4) c.set("txt"); else if (k == 5) c["z"] = 1.0; }
    }
  }
  std::string before = dump(n);
  Node info; bool r = mca::verify(n, info);
  if (r != ok) fail("mc-verify-exact", fmt("verify says %d for ", (int)r) + before);
  if (info["valid"].as_string() != (ok ? "true" : "false")) fail("mc-verify-info", "info disagrees for " + before);
  if (dump(n) != before) fail("mc-verify-changed", before);
  mc::outcome(ok ? "accept" : "reject"); mc::checked();
}
// which nodes are one-to-many relations
static void sp_overify() {
  Node n; bool ok = true; int data = 0; int len[3] = {-1, -1, -1};
  int base = choose(3);
  if (base == 1) { n.append() = 1.0; n.append() = 2.0; Node info; if (o2m::verify(n, info)) fail("o2m-verify-exact", "a list is accepted"); return; }
  if (base == 2) { n = 3.0; Node info; if (o2m::verify(n, info)) fail("o2m-verify-exact", "a leaf is accepted"); return; }
  static const char *NM[] = {"sizes", "offsets", "indices"};
  n.set(DataType::object());
  int order = choose(2);
  auto dat = [&]() { int k = choose(5); if (k == 1) n["v"].set(DataType::float32(3)); else if (k == 2) n["v"].set("text"); else if (k == 3) n["v/w"] = 1; else if (k == 4) { n["v"] = 1; n["u"] = "t"; } data += k == 1 || k == 4; };
  if (order) dat();
  for (int i = 0; i < 3; i++) {
    int k = choose(6);
    if (k == 1) { n[NM[i]].set(DataType::int64(2)); len[i] = 2; }
    if (k == 2) { n[NM[i]].set(DataType::uint8(3)); len[i] = 3; }
    if (k == 3) { n[NM[i]].set(DataType::float64(2)); len[i] = 2; ok = false; }
    if (k == 4) { n[NM[i]].set("text"); len[i] = 5; ok = false; }
    if (k == 5) { n[NM[i]].set(DataType::int32(0)); len[i] = 0; }
  }
  if (!order) dat();
  if ((len[0] < 0) != (len[1] < 0) || len[0] != len[1]) ok = false;
  if (!data) ok = false;
  std::string before = dump(n);
  Node info; bool r = o2m::verify(n, info);
  if (r != ok) fail("o2m-verify-exact", fmt("verify says %d for ", (int)r) + before);
  if (info["valid"].as_string() != (ok ? "true" : "false")) fail("o2m-verify-info", "info disagrees for " + before);
  if (dump(n) != before) fail("o2m-verify-changed", before);
  mc::outcome(ok ? "accept" : "reject"); mc::checked();
}
static index_t at(const nda::NDIndex &x, int nd, const V &i) {
  if (nd == 1) return x.index(i[0]);
  if (nd == 2) return x.index(i[0], (int)i[1]);
  if (nd == 3) return x.index((int)i[0], i[1], i[2]);
  return x.index(i[0], i[1], i[2], i[3]);
}
static void sp_nd() {
  int nd = 1 + choose(4);
  int ho = choose(2), hs = choose(3), style = nd < 4 ? choose(4) : 0, mx = nd == 4 ? 2 : 3;
  V sh, of, st;
  for (int d = 0; d < nd; d++) { sh.push_back(1 + choose(mx)); of.push_back(ho ? choose(nd > 2 ? 2 : 3) : 0); }
  if (hs == 0) { index_t a = 1; for (int d = 0; d < nd; d++) { st.push_back(a); a *= sh[d] + of[d]; } }
  else { index_t a = 1; for (int d = 0; d < nd; d++) { st.push_back(a); a *= sh[d] + of[d] + 1; } if (hs == 2) std::reverse(st.begin(), st.end()); }
  Node n; ints(n["shape"], sh, style); if (ho) ints(n["offset"], of, style); if (hs) ints(n["stride"], st, style);
  nda::NDIndex a(n), b(nd, sh.data(), ho ? of.data() : nullptr, hs ? st.data() : nullptr), c(a), e; e = b;
  const nda::NDIndex *X[] = {&a, &b, &c, &e};
  V i(nd, 0);
  for (auto x : X) {
    if (x->ndims() != nd) fail("nd-dims", "wrong number of dimensions");
    for (int d = 0; d < nd; d++) if (x->shape(d) != sh[d] || x->offset(d) != of[d] || x->stride(d) != st[d]) fail("nd-meta", fmt("dimension %d: shape %d offset %d stride %d", d, (int)x->shape(d), (int)x->offset(d), (int)x->stride(d)));
    Node info; x->info(info);
    for (int d = 0; d < nd; d++) if (info["shape"].as_index_t_accessor()[d] != sh[d] || info["offset"].as_index_t_accessor()[d] != of[d] || info["stride"].as_index_t_accessor()[d] != st[d]) fail("nd-info", "info disagrees");
    if ((info["user_provided/offset"].as_string() == "true") != (ho == 1) || (info["user_provided/stride"].as_string() == "true") != (hs > 0)) fail("nd-info", "info disagrees on what was given");
  }
  for (;;) {
    index_t want = 0; for (int d = 0; d < nd; d++) want += (of[d] + i[d]) * st[d];
    for (auto x : X) if (at(*x, nd, i) != want) fail("nd-index", fmt("flat index %d instead of %d", (int)at(*x, nd, i), (int)want));
    mc::transition();
    int d = 0; while (d < nd && ++i[d] == sh[d]) i[d++] = 0;
    if (d == nd) break;
  }
  mc::outcome(fmt("nd=%d off=%d stride=%d", nd, ho, hs)); mc::checked();
}
int main(int argc, char **argv) {
  init();
  mc::Opt o; o.shard_depth = 4;
  return mc::main_(argc, argv, "B06",
                   {{"relations", sp_rel, o, "every relation of up to 2 ones over 3 data items: all sizes, offsets, indices and presence combinations"},
                    {"relations3", sp_rel3, o, "every relation of up to 3 ones over 2 (3) data items with two data arrays"},
                    {"styles", sp_style, o, "relations in every integer type and layout with 1 to 3 data arrays"},
                    {"cursor", sp_cursor, o, "every sequence of 5 (7) cursor operations on relations with empty groups"},
                    {"mcarray", sp_mcarray, o, "every multi-component array of 1 to 3 components, types, layouts, lengths, as object and list"},
                    {"mcverify", sp_mcverify, o, "verification of every object, list and leaf of up to 3 children"},
                    {"overify", sp_overify, o, "verification of every combination of sizes, offsets, indices and data kinds"},
                    {"ndindex", sp_nd, o, "every shape up to 3 in 1 to 4 dimensions, every offset, default, padded and reversed strides"}},
                   {"relations whose offsets or indices point outside the data are not used"});
}
