// C15: array views and accessors: every operation, element type, source type, layout and length
// against its elementwise definition, with guard bytes around the elements.
#include "gen.hpp"
using namespace gen;
using conduit::DataAccessor; using conduit::DataArray;

template <class U, class T> static bool defined(T v) {
  typedef std::numeric_limits<U> L;
  if (std::is_floating_point<T>::value && std::is_integral<U>::value) return (long double)v > (long double)L::min() - 1 && (long double)v < (long double)L::max() + 1;
  if (std::is_same<T, double>::value && std::is_same<U, float>::value) return std::fabs((long double)v) <= (long double)L::max();
  return true;
}
template <class T> static bool same(T a, T b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
template <class T> static std::string s_(T v) { std::string o; fmt_num(o, v); return o; }
template <class T> struct Mem { // elements of type T in guarded memory
  Buf b; DataType d; std::vector<T> v; Lay l;
  Mem(int cnt, Lay l_, int salt) : b((l_.off + l_.str * 4) * sizeof(T) + 16), l(l_) {
    int eb = sizeof(T);
    d = DataType(TYPE_IDS[type_no<T>()], cnt, l.off * eb, l.str * eb, eb, conduit::Endianness::DEFAULT_ID);
    auto bb = bounds<T>();
    for (int i = 0; i < cnt; i++) {
      T x = bb[(salt + i) % bb.size()]; v.push_back(x);
      memcpy(b.at((l.off + l.str * i) * eb), &x, eb);
      for (int k = 0; k < eb; k++) b.used[(l.off + l.str * i) * eb + k] = true;
    }
  }
  T get(int i) { T x; memcpy(&x, b.at((l.off + l.str * i) * sizeof(T)), sizeof x); return x; }
  void check(const char *what) {
    for (size_t i = 0; i < v.size(); i++) MC_CHECK(same(get(i), v[i]), "value", "%s: element %zu is %s, expected %s", what, i, s_(get(i)).c_str(), s_(v[i]).c_str());
    MC_CHECK(b.guards_ok(), "guard", "%s wrote outside the elements", what);
  }
};
template <class U, class F> static void with_il(const std::vector<U> &v, F f) {
  switch (v.size()) {
  case 0: f(std::initializer_list<U>{}); break;
  case 1: f(std::initializer_list<U>{v[0]}); break;
  case 2: f(std::initializer_list<U>{v[0], v[1]}); break;
  case 3: f(std::initializer_list<U>{v[0], v[1], v[2]}); break;
  default: f(std::initializer_list<U>{v[0], v[1], v[2], v[3]}); break;
  }
}
static const char *FAM[] = {"set(i, v)", "set(pointer)", "set(vector)", "set(initializer_list)", "= initializer_list", "set(DataArray)", "set(DataAccessor)", "fill", "accessor set(i, v)", "accessor fill"};
template <class T, class U> static void run(int fam, int cnt, int scnt, int lay, int slay, int salt) {
  Mem<T> D(cnt, LAYS[lay], 2);
  Mem<U> S(scnt, LAYS[slay], salt);
  for (U x : S.v) if (!defined<T>(x)) throw mc::Abandon();
  DataArray<T> a((void *)D.b.at(0), D.d);
  DataAccessor<U> acc((void *)D.b.at(0), D.d); // a view of the target as another type
  DataArray<U> sa((void *)S.b.at(0), S.d);
  DataAccessor<U> sc((void *)S.b.at(0), S.d);
  auto bb = bounds<U>();
  int n = std::min(cnt, scnt);
  switch (fam) {
  case 0: if (scnt != 1) throw mc::Abandon(); for (int i = 0; i < cnt; i++) { a.set(i, S.v[0]); D.v[i] = (T)S.v[0]; D.check(FAM[fam]); D.v[i] = (T)7; a.set(i, (U)7); } break;
  case 1: if (slay || scnt > cnt) throw mc::Abandon(); a.set(S.v.data(), scnt); for (int i = 0; i < scnt; i++) D.v[i] = (T)S.v[i]; break;
  case 2: if (slay || scnt > cnt || !scnt) throw mc::Abandon(); a.set(S.v); for (int i = 0; i < scnt; i++) D.v[i] = (T)S.v[i]; break;
  case 3: if (slay) throw mc::Abandon(); with_il<U>(S.v, [&](const std::initializer_list<U> &x) { a.set(x); }); for (int i = 0; i < n; i++) D.v[i] = (T)S.v[i]; break;
  case 4: if (slay) throw mc::Abandon(); with_il<U>(S.v, [&](const std::initializer_list<U> &x) { a = x; }); for (int i = 0; i < n; i++) D.v[i] = (T)S.v[i]; break;
  case 5: if (scnt < cnt) throw mc::Abandon(); a.set(sa); for (int i = 0; i < cnt; i++) D.v[i] = (T)S.v[i]; break;
  case 6: if (scnt < cnt) throw mc::Abandon(); a.set(sc); for (int i = 0; i < cnt; i++) D.v[i] = (T)S.v[i]; break;
  case 7: if (scnt != 1) throw mc::Abandon(); a.fill(S.v[0]); for (int i = 0; i < cnt; i++) D.v[i] = (T)S.v[0]; break;
  case 8: if (scnt != 1) throw mc::Abandon(); for (int i = 0; i < cnt; i++) { acc.set(i, S.v[0]); D.v[i] = (T)S.v[0]; D.check(FAM[fam]); D.v[i] = (T)7; acc.set(i, (U)7); } break;
  case 9: if (scnt != 1) throw mc::Abandon(); acc.fill(S.v[0]); for (int i = 0; i < cnt; i++) D.v[i] = (T)S.v[0]; break;
  }
  mc::transition();
  D.check(FAM[fam]); S.check("the source");
  for (int i = 0; i < cnt; i++) {
    MC_CHECK(same(a[i], D.v[i]) && same(a.element(i), D.v[i]), "read", "%s: element %d reads %s, expected %s", FAM[fam], i, s_(a[i]).c_str(), s_(D.v[i]).c_str());
    if (defined<U>(D.v[i])) MC_CHECK(same<U>(acc[i], (U)D.v[i]), "accessor-read", "%s: element %d reads %s through an accessor, expected %s", FAM[fam], i, s_(acc[i]).c_str(), s_(D.v[i]).c_str());
  }
  mc::outcome(FAM[fam]);
}
static void ops() {
  int t = mc::choose(NUM_TYPES), u = mc::choose(NUM_TYPES), fam = mc::choose(10), lay = mc::choose(NLAYS), cnt = mc::choose(4), scnt = mc::choose(5), slay = (fam == 5 || fam == 6) ? mc::choose(NLAYS) : 0, salt = mc::choose(9);
  mc::note("%s on a %s[%d] (offset %d stride %d) from %s[%d] (offset %d stride %d), values from %d", FAM[fam], TYPE_NAMES[t], cnt, LAYS[lay].off, LAYS[lay].str, TYPE_NAMES[u], scnt, LAYS[slay].off, LAYS[slay].str, salt);
  with_type(t, [&](auto x) { with_type(u, [&](auto y) { run<decltype(x), decltype(y)>(fam, cnt, scnt, lay, slay, salt); }); });
  mc::Hasher H; H.u64(t * 10 + u); H.u64(fam); H.u64(lay * 8 + slay); H.u64(cnt * 8 + scnt); H.u64(salt); mc::observe(H.h);
}

// summaries: all sequences of values of a small alphabet
template <class T, class U> static void stats(int cnt, int lay) {
  auto bb = bounds<T>();
  Mem<T> D(cnt, LAYS[lay], 0);
  for (int i = 0; i < cnt; i++) { D.v[i] = bb[mc::choose((int)bb.size())]; memcpy(D.b.at((D.l.off + D.l.str * i) * sizeof(T)), &D.v[i], sizeof(T)); }
  DataArray<T> a((void *)D.b.at(0), D.d);
  DataAccessor<U> c((void *)D.b.at(0), D.d);
  bool conv = true; for (T x : D.v) if (!defined<U>(x)) conv = false;
  if (cnt) {
    T mn = D.v[0], mx = D.v[0]; U un = 0, ux = 0; bool first = true;
    for (T x : D.v) { if (x < mn) mn = x; if (x > mx) mx = x; if (conv) { U y = (U)x; if (first || y < un) un = y; if (first || y > ux) ux = y; first = false; } }
    MC_CHECK(same(a.min(), mn), "min", "min is %s, expected %s", s_(a.min()).c_str(), s_(mn).c_str());
    MC_CHECK(same(a.max(), mx), "max", "max is %s, expected %s", s_(a.max()).c_str(), s_(mx).c_str());
    if (conv) {
      MC_CHECK(same(c.min(), un), "accessor-min", "accessor min is %s, expected %s", s_(c.min()).c_str(), s_(un).c_str());
      MC_CHECK(same(c.max(), ux), "accessor-max", "accessor max is %s, expected %s", s_(c.max()).c_str(), s_(ux).c_str());
    }
    double m = 0; for (T x : D.v) m += x;
    m /= (double)cnt;
    MC_CHECK(a.mean() == m || (m != m), "mean", "mean is %.17g, expected %.17g", a.mean(), m);
    if (conv) { double k = 0; for (T x : D.v) k += (U)x; k /= (double)cnt; MC_CHECK(c.mean() == k || k != k, "accessor-mean", "accessor mean is %.17g, expected %.17g", c.mean(), k); }
  }
  { // sums: only where every partial sum is representable
    long double r = 0; bool ok = true; T s = 0;
    for (T x : D.v) { r += (long double)x; if (std::is_integral<T>::value && (r > (long double)std::numeric_limits<T>::max() || r < (long double)std::numeric_limits<T>::min())) ok = false; }
    if (ok) { for (T x : D.v) s += x; MC_CHECK(same(a.sum(), s), "sum", "sum is %s, expected %s", s_(a.sum()).c_str(), s_(s).c_str()); }
    if (conv) {
      long double q = 0; bool okc = true; U su = 0;
      for (T x : D.v) { q += (long double)(U)x; if (std::is_integral<U>::value && (q > (long double)std::numeric_limits<U>::max() || q < (long double)std::numeric_limits<U>::min())) okc = false; }
      if (okc) { for (T x : D.v) su += (U)x; MC_CHECK(same(c.sum(), su), "accessor-sum", "accessor sum is %s, expected %s", s_(c.sum()).c_str(), s_(su).c_str()); }
    }
  }
  for (T x : bb) {
    index_t k = 0, kc = 0; for (T y : D.v) { if (x == y) k++; if (conv && defined<U>(x) && (U)y == (U)x) kc++; }
    MC_CHECK(a.count(x) == k, "count", "count(%s) is %ld, expected %ld", s_(x).c_str(), (long)a.count(x), (long)k);
    if (conv && defined<U>(x)) MC_CHECK(c.count((U)x) == kc, "accessor-count", "accessor count(%s) is %ld, expected %ld", s_(x).c_str(), (long)c.count((U)x), (long)kc);
  }
  std::vector<T> out(cnt + 1, T(3)); a.compact_elements_to((conduit::uint8 *)out.data());
  for (int i = 0; i < cnt; i++) MC_CHECK(same(out[i], D.v[i]), "compact_elements_to", "compacted element %d is %s, expected %s", i, s_(out[i]).c_str(), s_(D.v[i]).c_str());
  MC_CHECK(out[cnt] == T(3), "compact_elements_to-guard", "compact_elements_to wrote too much");
  MC_CHECK(a.number_of_elements() == cnt && c.number_of_elements() == cnt, "number_of_elements", "wrong length");
  D.check("summary");
  mc::transition(); mc::outcome("summary"); mc::Hasher H; H.u64(type_no<T>() * 10 + type_no<U>()); H.u64(lay); for (T x : D.v) H.bytes(&x, sizeof x); mc::observe(H.h);
}
static void summaries() {
  int t = mc::choose(NUM_TYPES), u = mc::choose(NUM_TYPES), lay = mc::choose(NLAYS), cnt = mc::choose(mc::thorough() ? 5 : 4);
  mc::note("summaries of %s[%d] layout %d, accessor type %s", TYPE_NAMES[t], cnt, lay, TYPE_NAMES[u]);
  with_type(t, [&](auto x) { with_type(u, [&](auto y) { stats<decltype(x), decltype(y)>(cnt, lay); }); });
}
int main(int argc, char **argv) {
  cn::init();
  mc::Opt o; o.shard_depth = 3; o.leaks = true;
  return mc::main_(argc, argv, "C15",
    {{"operations", ops, o, "10 operations x 10 element types x 10 source types x 5 layouts x target lengths 0-3 x source lengths 0-4 x source layouts x 9 value rotations"},
     {"summaries", summaries, o, "all value sequences up to length 3 (4) over the boundary values of each type, 5 layouts, through arrays and accessors of all 10 types"}},
    {"conversions that the language leaves undefined and overflowing integer sums are not judged", "a pointer or vector source is not longer, an array or accessor source not shorter than the target"});
}
