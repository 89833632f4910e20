// C04: every setter, reader and conversion for every leaf type, layout, length and boundary value.
#include "gen.hpp"
using namespace gen;
using conduit::DataAccessor; using conduit::DataArray;

static long g_warn = 0;
static void warn(const std::string &, const std::string &, int) { g_warn++; }

// ---- the per-type interface
template <class T> struct Api;
#define API(NAME)                                                                                              \
  template <> struct Api<conduit::NAME> {                                                                      \
    typedef conduit::NAME T;                                                                                   \
    static T as(const Node &n) { return n.as_##NAME(); }                                                       \
    static T *ptr(Node &n) { return n.as_##NAME##_ptr(); }                                                     \
    static const T *cptr(const Node &n) { return n.as_##NAME##_ptr(); }                                        \
    static DataArray<T> array(Node &n) { return n.as_##NAME##_array(); }                                       \
    static const DataArray<T> carray(const Node &n) { return n.as_##NAME##_array(); }                          \
    static DataAccessor<T> acc(const Node &n) { return n.as_##NAME##_accessor(); }                             \
    static T to(const Node &n) { return n.to_##NAME(); }                                                       \
    static void to_array(const Node &n, Node &r) { n.to_##NAME##_array(r); }                                   \
    static void set1(Node &n, T v) { n.set_##NAME(v); }                                                        \
    static void setv(Node &n, const std::vector<T> &v) { n.set_##NAME##_vector(v); }                           \
    static void seta(Node &n, const DataArray<T> &v) { n.set_##NAME##_array(v); }                              \
    static void setil(Node &n, const std::initializer_list<T> &v) { n.set_##NAME##_initializer_list(v); }      \
    static void setp(Node &n, const T *p, index_t c, index_t o, index_t s) { n.set_##NAME##_ptr(p, c, o, s); } \
    static void xp(Node &n, T *p, index_t c, index_t o, index_t s) { n.set_external_##NAME##_ptr(p, c, o, s); } \
    static void xa(Node &n, const DataArray<T> &v) { n.set_external_##NAME##_array(v); }                       \
    static void xv(Node &n, std::vector<T> &v) { n.set_external_##NAME##_vector(v); }                          \
    static void ps1(Node &n, const std::string &q, T v) { n.set_path_##NAME(q, v); }                           \
    static void psv(Node &n, const std::string &q, const std::vector<T> &v) { n.set_path_##NAME##_vector(q, v); } \
    static void psa(Node &n, const std::string &q, const DataArray<T> &v) { n.set_path_##NAME##_array(q, v); } \
    static void psp(Node &n, const std::string &q, const T *p, index_t c, index_t o, index_t s) { n.set_path_##NAME##_ptr(q, p, c, o, s); } \
    static void pxp(Node &n, const std::string &q, T *p, index_t c, index_t o, index_t s) { n.set_path_external_##NAME##_ptr(q, p, c, o, s); } \
    static void pxa(Node &n, const std::string &q, const DataArray<T> &v) { n.set_path_external_##NAME##_array(q, v); } \
    static void pxv(Node &n, const std::string &q, std::vector<T> &v) { n.set_path_external_##NAME##_vector(q, v); } \
  };
API(int8) API(int16) API(int32) API(int64) API(uint8) API(uint16) API(uint32) API(uint64) API(float32) API(float64)

// is the language's conversion of v to U defined?
template <class U, class T> static bool defined(T v) {
  typedef std::numeric_limits<U> L;
  if (std::is_floating_point<T>::value && std::is_integral<U>::value) return (long double)v > (long double)L::min() - 1 && (long double)v < (long double)L::max() + 1;
  if (std::is_same<T, double>::value && std::is_same<U, float>::value) return std::fabs((long double)v) <= (long double)L::max() || v != v;
  return true;
}
template <class T> static bool same(T a, T b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
template <class T> static std::string s_(T v) { std::string o; fmt_num(o, v); return o; }

template <class T> static T raw(const Node &n, int i) {
  T v; memcpy(&v, (const char *)n.data_ptr() + n.dtype().offset() + n.dtype().stride() * i, sizeof v); return v;
}
// scalars and arrays of the c-native names
template <class T, class U, class AR, class CA> static void native(const char *nm, const std::vector<T> &v, U as, const U *cp, U *p, AR a, CA ca) {
  if (!v.empty()) {
    MC_CHECK(same<U>(as, (U)v[0]), "native-as", "as_%s gives %s, stored %s", nm, s_(as).c_str(), s_(v[0]).c_str());
    MC_CHECK(same<U>(*cp, (U)v[0]) && same<U>(*p, (U)v[0]), "native-ptr", "as_%s_ptr addresses another value", nm);
  }
  MC_CHECK((size_t)a.number_of_elements() == v.size() && (size_t)ca.number_of_elements() == v.size(), "native-count", "as_%s_array has another length", nm);
  for (size_t i = 0; i < v.size(); i++) MC_CHECK(same<U>((U)a[i], (U)v[i]) && same<U>((U)ca[i], (U)v[i]), "native-array", "as_%s_array()[%zu] is %s, stored %s", nm, i, s_(a[i]).c_str(), s_(v[i]).c_str());
}
#define NATIVE(T_, NM, U_) \
  if (std::is_same<T, T_>::value) { long w = g_warn; typedef U_ UU; native<T, UU>(#NM, v, v.empty() ? UU() : (UU)cn_.as_##NM(), v.empty() ? nullptr : cn_.as_##NM##_ptr(), v.empty() ? nullptr : n.as_##NM##_ptr(), n.as_##NM##_array(), cn_.as_##NM##_array()); \
    MC_CHECK(g_warn == w, "native-warning", "reading a %s as " #NM " is reported as an error", n.dtype().name().c_str()); }
template <class T> static void natives(Node &n, const Node &cn_, const std::vector<T> &v) {
  NATIVE(i8, char, char) NATIVE(i8, signed_char, signed char) NATIVE(i16, short, short) NATIVE(i16, signed_short, short)
  NATIVE(i32, int, int) NATIVE(i32, signed_int, int) NATIVE(i64, long, long) NATIVE(i64, signed_long, long)
  NATIVE(i64, long_long, long long) NATIVE(i64, signed_long_long, long long)
  NATIVE(u8, unsigned_char, unsigned char) NATIVE(u16, unsigned_short, unsigned short) NATIVE(u32, unsigned_int, unsigned int)
  NATIVE(u64, unsigned_long, unsigned long) NATIVE(u64, unsigned_long_long, unsigned long long)
  NATIVE(f32, float, float) NATIVE(f64, double, double)
}
// conversions to the c-native names
#define NCONV(NM, U_) \
  { auto a = n.as_##NM##_accessor(); for (size_t i = 0; i < v.size(); i++) if (defined<U_>(v[i])) MC_CHECK(same<U_>((U_)a[i], (U_)v[i]), "native-accessor", "as_" #NM "_accessor()[%zu] of a %s is %s, stored %s", i, n.dtype().name().c_str(), s_(a[i]).c_str(), s_(v[i]).c_str()); \
    if (!v.empty() && defined<U_>(v[0])) { U_ x = n.to_##NM(); MC_CHECK(same<U_>(x, (U_)v[0]), "native-to", "to_" #NM "() of %s %s is %s", n.dtype().name().c_str(), s_(v[0]).c_str(), s_(x).c_str()); } }
#define NARR(NM, U_) \
  { Node r; n.to_##NM##_array(r); MC_CHECK((size_t)r.dtype().number_of_elements() == v.size() && (v.empty() || r.dtype().element_bytes() == sizeof(U_)), "native-to-array", "to_" #NM "_array gives %ld elements", (long)r.dtype().number_of_elements()); \
    for (size_t i = 0; i < v.size(); i++) if (defined<U_>(v[i])) MC_CHECK(same<U_>(raw<U_>(r, i), (U_)v[i]), "native-to-array", "to_" #NM "_array element %zu of a %s is %s, stored %s", i, n.dtype().name().c_str(), s_(raw<U_>(r, i)).c_str(), s_(v[i]).c_str()); }
template <class T> static void native_conv(const Node &n, const std::vector<T> &v) {
  NCONV(char, char) NCONV(short, short) NCONV(int, int) NCONV(long, long) NCONV(long_long, long long)
  NCONV(signed_char, signed char) NCONV(signed_short, short) NCONV(signed_int, int) NCONV(signed_long, long) NCONV(signed_long_long, long long)
  NCONV(unsigned_char, unsigned char) NCONV(unsigned_short, unsigned short) NCONV(unsigned_int, unsigned int) NCONV(unsigned_long, unsigned long) NCONV(unsigned_long_long, unsigned long long)
  NCONV(float, float) NCONV(double, double) NCONV(index_t, index_t)
  NARR(char, char) NARR(short, short) NARR(int, int) NARR(long, long) 
  NARR(unsigned_char, unsigned char) NARR(unsigned_short, unsigned short) NARR(unsigned_int, unsigned int) NARR(unsigned_long, unsigned long)
  NARR(unsigned_long_long, unsigned long long) NARR(signed_long_long, long long) NARR(float, float) NARR(double, double) NARR(index_t, index_t)
}
template <class U, class T> static void casts(Node &n, const Node &c, T v0) {
  if (!defined<U>(v0)) return;
  U a = n.to_value(), b = c.to_value();
  MC_CHECK(same<U>(a, (U)v0), "to_value", "to_value() of %s %s cast to a %zu byte type is %s", n.dtype().name().c_str(), s_(v0).c_str(), sizeof(U), s_(a).c_str());
  MC_CHECK(same<U>(b, (U)v0), "to_value-const", "const to_value() of %s %s is %s", n.dtype().name().c_str(), s_(v0).c_str(), s_(b).c_str());
  if (std::is_same<T, U>::value) {
    U x = n.value(), y = c.value();
    MC_CHECK(same<U>(x, (U)v0) && same<U>(y, (U)v0), "value", "value() of %s %s is %s, %s", n.dtype().name().c_str(), s_(v0).c_str(), s_(x).c_str(), s_(y).c_str());
  }
}
// everything that can be read from a leaf holding v
template <class T> static void read_all(Node &n, const std::vector<T> &v, bool conversions) {
  typedef Api<T> A;
  const Node &c = n;
  long w = g_warn;
  const char *tn = TYPE_NAMES[type_no<T>()];
  MC_CHECK(n.dtype().id() == TYPE_IDS[type_no<T>()], "type", "the leaf has type %s, expected %s", n.dtype().name().c_str(), tn);
  MC_CHECK(n.dtype().number_of_elements() == (index_t)v.size(), "length", "the leaf has %ld elements, expected %zu", (long)n.dtype().number_of_elements(), v.size());
  MC_CHECK(n.dtype().element_bytes() == sizeof(T), "element-bytes", "the elements have %ld bytes", (long)n.dtype().element_bytes());
  if (!v.empty()) {
    MC_CHECK(same(A::as(c), v[0]), "as", "as_%s is %s, stored %s", tn, s_(A::as(c)).c_str(), s_(v[0]).c_str());
    MC_CHECK(same(*A::ptr(n), v[0]) && same(*A::cptr(c), v[0]), "ptr", "as_%s_ptr addresses another value than %s", tn, s_(v[0]).c_str());
  }
  DataArray<T> a = A::array(n); const DataArray<T> ca = A::carray(c); DataAccessor<T> ac = A::acc(c);
  MC_CHECK(a.number_of_elements() == (index_t)v.size() && ca.number_of_elements() == (index_t)v.size() && ac.number_of_elements() == (index_t)v.size(), "array-length", "the array views have other lengths");
  for (size_t i = 0; i < v.size(); i++) {
    MC_CHECK(same(raw<T>(c, i), v[i]), "raw", "element %zu in memory is %s, expected %s", i, s_(raw<T>(c, i)).c_str(), s_(v[i]).c_str());
    MC_CHECK(n.element_ptr(i) == (char *)n.data_ptr() + n.dtype().offset() + n.dtype().stride() * i, "element_ptr", "element_ptr(%zu) is wrong", i);
    MC_CHECK(same(a[i], v[i]) && same(a.element(i), v[i]), "array", "as_%s_array()[%zu] is %s, expected %s", tn, i, s_(a[i]).c_str(), s_(v[i]).c_str());
    MC_CHECK(same(ca[i], v[i]), "carray", "const as_%s_array()[%zu] is %s, expected %s", tn, i, s_(ca[i]).c_str(), s_(v[i]).c_str());
    MC_CHECK(same(ac[i], v[i]), "accessor", "as_%s_accessor()[%zu] is %s, expected %s", tn, i, s_(ac[i]).c_str(), s_(v[i]).c_str());
    MC_CHECK(&a[i] == n.element_ptr(i) && &ca[i] == c.element_ptr(i), "array-address", "array views do not address the node's memory");
  }
  MC_CHECK(g_warn == w, "warning", "reading a leaf with its own type is reported as an error");
  if (!conversions) return;
  natives<T>(n, c, v);
  native_conv<T>(c, v);
  if (!v.empty()) {
    casts<signed char>(n, c, v[0]); casts<short>(n, c, v[0]); casts<int>(n, c, v[0]); casts<long>(n, c, v[0]); casts<long long>(n, c, v[0]);
    casts<unsigned char>(n, c, v[0]); casts<unsigned short>(n, c, v[0]); casts<unsigned int>(n, c, v[0]); casts<unsigned long>(n, c, v[0]); casts<unsigned long long>(n, c, v[0]);
    casts<float>(n, c, v[0]); casts<double>(n, c, v[0]); 
  }
  for (int t = 0; t < NUM_TYPES; t++)
    with_type(t, [&](auto x) {
      typedef decltype(x) U;
      const char *un = TYPE_NAMES[t];
      if (!v.empty() && defined<U>(v[0])) { U r = Api<U>::to(c); MC_CHECK(same(r, (U)v[0]), "to", "to_%s of %s %s is %s", un, tn, s_(v[0]).c_str(), s_(r).c_str()); }
      DataAccessor<U> q = Api<U>::acc(c);
      Node r1, r2; r2.set("old");
      Api<U>::to_array(c, r1); c.to_data_type(TYPE_IDS[t], r2);
      for (Node *r : {&r1, &r2}) MC_CHECK(r->dtype().id() == TYPE_IDS[t] && r->dtype().number_of_elements() == (index_t)v.size(), "to_array-type", "conversion of %s to %s gives %s[%ld]", tn, un, r->dtype().name().c_str(), (long)r->dtype().number_of_elements());
      for (size_t i = 0; i < v.size(); i++)
        if (defined<U>(v[i])) {
          U e = (U)v[i];
          MC_CHECK(same<U>(q[i], e) && same<U>(q.element(i), e), "accessor-conv", "as_%s_accessor()[%zu] of %s %s is %s", un, i, tn, s_(v[i]).c_str(), s_(U(q[i])).c_str());
          MC_CHECK(same<U>(raw<U>(r1, i), e), "to_array", "to_%s_array element %zu of %s %s is %s", un, i, tn, s_(v[i]).c_str(), s_(raw<U>(r1, i)).c_str());
          MC_CHECK(same<U>(raw<U>(r2, i), e), "to_data_type", "to_data_type(%s) element %zu of %s %s is %s", un, i, tn, s_(v[i]).c_str(), s_(raw<U>(r2, i)).c_str());
        }
      if (!std::is_same<T, U>::value) { // the wrong type is reported and answered with nothing
        long w0 = g_warn;
        U z = Api<U>::as(c);
        MC_CHECK(g_warn > w0 && z == U(0), "wrong-type-as", "as_%s on a %s leaf gives %s and %s", un, tn, s_(z).c_str(), g_warn > w0 ? "is reported" : "is not reported");
        w0 = g_warn;
        MC_CHECK(Api<U>::ptr(n) == nullptr && g_warn > w0, "wrong-type-ptr", "as_%s_ptr on a %s leaf is not reported", un, tn);
        w0 = g_warn;
        MC_CHECK(Api<U>::array(n).number_of_elements() == 0 && g_warn > w0, "wrong-type-array", "as_%s_array on a %s leaf is not reported", un, tn);
        w0 = g_warn;
        MC_CHECK(Api<U>::carray(c).number_of_elements() == 0 && g_warn > w0, "wrong-type-carray", "const as_%s_array on a %s leaf is not reported", un, tn);
      }
    });
  for (size_t i = 0; i < v.size(); i++) MC_CHECK(same(raw<T>(c, i), v[i]), "changed-by-reading", "reading changed element %zu", i);
}

static void readers() {
  Env E; Node n;
  int t = mc::choose(NUM_TYPES), cnt = mc::choose(4), how = mc::choose(3), l = mc::choose(NLAYS), salt = mc::choose(9);
  if (how == OWNED && l) throw mc::Abandon();
  make_leaf(E, n, t, cnt, (How)how, LAYS[l], salt);
  mc::note("%s[%d] %s offset %d stride %d values from %d", TYPE_NAMES[t], cnt, how == OWNED ? "owned" : how == EXTERNAL ? "external" : "schema-bound", LAYS[l].off, LAYS[l].str, salt);
  with_type(t, [&](auto x) {
    typedef decltype(x) T; auto b = bounds<T>();
    std::vector<T> v; for (int i = 0; i < cnt; i++) v.push_back(b[(salt + i) % b.size()]);
    read_all<T>(n, v, true);
  });
  MC_CHECK(E.guards_ok(), "guard", "reading changed bytes outside the elements");
  mc::transition();
  mc::Hasher H; H.u64(t); H.u64(cnt); H.u64(how); H.u64(l); H.u64(salt); mc::observe(H.h);
  mc::outcome(TYPE_NAMES[t]);
}

// ---- setters
static const char *FAM[] = {"set_T(v)", "set(v)", "= v", "set_T_vector", "set(vector)", "= vector", "set_T_array", "set(array)", "= array", "set_T_ptr", "set(ptr)",
  "set_T_initializer_list", "set(initializer_list)", "= initializer_list", "set(DataType, data)", "set(Schema, data)", "constructor(DataType, data, copy)", "array view",
  "set_external_T_ptr", "set_external(ptr)", "set_external_T_array", "set_external(array)", "set_external_T_vector", "set_external(vector)", "set_external(DataType, data)", "set_external(Schema, data)",
  "set_path_T", "set_path(v)", "set_path_T_vector", "set_path(vector)", "set_path_T_array", "set_path(array)", "set_path_T_ptr", "set_path(ptr)",
  "set_path_external_T_ptr", "set_path_external(ptr)", "set_path_external_T_array", "set_path_external(array)", "set_path_external_T_vector", "set_path_external(vector)",
  "set_path(DataType, data)", "set_path_external(DataType, data)"};
static const int NFAM = 42;
template <class T, class F> static void with_il(const std::vector<T> &v, F f) {
  if (v.size() == 1) f(std::initializer_list<T>{v[0]});
  else if (v.size() == 2) f(std::initializer_list<T>{v[0], v[1]});
  else f(std::initializer_list<T>{v[0], v[1], v[2]});
}
template <class T> static void setter(int fam, int prior, int cnt, int lay, int salt) {
  typedef Api<T> A;
  int t = type_no<T>(), eb = sizeof(T);
  auto b = bounds<T>();
  Env E; // memory of the target
  std::vector<T> v; for (int i = 0; i < cnt; i++) v.push_back(b[(salt + i) % b.size()]);
  // the source: caller memory with guards
  Lay l = LAYS[lay];
  bool path = fam >= 26, ext = (fam >= 18 && fam < 26) || (fam >= 34 && fam < 40) || fam == 41;
  bool vec = fam == 3 || fam == 4 || fam == 5 || fam == 22 || fam == 23 || fam == 28 || fam == 29 || fam == 38 || fam == 39;
  bool scalar = fam <= 2 || fam == 26 || fam == 27;
  bool il = fam >= 11 && fam <= 13;
  if (scalar && cnt != 1) throw mc::Abandon();
  if ((scalar || vec || il || fam == 17) && lay) throw mc::Abandon();
  Buf S((l.off + l.str * 3) * eb + 16);
  for (int i = 0; i < cnt; i++) { memcpy(S.at((l.off + l.str * i) * eb), &v[i], eb); for (int k = 0; k < eb; k++) S.used[(l.off + l.str * i) * eb + k] = true; }
  std::vector<unsigned char> before = S.b;
  std::vector<T> sv = v;
  T *sp = (T *)S.at(0);
  DataType sd(TYPE_IDS[t], cnt, l.off * eb, l.str * eb, eb, conduit::Endianness::DEFAULT_ID);
  DataArray<T> sa(sp, sd);
  Node root; root["p/s"].set((i64)99);
  Node *np = &root["p/q"];
  std::vector<T> old;
  switch (prior) {
  case 0: break;
  case 1: make_leaf(E, *np, t, 4, OWNED, {0, 1}, 3); break;
  case 2: make_leaf(E, *np, t, 4, EXTERNAL, {1, 2}, 3); break;
  case 3: np->set(std::vector<i64>{1, 2, 3, 4, 5}); if (t == 3) np->set(std::vector<f64>{1, 2, 3}); break;
  case 4: (*np)["child"].set("x"); break;
  case 5: make_leaf(E, *np, t, 1, SCHEMA, {2, 3}, 5); break;
  case 6: np->set("a text that is long"); break;
  }
  if (prior == 1 || prior == 2) for (int i = 0; i < 4; i++) old.push_back(b[(3 + i) % b.size()]);
  if (prior == 5) old.push_back(b[5 % b.size()]);
  Node fresh; Node *tgt = np;
  Node &n = *np;
  switch (fam) {
  case 0: A::set1(n, v[0]); break;
  case 1: n.set(v[0]); break;
  case 2: n = v[0]; break;
  case 3: A::setv(n, sv); break;
  case 4: n.set(sv); break;
  case 5: n = sv; break;
  case 6: A::seta(n, sa); break;
  case 7: n.set(sa); break;
  case 8: n = sa; break;
  case 9: A::setp(n, sp, cnt, l.off * eb, l.str * eb); break;
  case 10: n.set((const T *)sp, cnt, l.off * eb, l.str * eb); break;
  case 11: with_il<T>(v, [&](const std::initializer_list<T> &x) { A::setil(n, x); }); break;
  case 12: with_il<T>(v, [&](const std::initializer_list<T> &x) { n.set(x); }); break;
  case 13: with_il<T>(v, [&](const std::initializer_list<T> &x) { n = x; }); break;
  case 14: n.set(sd, (void *)sp); break;
  case 15: n.set(Schema(sd), (void *)sp); break;
  case 16: { Node c(sd, (void *)sp, false); n.set(c); break; }
  case 17: n.reset(); n.set(DataType(TYPE_IDS[t], cnt, 0, eb, eb, conduit::Endianness::DEFAULT_ID)); for (int i = 0; i < cnt; i++) A::array(n)[i] = v[i]; break;
  case 18: A::xp(n, sp, cnt, l.off * eb, l.str * eb); break;
  case 19: n.set_external(sp, cnt, l.off * eb, l.str * eb); break;
  case 20: A::xa(n, sa); break;
  case 21: n.set_external(sa); break;
  case 22: A::xv(n, sv); break;
  case 23: n.set_external(sv); break;
  case 24: n.set_external(sd, (void *)sp); break;
  case 25: n.set_external(Schema(sd), (void *)sp); break;
  case 26: A::ps1(root, "p/q", v[0]); break;
  case 27: root.set_path("p/q", v[0]); break;
  case 28: A::psv(root, "p/q", sv); break;
  case 29: root.set_path("p/q", sv); break;
  case 30: A::psa(root, "p/q", sa); break;
  case 31: root.set_path("p/q", sa); break;
  case 32: A::psp(root, "p/q", sp, cnt, l.off * eb, l.str * eb); break;
  case 33: root.set_path("p/q", (const T *)sp, cnt, l.off * eb, l.str * eb); break;
  case 34: A::pxp(root, "p/q", sp, cnt, l.off * eb, l.str * eb); break;
  case 35: root.set_path_external("p/q", sp, cnt, l.off * eb, l.str * eb); break;
  case 36: A::pxa(root, "p/q", sa); break;
  case 37: root.set_path_external("p/q", sa); break;
  case 38: A::pxv(root, "p/q", sv); break;
  case 39: root.set_path_external("p/q", sv); break;
  case 40: root.set_path("p/q", sd, (void *)sp); break;
  case 41: root.set_path_external("p/q", sd, (void *)sp); break;
  }
  (void)path; (void)fresh;
  mc::transition();
  MC_CHECK(root.number_of_children() == 1 && root["p"].number_of_children() == 2 && root["p/s"].to_int64() == 99, "sibling", "the setter changed other nodes");
  tgt = &root["p/q"];
  std::vector<T> want = v;
  bool writes_in_place = !ext && fam != 14 && fam != 15 && fam != 16 && fam != 17 && fam != 40;
  if (writes_in_place && old.size() >= v.size()) { want = old; for (size_t i = 0; i < v.size(); i++) want[i] = v[i]; }
  MC_CHECK(S.b == before && S.guards_ok() && sv == v, "source-changed", "the setter changed its source");
  MC_CHECK(E.guards_ok(), "guard", "the setter wrote outside the elements of the node");
  read_all<T>(*tgt, want, false);
  if (ext) {
    const void *p = vec ? (void *)sv.data() : S.at(l.off * eb);
    MC_CHECK(tgt->element_ptr(0) == p, "external-address", "the external leaf does not address the caller's memory");
    MC_CHECK(tgt->is_data_external(), "is-external", "the external leaf says it owns its data");
  } else {
    const char *p = (const char *)tgt->element_ptr(0);
    MC_CHECK(p < (const char *)S.at(0) || p >= (const char *)S.at(0) + S.b.size(), "aliased", "a copying setter aliased its source");
    MC_CHECK(!vec || p != (const char *)sv.data(), "aliased", "a copying setter aliased its source vector");
  }
  // write through the array view: only that element changes
  for (int i = 0; i < (int)want.size(); i++) {
    want[i] = b[(salt + i + 4) % b.size()];
    A::array(*tgt)[i] = want[i];
    read_all<T>(*tgt, want, false);
    MC_CHECK(E.guards_ok() && S.guards_ok(), "guard", "writing element %d changed bytes outside it", i);
  }
  mc::outcome(FAM[fam]);
}
static void setters() {
  int t = mc::choose(NUM_TYPES), fam = mc::choose(NFAM), prior = mc::choose(7), cnt = 1 + mc::choose(3), lay = mc::choose(NLAYS), salt = mc::choose(9);
  mc::note("%s of %s[%d], source offset %d stride %d, target before: %d", FAM[fam], TYPE_NAMES[t], cnt, LAYS[lay].off, LAYS[lay].str, prior);
  with_type(t, [&](auto x) { setter<decltype(x)>(fam, prior, cnt, lay, salt); });
  mc::Hasher H; H.u64(t); H.u64(fam); H.u64(prior); H.u64(cnt); H.u64(lay); H.u64(salt); mc::observe(H.h);
}

// ---- c-native "gap" types that have no bitwidth type of their own
template <class G, class T> static void gap(const char *nm, int fam, int prior) {
  Env E; Node n;
  int t = type_no<T>();
  if (prior == 1) make_leaf(E, n, t, 4, OWNED, {0, 1}, 3);
  if (prior == 2) make_leaf(E, n, t, 4, EXTERNAL, {1, 2}, 3);
  if (prior == 3) n["x"].set("y");
  auto b = bounds<T>();
  std::vector<T> old; if (prior == 1 || prior == 2) for (int i = 0; i < 4; i++) old.push_back(b[(3 + i) % b.size()]);
  std::vector<G> g = {(G)b[2], (G)b[1], (G)b[0]};
  std::vector<T> v;
  bool ext = false;
  G s[7] = {g[0], 0, g[1], 0, g[2], 0, 0};
  switch (fam) {
  case 0: n.set(g[0]); v = {(T)g[0]}; break;
  case 1: n = g[0]; v = {(T)g[0]}; break;
  case 2: n.set(g); for (G x : g) v.push_back((T)x); break;
  case 3: n = g; for (G x : g) v.push_back((T)x); break;
  case 4: if constexpr (!std::is_same<G, char>::value) n.set(s, 3, 0, 2 * sizeof(G)); else throw mc::Abandon(); for (G x : g) v.push_back((T)x); break;
  case 5: if constexpr (!std::is_same<G, char>::value) n.set_external(s, 3, 0, 2 * sizeof(G)); else throw mc::Abandon(); for (G x : g) v.push_back((T)x); ext = true; break;
  case 6: n.set_external(g); for (G x : g) v.push_back((T)x); ext = true; break;
  case 7: { Node r; r.set_path("q", g[0]); n.set(r["q"]); v = {(T)g[0]}; old.clear(); break; }
  case 8: { Node r; r.set_path("q", g); n.set(r["q"]); for (G x : g) v.push_back((T)x); old.clear(); break; }
  case 9: { Node r; if constexpr (!std::is_same<G, char>::value) r.set_path("q", s, 3, 0, 2 * sizeof(G)); else throw mc::Abandon(); n.set(r["q"]); for (G x : g) v.push_back((T)x); old.clear(); break; }
  case 10: { Node r; if constexpr (!std::is_same<G, char>::value) r.set_path_external("q", s, 3, 0, 2 * sizeof(G)); else throw mc::Abandon(); n.set(r["q"]); for (G x : g) v.push_back((T)x); old.clear(); break; }
  case 11: { n.set(std::initializer_list<G>{g[0], g[1]}); v = {(T)g[0], (T)g[1]}; break; }
  }
  mc::transition();
  if (!ext && old.size() >= v.size()) { for (size_t i = v.size(); i < old.size(); i++) v.push_back(old[i]); }
  mc::note("%s family %d prior %d", nm, fam, prior);
  read_all<T>(n, v, false);
  MC_CHECK(E.guards_ok(), "guard", "the setter wrote outside the elements of the node");
  if (ext) MC_CHECK(n.element_ptr(0) == (fam == 5 ? (void *)s : (void *)g.data()), "external-address", "external %s data is not the caller's", nm);
  mc::outcome(nm);
}
static void gaps() {
  int g = mc::choose(13), fam = mc::choose(12), prior = mc::choose(4);
  mc::Hasher H; H.u64(g); H.u64(fam); H.u64(prior); mc::observe(H.h);
  switch (g) {
  case 0: gap<char, i8>("char", fam, prior); break;
  case 1: gap<signed char, i8>("signed char", fam, prior); break;
  case 2: gap<unsigned char, u8>("unsigned char", fam, prior); break;
  case 3: gap<short, i16>("short", fam, prior); break;
  case 4: gap<unsigned short, u16>("unsigned short", fam, prior); break;
  case 5: gap<int, i32>("int", fam, prior); break;
  case 6: gap<unsigned int, u32>("unsigned int", fam, prior); break;
  case 7: gap<long, i64>("long", fam, prior); break;
  case 8: gap<unsigned long, u64>("unsigned long", fam, prior); break;
  case 9: gap<long long, i64>("long long", fam, prior); break;
  case 10: gap<unsigned long long, u64>("unsigned long long", fam, prior); break;
  case 11: gap<float, f32>("float", fam, prior); break;
  case 12: gap<double, f64>("double", fam, prior); break;
  }
}

// ---- strings
static void strings() {
  static const char *SV[] = {"", "a", "12", "-7", "3.5", "text with spaces", "0", "255", "-128", "1e3"};
  Env E; Node n;
  int s = mc::choose(10), fam = mc::choose(9), prior = mc::choose(4);
  std::string v = SV[s];
  if (prior == 1) n.set("a long old text indeed");
  if (prior == 2) n.set((i64)5);
  if (prior == 3) n["x"].set(1.5);
  char ext[64]; snprintf(ext, sizeof ext, "%s", v.c_str());
  switch (fam) {
  case 0: n.set(v); break;
  case 1: n.set(v.c_str()); break;
  case 2: n = v; break;
  case 3: n = v.c_str(); break;
  case 4: n.set_string(v); break;
  case 5: n.set_char8_str(v.c_str()); break;
  case 6: n.set_external_char8_str(ext); break;
  case 7: { Node r; r.set_path("a/b", v); n.set(r["a/b"]); break; }
  case 8: { Node r; r.set_path("a/b", v.c_str()); n.set(r["a/b"]); break; }
  }
  mc::transition();
  mc::note("string '%s' family %d prior %d", v.c_str(), fam, prior);
  const Node &c = n;
  MC_CHECK(n.dtype().is_string(), "string-type", "the leaf is a %s", n.dtype().name().c_str());
  MC_CHECK(c.as_string() == v && std::string(c.as_char8_str()) == v && std::string(n.as_char8_str()) == v, "string", "the string '%s' is read back as '%s'", v.c_str(), c.as_string().c_str());
  if (fam == 6) { MC_CHECK(n.data_ptr() == ext, "string-external", "the external string is not the caller's"); ext[0] = 'Q'; MC_CHECK(v.empty() || c.as_string()[0] == 'Q', "string-external", "the external string was copied"); snprintf(ext, sizeof ext, "%s", v.c_str()); }
  if (s == 2 || s == 3 || s == 6 || s == 7 || s == 8) {
    long x = atol(v.c_str());
    MC_CHECK(c.to_int64() == x && c.to_int32() == x && c.to_int16() == x && c.to_float64() == x && c.to_float32() == x && c.to_long() == x && c.to_int() == x && c.to_short() == x && c.to_long_long() == x && c.to_double() == x && c.to_float() == x, "string-to-number", "a numeric string is converted to another number: '%s' %ld", v.c_str(), (long)c.to_int64());
    if (x >= -128 && x <= 127) MC_CHECK(c.to_int8() == x, "string-to-int8", "'%s' converts to int8 %d", v.c_str(), (int)c.to_int8());
    if (x >= 0) MC_CHECK(c.to_uint8() == x && c.to_uint16() == x && c.to_uint32() == x && c.to_uint64() == (u64)x, "string-to-unsigned", "'%s' converts to uint8 %u uint16 %u", v.c_str(), c.to_uint8(), c.to_uint16());
  }
  if (s == 4 || s == 9) MC_CHECK(c.to_float64() == atof(v.c_str()) && c.to_float32() == (float)atof(v.c_str()) && c.to_double() == atof(v.c_str()), "string-to-float", "'%s' converts to %g", v.c_str(), c.to_float64());
  long w = g_warn;
  MC_CHECK(c.as_int64() == 0 && g_warn > w, "string-wrong-type", "reading a string as int64 is not reported");
  mc::Hasher H; H.u64(s); H.u64(fam); H.u64(prior); mc::observe(H.h);
  mc::outcome("string");
}

int main(int argc, char **argv) {
  cn::init();
  conduit::utils::set_warning_handler(warn);
  mc::Opt o; o.shard_depth = 2; o.leaks = true;
  return mc::main_(argc, argv, "C04",
    {{"readers", readers, o, "every leaf type, length 0-3, owned/external/schema-bound, 5 layouts, 9 rotations of the boundary values, through every reader and every conversion"},
     {"setters", setters, o, "every leaf type, 42 setter families, 7 states of the target, length 1-3, 5 source layouts"},
     {"native", gaps, o, "the 13 C types, 12 setter families, 4 states of the target"},
     {"strings", strings, o, "10 strings, 9 setter families, 4 states of the target"}},
    {"conversions of floating point values that the language leaves undefined (out of range) are not judged",
     "a setter writes in place when the leaf already has the type and at least the length, as the library documents"});
}
