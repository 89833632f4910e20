// C13: string, path, escape, base64, formatting and copy utilities.
#include "plain.hpp"
#include "scratch.hpp"
#include <sys/socket.h>
#include <sys/un.h>
using namespace gen;
namespace U = conduit::utils;
static std::string q(const std::string &s) { std::string o; for (unsigned char c : s) if (c < 32 || c > 126) o += mc::fmt("\\x%02x", c); else o += (char)c; return o; }
static std::string word(const char *alpha, int na, int len) { std::string s; int n = mc::choose(len + 1); for (int i = 0; i < n; i++) s += alpha[mc::choose(na)]; return s; }
// ---------------------------------------------------------------- splitting and joining
static void split() {
  static const char *SEP[] = {"/", ":", "::", "ab", "/:"}; std::string sep = SEP[mc::choose(5)], s = word("ab/:", 4, mc::thorough() ? 7 : 6), c = "old", n = "old";
  size_t f = s.find(sep), r = s.rfind(sep); bool has = f != std::string::npos;
  U::split_string(s, sep, c, n);
  MC_CHECK(c == (has ? s.substr(0, f) : s) && n == (has ? s.substr(f + sep.size()) : ""), "split", "split_string('%s','%s') gives '%s' and '%s'", s.c_str(), sep.c_str(), c.c_str(), n.c_str());
  c = n = "old"; U::rsplit_string(s, sep, c, n);
  MC_CHECK(n == (has ? s.substr(0, r) : "") && c == (has ? s.substr(r + sep.size()) : s), "rsplit", "rsplit_string('%s','%s') gives '%s' and '%s'", s.c_str(), sep.c_str(), c.c_str(), n.c_str());
  if (sep.size() == 1) {
    std::vector<std::string> v = {"kept"}, w = {"kept"}; U::split_string(s, sep[0], v);
    std::string cur; for (char ch : s + sep) if (ch == sep[0]) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += ch;
    MC_CHECK(v == w, "split-all", "split_string('%s','%s') gives %zu parts, should give %zu", s.c_str(), sep.c_str(), v.size() - 1, w.size() - 1);
    c = n = "old"; U::split_file_path(s, sep, c, n); MC_CHECK(c == (has ? s.substr(0, f) : s) && n == (has ? s.substr(f + 1) : ""), "split-file", "split_file_path('%s','%s') gives '%s' and '%s'", s.c_str(), sep.c_str(), c.c_str(), n.c_str());
    c = n = "old"; U::rsplit_file_path(s, sep, c, n); MC_CHECK(n == (has ? s.substr(0, r) : "") && c == (has ? s.substr(r + 1) : s), "rsplit-file", "rsplit_file_path('%s','%s') gives '%s' and '%s'", s.c_str(), sep.c_str(), c.c_str(), n.c_str());
  }
  if (sep == "/") {
    c = n = "old"; U::split_path(s, c, n); MC_CHECK(c == (has ? s.substr(0, f) : s) && n == (has ? s.substr(f + 1) : ""), "split-path", "split_path('%s') gives '%s' and '%s'", s.c_str(), c.c_str(), n.c_str());
    if (has && !c.empty() && !n.empty()) MC_CHECK(U::join_path(c, n) == s, "join-split", "joining the parts of '%s' gives '%s'", s.c_str(), U::join_path(c, n).c_str());
    c = n = "old"; U::rsplit_path(s, c, n); MC_CHECK(n == (has ? s.substr(0, r) : "") && c == (has ? s.substr(r + 1) : s), "rsplit-path", "rsplit_path('%s') gives '%s' and '%s'", s.c_str(), c.c_str(), n.c_str());
    c = n = "old"; U::split_file_path(s, c, n); MC_CHECK(c == (has ? s.substr(0, f) : s) && n == (has ? s.substr(f + 1) : ""), "split-file-path", "split_file_path('%s') gives '%s' and '%s'", s.c_str(), c.c_str(), n.c_str());
    c = n = "old"; U::rsplit_file_path(s, c, n); MC_CHECK(n == (has ? s.substr(0, r) : "") && c == (has ? s.substr(r + 1) : s), "rsplit-file-path", "rsplit_file_path('%s') gives '%s' and '%s'", s.c_str(), c.c_str(), n.c_str());
  }
  if (sep == ":") { // a drive letter stays with the file
    std::string w = "C:\\" + s; c = n = "old"; U::split_file_path(w, ":", c, n); MC_CHECK(c == "C:\\" + (has ? s.substr(0, f) : s) && n == (has ? s.substr(f + 1) : ""), "split-drive", "split_file_path('%s') gives '%s' and '%s'", w.c_str(), c.c_str(), n.c_str());
    c = n = "old"; U::rsplit_file_path(w, ":", c, n); MC_CHECK(n == (has ? "C:\\" + s.substr(0, r) : "") && c == (has ? s.substr(r + 1) : w), "rsplit-drive", "rsplit_file_path('%s') gives '%s' and '%s'", w.c_str(), c.c_str(), n.c_str());
  }
  mc::observe(mc::hash_str(s + "|" + sep));
}
static void join() {
  std::string a = word("a/.", 3, 4), b = word("a/.", 3, 4);
  std::string w = a + (!a.empty() && a.back() != '/' && !b.empty() ? "/" : "") + b, x = a + (!a.empty() && a.back() != '/' ? "/" : "") + b;
  MC_CHECK(U::join_path(a, b) == w, "join", "join_path('%s','%s') is '%s'", a.c_str(), b.c_str(), U::join_path(a, b).c_str());
  MC_CHECK(U::join_file_path(a, b) == x, "join-file", "join_file_path('%s','%s') is '%s'", a.c_str(), b.c_str(), U::join_file_path(a, b).c_str());
  // nodes agree: fetching the joined path is fetching one after the other
  if (!a.empty() && !b.empty() && a.find("//") == std::string::npos && b.find("//") == std::string::npos && a[0] != '/' && b[0] != '/' && (a + b).find('.') == std::string::npos) {
    Node n; n[U::join_path(a, b)] = 5; if (a.back() != '/') MC_CHECK(n.has_path(a) && n[a].has_path(b), "join-fetch", "joined path '%s'/'%s' is another node", a.c_str(), b.c_str());
  }
  mc::observe(mc::hash_str(a + "|" + b));
}
static void trim() {
  std::string s = word("a \t\n\v\f\rb", 8, mc::thorough() ? 5 : 4), o = s; size_t i = 0, j = s.size();
  auto ws = [](char c) { return strchr(" \t\n\r\f\v", c) != nullptr; };
  while (i < j && ws(s[i])) i++; while (j > i && ws(s[j - 1])) j--;
  U::trim_string(o); MC_CHECK(o == s.substr(i, j - i), "trim", "trim_string('%s') gives '%s'", q(s).c_str(), q(o).c_str());
  o = s; i = 0; j = s.size(); while (i < j && (s[i] == 'a' || s[i] == 'b')) i++; while (j > i && (s[j - 1] == 'a' || s[j - 1] == 'b')) j--;
  U::trim_string(o, "ab"); MC_CHECK(o == s.substr(i, j - i), "trim-chars", "trim_string('%s','ab') gives '%s'", q(s).c_str(), q(o).c_str());
  mc::observe(mc::hash_str(s));
}
// ---------------------------------------------------------------- escaping
static void esc(const std::string &s) {
  mc::note("'%s'", q(s).c_str());
  std::string e = U::escape_special_chars(s), u = U::unescape_special_chars(e);
  MC_CHECK(u == s, "unescape", "'%s' escaped is '%s', unescaped '%s'", q(s).c_str(), q(e).c_str(), q(u).c_str());
  for (size_t i = 0; i < e.size(); i++) { MC_CHECK((unsigned char)e[i] >= 32, "raw", "'%s' escaped has a raw control character: '%s'", q(s).c_str(), q(e).c_str()); if (e[i] == '\\') i++; else MC_CHECK(e[i] != '"', "quote", "'%s' escaped has a bare quote: '%s'", q(s).c_str(), q(e).c_str()); }
  mc::observe(mc::hash_str(s));
}
static void escape() {
  int k = mc::choose(3);
  if (k == 0) { std::string s(1, (char)mc::choose(256)); static const char *P[] = {"", "a", "\\", "\\u", "\\u00", "\\u0", "u001f"}; int a = mc::choose(7), b = mc::choose(7); esc(P[a] + s + P[b]); }
  else if (k == 1) { std::string s; s += (char)mc::choose(256); s += (char)mc::choose(256); esc(s); }
  else esc(word("\"\\/ntbfru01f\n\t\x01\x7f", 16, mc::thorough() ? 5 : 4));
}
static void unescape() { // documented escapes; everything else is left as it is
  std::string s = word("\\\"/nu01fz", 9, mc::thorough() ? 8 : 6), w; 
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\' || i + 1 == s.size()) { w += s[i]; continue; }
    char c = s[i + 1]; const char *from = "\"\\/ntbfr", *to = "\"\\/\n\t\b\f\r", *p = strchr(from, c);
    if (p) { w += to[p - from]; i++; continue; }
    if (c == 'u' && i + 5 < s.size() && s[i + 2] == '0' && s[i + 3] == '0' && (s[i + 4] == '0' || s[i + 4] == '1') && isxdigit((unsigned char)s[i + 5])) { w += (char)strtol(s.substr(i + 4, 2).c_str(), 0, 16); i += 5; continue; }
    w += '\\';
  }
  std::string u = U::unescape_special_chars(s); MC_CHECK(u == w, "unescape-form", "unescape('%s') is '%s', should be '%s'", s.c_str(), q(u).c_str(), q(w).c_str());
  mc::observe(mc::hash_str(s));
}
// ---------------------------------------------------------------- base64
static void b64(const std::string &s) {
  static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string w;
  for (size_t i = 0; i < s.size(); i += 3) { unsigned v = 0; int n = (int)std::min<size_t>(3, s.size() - i); for (int k = 0; k < 3; k++) v = v << 8 | (k < n ? (unsigned char)s[i + k] : 0); w += A[v >> 18 & 63]; w += A[v >> 12 & 63]; w += n > 1 ? A[v >> 6 & 63] : '='; w += n > 2 ? A[v & 63] : '='; }
  index_t eb = U::base64_encode_buffer_size((index_t)s.size()); std::unique_ptr<char[]> src(new char[s.size()]), e(new char[(size_t)eb]); memcpy(src.get(), s.data(), s.size()); memset(e.get(), 0x55, (size_t)eb);
  U::base64_encode(src.get(), (index_t)s.size(), e.get());
  MC_CHECK(memchr(e.get(), 0, (size_t)eb) != nullptr, "terminated", "the encoding of %zu bytes is not terminated", s.size());
  std::string got = e.get(); MC_CHECK(got == w, "encode", "%zu bytes '%s' encode to '%s', should be '%s'", s.size(), q(s.substr(0, 20)).c_str(), got.c_str(), w.c_str());
  for (int z = 0; z < 2; z++) { // with and without counting the terminator
    index_t n = (index_t)got.size() + z, db = U::base64_decode_buffer_size(n); std::unique_ptr<char[]> t(new char[(size_t)n]), d(new char[(size_t)db]); memcpy(t.get(), e.get(), (size_t)n); memset(d.get(), 0x33, (size_t)db);
    U::base64_decode(t.get(), n, d.get());
    MC_CHECK((size_t)db >= s.size() && std::string(d.get(), s.size()) == s, "decode", "%zu bytes '%s' decode from '%s' as something else", s.size(), q(s.substr(0, 20)).c_str(), got.c_str());
  }
  mc::observe(mc::hash_str(s));
}
static void base64() {
  int k = mc::choose(4); std::string s;
  if (k == 0) { int n = mc::choose(3); for (int i = 0; i < n; i++) s += (char)mc::choose(256); }
  else if (k == 1) { static const unsigned char V[] = {0, 1, 3, 15, 16, 63, 64, 127, 128, 191, 192, 252, 255}; int n = mc::choose(5); for (int i = 0; i < n; i++) s += (char)V[mc::choose(n < 4 ? 13 : 7)]; }
  else if (k == 2) { int n = mc::choose(600), sd = mc::choose(3); for (int i = 0; i < n; i++) s += (char)(sd == 0 ? i : sd == 1 ? 255 : i * 151 + 7); }
  else { int n = 3 + mc::choose(6), at = mc::choose(n); s.assign(n, mc::flip() ? '\xff' : '\0'); s[at] = (char)mc::choose(256); }
  b64(s);
}
// ---------------------------------------------------------------- numbers and formatting
static void floats() {
  int e = mc::choose(2048), m = mc::choose(mc::thorough() ? 24 : 12); bool neg = mc::flip(); conduit::uint64 man;
  switch (m) { case 0: man = 0; break; case 1: man = 1; break; case 2: man = (1ULL << 52) - 1; break; case 3: man = 1ULL << 51; break; case 4: man = 0x5555555555555ULL; break; case 5: man = 0xAAAAAAAAAAAAAULL; break; case 6: man = 2; break; case 7: man = 0x999999999999AULL; break; case 8: man = 1ULL << 26; break; case 9: man = 0x3333333333333ULL; break; case 10: man = 0xF000000000000ULL; break; case 11: man = 12345678901ULL; break; default: man = (0x9E3779B97F4A7C15ULL * m) >> 12; }
  conduit::uint64 b = (conduit::uint64)neg << 63 | (conduit::uint64)e << 52 | man; double v; memcpy(&v, &b, 8);
  std::string s = U::float64_to_string(v); double r = strtod(s.c_str(), 0);
  MC_CHECK(v != v ? r != r : r == v && std::signbit(r) == std::signbit(v), "float", "%.17g is written '%s'", v, s.c_str());
  if (std::isfinite(v)) MC_CHECK(s.find_first_of(".e") != std::string::npos, "float-form", "%.17g is written '%s', which reads as an integer", v, s.c_str());
  mc::observe(b);
}
static void format() {
  int t = mc::choose(11), i = mc::choose(4), lay = mc::choose(NLAYS), idx = mc::choose(6) - 1, cnt = 1 + mc::choose(4); bool obj = mc::flip(); (void)i;
  Env E; Node maps, args; Node &x = obj ? maps["v"] : maps.append(); std::vector<std::string> want;
  static const char *S[] = {"zero", "", "t{w}o", "3"};
  if (t == 10) for (int k = 0; k < cnt; k++) x.append().set(S[k]); else make_leaf(E, x, t, cnt, EXTERNAL, LAYS[lay], i);
  if (t == 10 && (lay || i)) return;
  if (obj) { maps["w"].set(std::vector<conduit::int64>{10, 11, 12, 13, 14, 15}); } else maps.append().set(std::vector<conduit::int64>{10, 11, 12, 13, 14, 15});
  std::string pat = obj ? "<{v}|{w:04d}>" : "<{}|{:04d}>"; std::string val;
  auto text = [&](int k) { if (t == 10) return std::string(S[k]); std::string o; with_type(t, [&](auto z) { typedef decltype(z) T; T v; memcpy(&v, (const char *)x.data_ptr() + x.dtype().offset() + x.dtype().stride() * k, sizeof v); Node one; one["v"].set(v); o = U::format("{v}", one); }); return o; };
  bool in = idx >= 0 && idx < cnt; std::string got;
  bool rep = cn::throws([&] { got = U::format(pat, maps, idx); });
  MC_CHECK(rep == !in, "format-bounds", "index %d of %d: %s", idx, cnt, rep ? "reported" : "not reported");
  if (in) { std::string w = "<" + text(idx) + mc::fmt("|%04d>", 10 + idx); MC_CHECK(got == w, "format-map", "format with maps at %d gives '%s', should be '%s'", idx, got.c_str(), w.c_str()); }
  // direct arguments: the first element, written so that it reads back as the same value
  if (t < 10) {
    Node a; if (obj) a["v"].set_external(x); else a.append().set_external(x);
    std::string s = U::format(obj ? "{v}" : "{}", a);
    with_type(t, [&](auto z) { typedef decltype(z) T; T v; memcpy(&v, (const char *)x.data_ptr() + x.dtype().offset(), sizeof v); T r = std::is_floating_point<T>::value ? (sizeof(T) == 4 ? (T)strtof(s.c_str(), 0) : (T)strtod(s.c_str(), 0)) : std::is_signed<T>::value ? (T)strtoll(s.c_str(), 0, 10) : (T)strtoull(s.c_str(), 0, 10);
      MC_CHECK(r == v, "format-value", "a %s is formatted as '%s'", TYPE_NAMES[t], s.c_str()); });
  }
  MC_CHECK(cn::throws([&] { Node n; n.set(1); U::format("{}", n); }) && cn::throws([&] { Node n; n["a"] = 1; U::format("{b}", n); }) && cn::throws([&] { Node n; n["a"]["c"] = 1; U::format("{a}", n); }) && cn::throws([&] { Node n; n.append() = 1; U::format("{} {}", n); }) && cn::throws([&] { Node n; n.append() = 1; U::format("{", n); }), "format-errors", "a bad format is not reported");
  mc::observe(mc::hash_str(got + pat) + (uint64_t)t);
}
static void fits() { // value_fits over all pairs of types
  int s = mc::choose(10), d = mc::choose(10);
  with_type(s, [&](auto a) { typedef decltype(a) S; auto vs = bounds<S>(); for (auto b : {S(127), S(128), S(255), S(0)}) vs.push_back(b); S v = vs[mc::choose((int)vs.size())];
    with_type(d, [&](auto c) { typedef decltype(c) D; typedef std::numeric_limits<D> L;
      long double x = (long double)v; if (std::is_floating_point<S>::value && (x < -9.2e18L || x > 1.8e19L || std::is_integral<D>::value && (x < (long double)L::lowest() || x > (long double)L::max()))) return; // not representable: the cast has no value
      if (std::is_floating_point<S>::value && std::is_floating_point<D>::value && fabsl(x) > (long double)L::max()) return;
      bool want = x >= (long double)L::lowest() && x <= (long double)L::max() && (long double)(D)v == x;
      if (std::is_integral<S>::value && std::is_floating_point<D>::value && want != ((S)(D)v == v) ) return; // rounding at the very top of 64 bits
      bool got = U::value_fits<S, D>(v); MC_CHECK(got == want, "fits", "%s value %Lg fits %s: %d", TYPE_NAMES[s], x, TYPE_NAMES[d], (int)got); mc::observe(mc::hash_str(mc::fmt("%d%d%Lg", s, d, x))); }); });
}
static void factors() {
  index_t n = 1 + mc::choose(mc::thorough() ? 60000 : 5000); auto f = U::factor(n); index_t p = 1;
  for (auto x : f) { p *= x; if (x > 1) for (index_t k = 2; k * k <= x; k++) MC_CHECK(x % k, "prime", "factor %ld of %ld is not prime", (long)x, (long)n); }
  MC_CHECK(p == n, "product", "the factors of %ld multiply to %ld", (long)n, (long)p); mc::observe((uint64_t)n);
}
// ---------------------------------------------------------------- memory
static void strided() {
  int n = mc::choose(5), eb = 1 << mc::choose(4), ss = eb * (1 + mc::choose(3)) + mc::choose(2), ds = eb * (1 + mc::choose(3)) + mc::choose(2);
  std::string src((size_t)(n ? (n - 1) * ss + eb : 0), '\0'), dst((size_t)(n ? (n - 1) * ds + eb : 0), '\x77'); for (size_t i = 0; i < src.size(); i++) src[i] = (char)(i * 31 + 5); std::string w = dst, s0 = src;
  for (int i = 0; i < n; i++) memcpy(&w[(size_t)i * ds], &src[(size_t)i * ss], (size_t)eb);
  std::unique_ptr<char[]> a(new char[src.size()]), b(new char[dst.size()]); memcpy(a.get(), src.data(), src.size()); memcpy(b.get(), dst.data(), dst.size());
  U::conduit_memcpy_strided_elements(b.get(), (size_t)n, (size_t)eb, (size_t)ds, a.get(), (size_t)ss);
  MC_CHECK(std::string(b.get(), dst.size()) == w && std::string(a.get(), src.size()) == s0, "strided", "%d elements of %d bytes, strides %d to %d: wrong bytes", n, eb, ss, ds);
  mc::observe(mc::hash_str(w));
}
static void hashes() {
  std::string s = word("ab\xff\x01", 4, 5) + std::string((size_t)mc::choose(14), 'x'); unsigned iv = mc::choose(2) ? 77 : 0; unsigned h = U::hash(s, iv);
  for (int off = 0; off < 9; off++) { std::unique_ptr<char[]> b(new char[s.size() + off]); memcpy(b.get() + off, s.data(), s.size()); MC_CHECK(U::hash(b.get() + off, (unsigned)s.size(), iv) == h, "hash", "the hash depends on where the string lies"); }
  if (!iv) MC_CHECK(U::hash(s.c_str()) == h, "hash-cstr", "the hash of a C string differs"); mc::observe(h);
}
// ---------------------------------------------------------------- files
static void files() {
  std::string d = scratch::file("fs"); mkdir(d.c_str(), 0700); int mask = mc::choose(64), kind = mc::choose(9); std::set<std::string> want, wantdot;
  static const char *N[] = {"f", ".h", "sub", "a b", "e\xc3\xa9", "z.json"};
  for (int i = 0; i < 6; i++) if (mask >> i & 1) { std::string p = d + "/" + N[i]; if (i == 2) mkdir(p.c_str(), 0700); else scratch::spit(p, std::string((size_t)i * 3, 'x')); wantdot.insert(p); if (N[i][0] != '.') want.insert(p); }
  wantdot.insert(d + "/."); wantdot.insert(d + "/..");
  for (int slash = 0; slash < 2; slash++) { std::vector<std::string> c = {"old"}; bool r = U::list_directory_contents(d + (slash ? "/" : ""), c, true); MC_CHECK(std::set<std::string>(c.begin(), c.end()) == want && c.size() == want.size() && r == !want.empty(), "list", "list_directory_contents gives %zu entries, there are %zu", c.size(), want.size());
    U::list_directory_contents(d + (slash ? "/" : ""), c, false); MC_CHECK(std::set<std::string>(c.begin(), c.end()) == wantdot && c.size() == wantdot.size(), "list-dot", "list_directory_contents with dot files gives %zu entries, there are %zu", c.size(), wantdot.size()); }
  for (int i = 0; i < 6; i++) { std::string p = d + "/" + N[i]; bool here = mask >> i & 1; MC_CHECK(U::is_file(p) == (here && i != 2) && U::is_directory(p) == (here && i == 2), "is", "is_file / is_directory of %s is wrong", N[i]); if (here && i != 2) MC_CHECK(U::file_size(p) == i * 3, "size", "file_size is %ld", (long)U::file_size(p)); }
  std::string p = d + "/target"; bool f = false, dir = false, there = true;
  switch (kind) { case 0: there = false; break; case 1: scratch::spit(p, "abc"); f = true; break; case 2: mkdir(p.c_str(), 0700); dir = true; break; case 3: mkfifo(p.c_str(), 0600); break;
  case 4: { int s = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; if (p.size() < sizeof a.sun_path) { strcpy(a.sun_path, p.c_str()); if (bind(s, (struct sockaddr *)&a, sizeof a)) there = false; } close(s); break; }
  case 5: scratch::spit(d + "/tf", "q"); symlink("tf", p.c_str()); f = true; break; case 6: mkdir((d + "/td").c_str(), 0700); symlink("td", p.c_str()); dir = true; break; case 7: symlink("nowhere", p.c_str()); break; case 8: MC_CHECK(U::create_directory(p), "mkdir", "create_directory fails"); MC_CHECK(!U::create_directory(p), "mkdir-again", "creating an existing directory reports success"); dir = true; break; }
  MC_CHECK(U::is_file(p) == f && U::is_directory(p) == dir, "is-kind", "is_file %d is_directory %d for kind %d", (int)U::is_file(p), (int)U::is_directory(p), kind);
  if (kind != 6) { bool r = U::remove_path_if_exists(p); MC_CHECK(r == (f || dir), "remove", "remove_path_if_exists returns %d for kind %d", (int)r, kind); MC_CHECK(scratch::exists(p) == (there && !f && !dir), "removed", "remove_path_if_exists of kind %d: %s", kind, scratch::exists(p) ? "still there" : "gone"); if (kind == 5) MC_CHECK(scratch::exists(d + "/tf"), "link-target", "removing a link removed its target"); }
  for (auto &w : wantdot) if (mask) MC_CHECK(scratch::exists(w), "others", "another entry disappeared");
  nftw(d.c_str(), scratch::Dir::rm, 16, FTW_DEPTH | FTW_PHYS); mc::observe((uint64_t)mask * 16 + kind);
}
int main(int argc, char **argv) {
  cn::init(); scratch::Dir dir("c13"); scratch::cur() = &dir;
  mc::Opt o; o.shard_depth = 2; o.leaks = true;
  return mc::main_(argc, argv, "C13",
    {{"split", split, o, "all strings up to length 6 (7) over 4 characters x 5 separators; all splitters, drive letters"},
     {"join", join, o, "all pairs of strings up to length 4 over 3 characters"},
     {"trim", trim, o, "all strings up to length 4 (5) over letters and every white space character"},
     {"escape", escape, o, "all single bytes between 49 contexts, all byte pairs, all strings up to length 4 (5) over 16 special characters"},
     {"unescape", unescape, o, "all strings up to length 6 (8) over 9 characters of the escape syntax"},
     {"base64", base64, o, "all byte strings up to length 2, boundary bytes up to length 4, every length up to 599, every byte value in every position"},
     {"floats", floats, o, "every exponent of a double x 12 (24) mantissas x sign"},
     {"format", format, o, "10 types and strings, layouts, positions in and out of bounds, named and positional"},
     {"fits", fits, o, "all pairs of 10 types over boundary values"},
     {"factors", factors, o, "all numbers up to 5000 (60000)"},
     {"strided", strided, o, "0-4 elements of 1 to 8 bytes, 6 strides on each side"},
     {"hashes", hashes, o, "strings of length 0-18 at 9 alignments"},
     {"files", files, o, "all subsets of 6 directory entries x 9 kinds of path"}},
    {"values a floating point cast has no result for are not given to value_fits"});
}
