// generators of leaves and trees shared by the harnesses
#pragma once
#include "cnode.hpp"
#include <cfloat>
#include <climits>
#include <cmath>
#include <limits>

namespace gen {
using namespace cn;
typedef conduit::int8 i8; typedef conduit::int16 i16; typedef conduit::int32 i32; typedef conduit::int64 i64;
typedef conduit::uint8 u8; typedef conduit::uint16 u16; typedef conduit::uint32 u32; typedef conduit::uint64 u64;
typedef conduit::float32 f32; typedef conduit::float64 f64;

static const int NUM_TYPES = 10;
static const index_t TYPE_IDS[NUM_TYPES] = {DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID,
                                            DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID,
                                            DataType::FLOAT32_ID, DataType::FLOAT64_ID};
static const int TYPE_BYTES[NUM_TYPES] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8};
static const char *const TYPE_NAMES[NUM_TYPES] = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"};
// calls f with a value of type number t
template <class F> inline void with_type(int t, F f) {
  switch (t) {
  case 0: f(i8()); break; case 1: f(i16()); break; case 2: f(i32()); break; case 3: f(i64()); break;
  case 4: f(u8()); break; case 5: f(u16()); break; case 6: f(u32()); break; case 7: f(u64()); break;
  case 8: f(f32()); break; case 9: f(f64()); break;
  }
}
// boundary values of each type
template <class T> inline std::vector<T> bounds() {
  typedef std::numeric_limits<T> L;
  if (std::is_floating_point<T>::value) return {T(0), T(1.5), T(-2.25), T(0.1), L::max(), L::lowest(), L::min(), T(1e-3), T(16777217.0)};
  if (std::is_signed<T>::value) return {T(0), T(-1), L::max(), L::min(), T(7), T(-100), T(L::max() - 1)};
  return {T(0), T(1), L::max(), T(7), T(L::max() - 1), T(100)};
}
// bytes of element i of a deterministic sequence of type t
inline void put_val(int t, void *p, int i) {
  with_type(t, [&](auto x) { typedef decltype(x) T; auto b = bounds<T>(); T v = b[(size_t)i % b.size()]; memcpy(p, &v, sizeof v); });
}
template <class T> inline int type_no() {
  if (std::is_floating_point<T>::value) return sizeof(T) == 4 ? 8 : 9;
  int k = sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3;
  return std::is_signed<T>::value ? k : k + 4;
}

// caller memory with guard bytes in every byte no element occupies
struct Buf {
  std::vector<unsigned char> b; std::vector<bool> used;
  size_t base = 0;
  Buf(size_t n) : b(n, 0xA5), used(n, false) {}
  void *at(size_t o) { return b.data() + o; }
  bool guards_ok() const { for (size_t i = 0; i < b.size(); i++) if (!used[i] && b[i] != 0xA5) return false; return true; }
};
struct Lay { int off, str; }; // in elements
static const Lay LAYS[] = {{0, 1}, {1, 1}, {0, 2}, {1, 2}, {2, 3}};
static const int NLAYS = 5;

// memory of the external leaves of one execution
struct Env {
  std::vector<std::unique_ptr<Buf>> bufs;
  Buf &buf(size_t n) { bufs.emplace_back(new Buf(n)); return *bufs.back(); }
  bool guards_ok() const { for (auto &b : bufs) if (!b->guards_ok()) return false; return true; }
};
// how the elements of a leaf are stored
enum How { OWNED, EXTERNAL, SCHEMA };
inline void make_leaf(Env &E, Node &n, int t, int cnt, How how, Lay l, int salt) {
  int eb = TYPE_BYTES[t];
  DataType d(TYPE_IDS[t], cnt, l.off * eb, l.str * eb, eb, conduit::Endianness::DEFAULT_ID);
  size_t span = (size_t)(l.off + (cnt ? (cnt - 1) * l.str + 1 : 0)) * eb;
  if (how == EXTERNAL) {
    Buf &b = E.buf(span + 16);
    for (int i = 0; i < cnt; i++) { put_val(t, b.at((l.off + l.str * i) * eb), salt + i); for (int k = 0; k < eb; k++) b.used[(l.off + l.str * i) * eb + k] = true; }
    n.set_external(d, b.at(0));
  } else {
    std::vector<unsigned char> tmp(span + 16, 0x5A);
    for (int i = 0; i < cnt; i++) put_val(t, tmp.data() + (l.off + l.str * i) * eb, salt + i);
    if (how == SCHEMA || l.off || l.str != 1) n.set(Schema(d), tmp.data());
    else { n.set(d); for (int i = 0; i < cnt; i++) memcpy(n.element_ptr(i), tmp.data() + i * eb, eb); }
  }
}
} // namespace gen
