// shared by the relay harnesses: HDF5 bookkeeping and tree views
#pragma once
#include "plain.hpp"
#include "scratch.hpp"
#include "conduit_relay.hpp"
#include "conduit_relay_io.hpp"
#include "conduit_relay_io_handle.hpp"
#include "conduit_relay_hdf5.hpp"
#include <hdf5.h>
namespace rl {
using namespace gen;
namespace io = conduit::relay::io;
inline long h5_open() { return (long)H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR); }
struct Res { // nothing may stay open
  int fds; long h5; Res() : fds(scratch::open_fds()), h5(h5_open()) {}
  void ok(const char *after) {
    MC_CHECK(h5_open() == h5, "h5-leak", "%s leaves %ld HDF5 objects open (%ld before)", after, h5_open(), h5);
    MC_CHECK(scratch::open_fds() == fds, "fd-leak", "%s leaves %d file descriptors open (%d before)", after, scratch::open_fds(), fds);
  }
};
template <class F> inline bool reported(F f) { try { f(); } catch (conduit::Error &e) { return true; } return false; }
inline void wipe(const std::string &f) { ::unlink(f.c_str()); ::unlink((f + "_json").c_str()); }
static const char *const PROTO[] = {"conduit_bin", "conduit_json", "conduit_base64_json", "hdf5", "json", "yaml"};
static const char *const EXT[] = {".bin", ".conduit_json", ".conduit_base64_json", ".hdf5", ".json", ".yaml"};
// does a loaded tree hold what was saved, as exactly as the protocol promises?
inline void expect(const Node &r, const M &m, int proto, const char *key) {
  M g = cn::value(r);
  if (proto < 4) { MC_CHECK(g == m, key, "%s: read %s, written %s", PROTO[proto], g.str().c_str(), m.str().c_str()); }
  else if (proto == 4) pl::same(g, m, "");
  else pl::same(g, pl::yview(m), "", true);
}
inline bool group(const M &m) { return m.k == M::OBJ || m.k == M::LIST; }
inline bool fits(const M &have, const M &w) { // must an HDF5 tree accept the update?
  if (have.k == M::EMPTY || w.k == M::EMPTY) return have.k == w.k;
  if (group(have) != group(w)) return false;
  if (!group(w)) { auto ty = [](const std::string &s) { return s.substr(0, s.find(':')); }; if (ty(have.leaf) != ty(w.leaf)) return false; if (!pl::num_leaf(w.leaf)) return have.leaf.size() == w.leaf.size(); return pl::vals(have.leaf).size() == pl::vals(w.leaf).size(); }
  if (have.k != w.k) return false;
  for (size_t i = 0; i < w.kids.size(); i++) { int j = w.k == M::OBJ ? have.find(w.names[i]) : (int)i < (int)have.kids.size() ? (int)i : -1; if (j >= 0 && !fits(have.kids[j], w.kids[i])) return false; }
  return true;
}
inline std::string soft(const Node &n, int p) { std::string d = cn::dump(n); if (p == 3) for (const char *e : {"{}", "[]"}) for (size_t i; (i = d.find(e)) != d.npos;) d.replace(i, 2, "~"); return d; } // merging an empty group into nothing may or may not create it
inline bool clash(const M &g, const M &ref) { // an empty group or another kind of group in the file: HDF5 files say what a group is, update cannot
  if (g.k == M::EMPTY) return false; if (ref.k == M::EMPTY || ((ref.k == M::OBJ || ref.k == M::LIST) && ref.kids.empty())) return true;
  if (group(g) && group(ref) && g.k != ref.k) return true;
  if (g.k == M::OBJ && ref.k == M::OBJ) for (size_t i = 0; i < ref.kids.size(); i++) { int j = g.find(ref.names[i]); if (j >= 0 && clash(g.kids[j], ref.kids[i])) return true; }
  return false;
}
inline void quiet_h5() { H5Eset_auto(H5E_DEFAULT, NULL, NULL); }
} // namespace rl
