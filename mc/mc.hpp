// mc.hpp - stateless model checker for real code.
//
// A "space" is a function body() whose only source of nondeterminism is
// mc::choose(n). The explorer runs body() for every sequence of choices (depth
// first, by re-execution), shards the tree over forked workers, prunes paths that
// reach an already explored (state, remaining depth) pair, attributes crashes,
// sanitizer reports and hangs to the choice sequence that caused them, confirms
// every failure by replaying it alone in a fresh process, and writes the evidence.
#pragma once
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));

namespace mc {

struct Abandon {};
struct Violation {
  std::string key, msg;
};

inline uint64_t mix(uint64_t h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
  return h;
}
struct Hasher {
  uint64_t h = 0x9e3779b97f4a7c15ULL;
  void u64(uint64_t v) { h = mix(h ^ v) + 0x9e3779b97f4a7c15ULL; }
  void bytes(const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p;
    u64(n);
    while (n >= 8) { uint64_t v; memcpy(&v, c, 8); u64(v); c += 8; n -= 8; }
    if (n) { uint64_t v = 0; memcpy(&v, c, n); u64(v); }
  }
  void str(const std::string &s) { bytes(s.data(), s.size()); }
};
inline uint64_t hash_str(const std::string &s) { Hasher H; H.str(s); return H.h; }

static const int MAXTRAIL = 4096;
static const int MAXW = 64;
static const int MAXLAB = 512;

struct Slot {
  std::atomic<uint64_t> execs;
  std::atomic<int> status;  // 0 idle 1 running 2 failed 3 done
  std::atomic<int> n;       // trail length
  std::atomic<int> forced;
  uint16_t c[MAXTRAIL], w[MAXTRAIL];
  char key[256], msg[6000];
};
struct Label {
  char name[56];
  std::atomic<uint64_t> count;
};
struct Shared {
  std::atomic<int> stop, timeup;
  std::atomic<uint64_t> execs, transitions, states, prunes, table_full, leaks, checks;
  std::atomic<uint64_t> maxdepth;
  std::atomic<int> nlab, lablock;
  Label lab[MAXLAB];
  char known[64][256];
  std::atomic<int> nknown;
  int nsample;
  uint16_t samp[8][512];
  int sampn[8];
  Slot slot[MAXW];
};

struct Table {
  std::atomic<uint64_t> *t = nullptr;
  uint64_t mask = 0;
  void alloc(int bits) {
    size_t sz = sizeof(uint64_t) << bits;
    t = (std::atomic<uint64_t> *)mmap(nullptr, sz, PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (t == MAP_FAILED) { perror("mmap"); _exit(2); }
    mask = (1ULL << bits) - 1;
  }
  void release() { if (t) munmap((void *)t, (mask + 1) * 8); t = nullptr; }
  // 1 inserted, 0 present, -1 full
  int insert(uint64_t k) {
    if (!k) k = 1;
    uint64_t i = mix(k) & mask;
    for (int probe = 0; probe < 4096; probe++, i = (i + 1) & mask) {
      uint64_t v = t[i].load(std::memory_order_relaxed);
      if (v == k) return 0;
      if (v == 0) {
        if (t[i].compare_exchange_strong(v, k)) return 1;
        if (v == k) return 0;
      }
    }
    return -1;
  }
};

struct Opt {
  int shard_depth = 2;
  int table_bits = 22;
  bool leaks = false;
  double hang_s = 40;
  bool single_process = false; // bodies that fork themselves etc.
};
struct Space {
  std::string name;
  std::function<void()> body;
  Opt opt;
  std::string rule;
};

struct Global {
  Shared *sh = nullptr;
  Slot *me = nullptr;
  Table visited, distinct, claims;
  // per execution
  std::vector<std::pair<uint16_t, uint16_t>> trail;
  size_t cursor = 0, forced = 0;
  bool sharded = false;
  uint64_t mine = 0;
  bool replay = false;
  bool warm = false; // repeated execution for leak confirmation
  Opt opt;
  std::string property, tier, space_name;
  std::vector<std::pair<std::string, std::string>> known; // key, text
  int workers = 8;
  long live = 0;
  double t0 = 0, budget = 0;
  std::vector<std::string> labnames;
};
inline Global &g() { static Global G; return G; }
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline bool thorough() { return g().tier == "thorough"; }
inline bool replaying() { return g().replay; }

inline void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char *fmt, ...) {
  if (!g().replay) return;
  va_list ap; va_start(ap, fmt);
  fputs("  | ", stdout); vprintf(fmt, ap); fputc('\n', stdout); fflush(stdout);
  va_end(ap);
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

inline uint64_t prefix_hash(size_t n) {
  Hasher H;
  for (size_t i = 0; i < n; i++) H.u64(g().trail[i].first);
  return H.h;
}

inline void do_shard() {
  Global &G = g();
  if (G.sharded) return;
  G.sharded = true;
  if (G.replay || G.warm) return;
  uint64_t h = prefix_hash(G.cursor) | 1;
  if (h == G.mine) return;
  int r = G.claims.insert(h);
  if (r == 0) { G.sharded = false; throw Abandon(); }
  G.mine = h;
}

// the one source of nondeterminism
inline int choose(int n, const char *label = nullptr) {
  Global &G = g();
  if (n <= 0) { fprintf(stderr, "mc: choose(%d) %s\n", n, label ? label : ""); abort(); }
  if (n == 1) return 0;
  if (!G.sharded && (int)G.cursor >= G.opt.shard_depth) do_shard();
  int v;
  if (G.cursor < G.trail.size()) {
    v = G.trail[G.cursor].first;
    if (G.replay) {
      if (v >= n) { printf("mc: replay diverged (choice %d of %d)\n", v, n); v = n - 1; }
    } else if (G.trail[G.cursor].second != n) {
      fprintf(stderr, "mc: nondeterministic harness: width %d was %d (%s)\n", n,
              G.trail[G.cursor].second, label ? label : "");
      abort();
    }
  } else {
    v = 0;
    G.trail.push_back({0, (uint16_t)n});
    if (G.me) {
      if (G.trail.size() >= (size_t)MAXTRAIL) { fprintf(stderr, "mc: trail too long\n"); abort(); }
      G.me->c[G.cursor] = 0; G.me->w[G.cursor] = n; G.me->n.store(G.cursor + 1);
    }
  }
  G.cursor++;
  return v;
}
template <class T> inline const T &pick(const std::vector<T> &v) { return v[choose((int)v.size())]; }
inline bool flip() { return choose(2) == 1; }

// false while the explorer only re-executes a prefix that was already checked
inline bool fresh() { Global &G = g(); return G.replay || G.warm || G.cursor >= G.forced; }

// a state reached: returns false when everything below was already explored
inline bool visit(uint64_t h, int remaining) {
  Global &G = g();
  if (G.replay || G.warm) return true;
  bool fresh = G.cursor >= G.forced;
  if (fresh && G.distinct.insert(h) == 1) G.sh->states++;
  if (!G.sharded || !fresh) return true;
  Hasher H; H.u64(h); H.u64(remaining);
  int r = G.visited.insert(H.h);
  if (r < 0) G.sh->table_full++;
  if (r == 0) { G.sh->prunes++; return false; }
  return true;
}
// an outcome worth counting as a distinct state, no pruning
inline void observe(uint64_t h) {
  Global &G = g();
  if (G.replay || G.warm) return;
  if (G.distinct.insert(h) == 1) G.sh->states++;
}
inline void transition(int k = 1) {
  Global &G = g();
  if (!G.replay && !G.warm && G.cursor >= G.forced) G.sh->transitions += k;
}
inline void checked(int k = 1) { if (!g().replay && !g().warm) g().sh->checks += k; }

inline void outcome(const char *name) {
  Global &G = g();
  if (G.replay || G.warm) return;
  Shared *s = G.sh;
  int n = s->nlab.load();
  for (int i = 0; i < n; i++)
    if (!strncmp(s->lab[i].name, name, 55)) { s->lab[i].count++; return; }
  int exp = 0;
  while (!s->lablock.compare_exchange_weak(exp, 1)) exp = 0;
  n = s->nlab.load();
  int i = 0;
  for (; i < n; i++) if (!strncmp(s->lab[i].name, name, 55)) break;
  if (i == n && n < MAXLAB) {
    strncpy(s->lab[n].name, name, 55);
    s->lab[n].count = 0;
    s->nlab = n + 1;
  }
  s->lablock = 0;
  if (i < MAXLAB) s->lab[i].count++;
}
inline void outcome(const std::string &s) { outcome(s.c_str()); }

[[noreturn]] inline void fail(const std::string &key, const std::string &msg) { throw Violation{key, msg}; }
#define MC_CHECK(cond, key, ...) do { mc::checked(); if (!(cond)) mc::fail((key), mc::fmt(__VA_ARGS__)); } while (0)

// ---------------------------------------------------------------- explorer
inline void hook_malloc(const volatile void *, size_t) { g().live++; }
inline void hook_free(const volatile void *p) { if (p) g().live--; }

// returns: 0 ok, 1 abandoned, 2 violation (known ones are reported as 0)
inline int run_once(const Space &sp, std::string &key, std::string &msg) {
  Global &G = g();
  G.cursor = 0; G.sharded = false;
  try {
    sp.body();
    if (!G.sharded) do_shard();
    return 0;
  } catch (Abandon &) {
    return 1;
  } catch (Violation &v) {
    key = v.key; msg = v.msg;
  } catch (std::exception &e) {
    key = "unexpected-exception"; msg = std::string("exception escaped the operation: ") + e.what();
  } catch (...) {
    key = "unexpected-exception"; msg = "exception of unknown type escaped the operation";
  }
  return 2;
}
inline bool is_known(const std::string &key) {
  for (auto &k : g().known) if (k.first == key) return true;
  return false;
}

inline void worker(const Space &sp, int id, std::vector<std::pair<uint16_t, uint16_t>> start) {
  Global &G = g();
  Slot *s = G.me = &G.sh->slot[id];
  G.trail.reserve(MAXTRAIL);
  G.trail = std::move(start);
  G.trail.reserve(MAXTRAIL);
  G.forced = G.trail.size();
  s->status = 1;
  bool leakhook = sp.opt.leaks && __sanitizer_install_malloc_and_free_hooks;
  if (leakhook) __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
  while (true) {
    if (G.sh->stop.load() || G.sh->timeup.load()) break;
    for (size_t i = 0; i < G.trail.size(); i++) { s->c[i] = G.trail[i].first; s->w[i] = G.trail[i].second; }
    s->n = (int)G.trail.size();
    s->execs++;
    long live0;
    int r;
    {
      std::string key, msg;
      live0 = G.live;
      r = run_once(sp, key, msg);
      if (r == 2) {
        if (is_known(key)) {
          int i = 0, n = G.sh->nknown;
          for (; i < n; i++) if (key == G.sh->known[i]) break;
          if (i == n && n < 64) { strncpy(G.sh->known[n], key.c_str(), 255); G.sh->nknown = n + 1; }
          r = 0;
        } else {
          strncpy(s->key, key.c_str(), sizeof s->key - 1);
          strncpy(s->msg, msg.c_str(), sizeof s->msg - 1);
          s->n = (int)G.trail.size();
          s->status = 2;
          G.sh->stop = 1;
          _exit(3);
        }
      }
    }
    if (r == 0) {
      uint64_t k = G.sh->execs++;
      uint64_t d = G.trail.size(), m = G.sh->maxdepth;
      while (d > m && !G.sh->maxdepth.compare_exchange_weak(m, d)) {}
      if ((k == 0 || (k & (k - 1)) == 0) && d < 512) { // a few samples
        int q = G.sh->nsample;
        if (k == 0 || k >= 64) {
          q = q % 8;
          G.sh->sampn[q] = (int)d;
          for (size_t i = 0; i < d; i++) G.sh->samp[q][i] = G.trail[i].first;
          G.sh->nsample++;
        }
      }
      if (leakhook && G.live != live0) {
        // confirm: the same execution must leak every time, not only warm a cache
        bool leak = true; long dl = 0;
        G.warm = true;
        for (int rep = 0; rep < 3 && leak; rep++) {
          long l0 = G.live;
          { std::string key, msg; run_once(sp, key, msg); }
          dl = G.live - l0;
          if (dl <= 0) leak = false;
        }
        G.warm = false;
        if (leak && !is_known("leak")) {
          snprintf(s->key, sizeof s->key, "leak");
          snprintf(s->msg, sizeof s->msg, "memory leak: %ld allocation(s) of this execution are never freed", dl);
          s->status = 2; G.sh->stop = 1; _exit(3);
        }
      }
    }
    // backtrack
    G.trail.resize(std::min(G.trail.size(), G.cursor));
    while (!G.trail.empty() && G.trail.back().first + 1 >= G.trail.back().second) G.trail.pop_back();
    if (G.trail.empty()) break;
    G.trail.back().first++;
    G.forced = G.trail.size();
  }
  s->status = 3;
  fflush(stdout);
  _exit(0);
}

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

// run this binary again on one choice sequence. returns true if it fails there.
inline bool replay_process(const std::string &space, const std::vector<int> &c, double limit, std::string &out, bool &hung) {
  std::string vec;
  for (size_t i = 0; i < c.size(); i++) { if (i) vec += ','; vec += std::to_string(c[i]); }
  char tmpl[] = "/tmp/mcreplayXXXXXX";
  int fd = mkstemp(tmpl);
  if (fd < 0) return false;
  FILE *f = fopen(tmpl, "w");
  fprintf(f, "%s\n", vec.c_str());
  fclose(f);
  std::string of = std::string(tmpl) + ".out";
  pid_t p = fork();
  if (p == 0) {
    int o = open(of.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    dup2(o, 1); dup2(o, 2);
    setpgid(0, 0);
    char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, 511); exe[n > 0 ? n : 0] = 0;
    execl(exe, exe, "--space", space.c_str(), "--replay", tmpl, "--tier", g().tier.c_str(), (char *)nullptr);
    _exit(99);
  }
  int st = 0; double t0 = now(); hung = false;
  while (waitpid(p, &st, WNOHANG) == 0) {
    if (now() - t0 > limit) { hung = true; kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); break; }
    usleep(20000);
  }
  f = fopen(of.c_str(), "r");
  out.clear();
  if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) if (out.size() < 200000) out.append(b, n); fclose(f); }
  unlink(of.c_str()); unlink(tmpl); close(fd);
  if (hung) return true;
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

struct Result {
  std::string space, rule;
  uint64_t execs, states, transitions, prunes, checks, maxdepth, table_full;
  bool complete;
  double wall;
  std::vector<std::pair<std::string, uint64_t>> labels;
  std::vector<std::string> samples;
};

inline std::string verif_dir() {
  const char *e = getenv("VERIF_DIR");
  return e ? e : "/verif";
}

// explores one space; returns true if a violation was reported
inline bool explore(const Space &sp, Result &res) {
  Global &G = g();
  G.opt = sp.opt; G.space_name = sp.name;
  double t0 = now();
  G.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  G.visited.alloc(sp.opt.table_bits); G.distinct.alloc(sp.opt.table_bits); G.claims.alloc(20);
  int W = G.workers;
  std::vector<pid_t> pid(W, -1);
  std::vector<uint64_t> last(W, ~0ULL);
  std::vector<double> since(W, now());
  fflush(stdout); fflush(stderr);
  auto spawn = [&](int i, std::vector<std::pair<uint16_t, uint16_t>> st) {
    pid_t p = fork();
    if (p == 0) {
      // sanitizer output of a crashing worker is reproduced by the replay
      int o = open("/dev/null", O_WRONLY); dup2(o, 2); dup2(o, 1);
      worker(sp, i, st);
    }
    pid[i] = p; last[i] = ~0ULL; since[i] = now();
  };
  for (int i = 0; i < W; i++) spawn(i, {});
  struct Cand { std::vector<int> c; std::string why; bool hang; };
  std::vector<Cand> cands;
  int unrepro = 0;
  bool violated = false;
  auto vec = [&](int i) {
    std::vector<int> c; Slot &s = G.sh->slot[i];
    for (int k = 0; k < s.n; k++) c.push_back(s.c[k]);
    return c;
  };
  auto next_of = [&](int i) {
    std::vector<std::pair<uint16_t, uint16_t>> t; Slot &s = G.sh->slot[i];
    for (int k = 0; k < s.n; k++) t.push_back({s.c[k], s.w[k]});
    while (!t.empty() && t.back().first + 1 >= t.back().second) t.pop_back();
    if (!t.empty()) t.back().first++;
    return t;
  };
  auto report = [&](const std::vector<int> &c, const std::string &why, const std::string &out) {
    std::string dir = verif_dir() + "/evidence/replays";
    mkdir((verif_dir() + "/evidence").c_str(), 0755); mkdir(dir.c_str(), 0755);
    std::string path = dir + "/" + G.property + "-" + sp.name + ".txt";
    FILE *f = fopen(path.c_str(), "w");
    if (f) {
      for (size_t k = 0; k < c.size(); k++) fprintf(f, "%s%d", k ? "," : "", c[k]);
      fprintf(f, "\n# property %s, space %s, tier %s\n# %s\n# replay: tools/check.py %s --tier %s --space %s --replay %s\n%s\n",
              G.property.c_str(), sp.name.c_str(), G.tier.c_str(), why.c_str(), G.property.c_str(), G.tier.c_str(),
              sp.name.c_str(), path.c_str(), out.c_str());
      fclose(f);
    }
    printf("%s\n", why.c_str());
    std::string o2 = out.size() > 6000 ? out.substr(0, 6000) + "\n..." : out;
    printf("%s\n", o2.c_str());
    printf("VIOLATION property=%s replay=%s\n", G.property.c_str(), path.c_str());
    fflush(stdout);
    violated = true;
  };
  int alive = W;
  bool timeup = false;
  while (alive > 0) {
    bool any = false;
    for (int i = 0; i < W; i++) {
      if (pid[i] < 0) continue;
      int st;
      pid_t r = waitpid(pid[i], &st, WNOHANG);
      if (r == 0) {
        Slot &s = G.sh->slot[i];
        uint64_t e = s.execs;
        if (e != last[i]) { last[i] = e; since[i] = now(); }
        else if (now() - since[i] > sp.opt.hang_s) {
          kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); pid[i] = -1; alive--; any = true;
          if (G.sh->stop) continue;
          auto c = vec(i); std::string out; bool hung;
          if (replay_process(sp.name, c, sp.opt.hang_s * 3, out, hung)) {
            G.sh->stop = 1;
            report(c, hung ? "the operation does not terminate (" + std::to_string((int)(sp.opt.hang_s * 3)) + " s alone)" : "replayed failure", out);
          } else {
            unrepro++;
            auto t = next_of(i);
            if (!t.empty() && unrepro < 20) { spawn(i, t); alive++; }
          }
        }
        continue;
      }
      any = true;
      pid[i] = -1; alive--;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      if (violated) continue;
      // failed or crashed
      Slot &s = G.sh->slot[i];
      auto c = vec(i);
      std::string why;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && s.status == 2) why = std::string(s.key) + ": " + s.msg;
      else if (WIFSIGNALED(st)) why = fmt("crash: signal %d", WTERMSIG(st));
      else why = fmt("crash: the process ended with status %d (sanitizer report, abort or exit)", WEXITSTATUS(st));
      std::string out; bool hung;
      bool leakfail = !strcmp(s.key, "leak") && s.status == 2;
      if (leakfail || replay_process(sp.name, c, sp.opt.hang_s * 3, out, hung)) {
        if (leakfail) replay_process(sp.name, c, sp.opt.hang_s * 3, out, hung);
        G.sh->stop = 1;
        report(c, why, out);
      } else {
        // not reproducible alone: does it depend on the executions before it?
        fprintf(stderr, "mc: failure not reproduced alone: %s\n", why.c_str());
        unrepro++;
        G.sh->stop = 0;
        auto t = next_of(i);
        if (!t.empty() && unrepro < 20) { s.status = 1; memset(s.key, 0, sizeof s.key); spawn(i, t); alive++; }
      }
    }
    if (!timeup && G.budget > 0 && now() - G.t0 > G.budget) { timeup = true; G.sh->timeup = 1; }
    if (!any) usleep(2000);
  }
  res.space = sp.name; res.rule = sp.rule;
  res.execs = G.sh->execs; res.states = G.sh->states; res.transitions = G.sh->transitions;
  res.prunes = G.sh->prunes; res.checks = G.sh->checks; res.maxdepth = G.sh->maxdepth; res.table_full = G.sh->table_full;
  res.complete = !violated && !timeup && unrepro == 0;
  for (int i = 0; i < G.sh->nlab; i++) res.labels.push_back({G.sh->lab[i].name, G.sh->lab[i].count});
  for (int i = 0; i < G.sh->nknown; i++) {
    for (auto &k : G.known)
      if (k.first == G.sh->known[i]) printf("KNOWN-FINDING: property=%s %s\n", G.property.c_str(), k.second.c_str());
  }
  int ns = std::min(G.sh->nsample, 8);
  for (int k = 0; k < ns && k < 4 && !violated; k++) {
    int q = (ns - 1 - k * (ns > 4 ? 2 : 1)); if (q < 0) break;
    std::vector<int> c(G.sh->samp[q], G.sh->samp[q] + G.sh->sampn[q]);
    std::string out; bool hung;
    replay_process(sp.name, c, 60, out, hung);
    if (out.size() > 1500) out = out.substr(0, 1500) + "...";
    res.samples.push_back(out);
  }
  res.wall = now() - t0;
  G.visited.release(); G.distinct.release(); G.claims.release();
  munmap(G.sh, sizeof(Shared)); G.sh = nullptr;
  return violated;
}

inline int main_(int argc, char **argv, const std::string &property, std::vector<Space> spaces,
                 std::vector<std::string> assumptions) {
  Global &G = g();
  G.property = property;
  G.tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  std::string only, rep;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--tier" && i + 1 < argc) G.tier = argv[++i];
    else if (a == "--space" && i + 1 < argc) only = argv[++i];
    else if (a == "--replay" && i + 1 < argc) rep = argv[++i];
    else if (a == "--workers" && i + 1 < argc) G.workers = atoi(argv[++i]);
  }
  long nc = sysconf(_SC_NPROCESSORS_ONLN);
  if (nc > 0 && nc < G.workers) G.workers = (int)nc;
  if (getenv("MC_WORKERS")) G.workers = atoi(getenv("MC_WORKERS"));
  G.t0 = now();
  G.budget = thorough() ? 3000 : 600;
  if (getenv("MC_BUDGET_S")) G.budget = atof(getenv("MC_BUDGET_S"));
  { // known findings: "known: property=<id> key=<key> <text>"
    FILE *f = fopen((verif_dir() + "/known_findings.txt").c_str(), "r");
    char line[2000];
    while (f && fgets(line, sizeof line, f)) {
      std::string l = line; while (!l.empty() && (l.back() == '\n')) l.pop_back();
      std::string pre = "known: property=" + property + " key=";
      if (l.compare(0, pre.size(), pre)) continue;
      std::string r = l.substr(pre.size());
      size_t sp = r.find(' ');
      G.known.push_back({r.substr(0, sp), sp == std::string::npos ? r : r.substr(sp + 1)});
    }
    if (f) fclose(f);
  }
  if (!rep.empty()) {
    FILE *f = fopen(rep.c_str(), "r");
    if (!f) { perror(rep.c_str()); return 2; }
    std::string l; int ch; while ((ch = fgetc(f)) != EOF && ch != '\n') l += (char)ch; fclose(f);
    for (auto &sp : spaces) if (sp.name == only) {
      G.replay = true; G.opt = sp.opt;
      std::stringstream ss(l); std::string t;
      while (std::getline(ss, t, ',')) if (!t.empty()) G.trail.push_back({(uint16_t)atoi(t.c_str()), 65535});
      std::string key, msg;
      printf("space %s, choices %s\n", only.c_str(), l.c_str());
      int r = run_once(sp, key, msg);
      if (r == 2) { printf("FAILED %s: %s\n", key.c_str(), msg.c_str()); return is_known(key) ? 0 : 1; }
      printf("ok\n");
      return 0;
    }
    fprintf(stderr, "no space %s\n", only.c_str());
    return 2;
  }
  bool bad = false, complete = true;
  std::vector<Result> rs;
  for (auto &sp : spaces) {
    if (!only.empty() && sp.name != only) continue;
    Result r;
    bad = explore(sp, r);
    rs.push_back(r);
    if (r.table_full) fprintf(stderr, "mc: state table of %s was full %lu times (only costs pruning)\n", sp.name.c_str(), (unsigned long)r.table_full);
    printf("%s/%s: executions=%lu states=%lu transitions=%lu checks=%lu pruned=%lu maxchoices=%lu %s %.1fs\n", property.c_str(), sp.name.c_str(),
           (unsigned long)r.execs, (unsigned long)r.states, (unsigned long)r.transitions, (unsigned long)r.checks, (unsigned long)r.prunes,
           (unsigned long)r.maxdepth, r.complete ? "complete" : "INCOMPLETE", r.wall);
    for (auto &l : r.labels) printf("    %-50s %lu\n", l.first.c_str(), (unsigned long)l.second);
    fflush(stdout);
    complete = complete && r.complete;
    if (bad) break;
  }
  if (only.empty() || getenv("MC_EVIDENCE")) {
    mkdir((verif_dir() + "/evidence").c_str(), 0755);
    std::string p = verif_dir() + "/evidence/" + property + ".json";
    FILE *f = fopen((p + ".tmp").c_str(), "w");
    if (f) {
      uint64_t st = 0, tr = 0, ex = 0, ck = 0;
      for (auto &r : rs) { st += r.states; tr += r.transitions; ex += r.execs; ck += r.checks; }
      fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"model_checking\",\n \"coverage\": {\n", property.c_str(),
              G.tier.c_str(), getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1);
      fprintf(f, "  \"states\": %lu,\n  \"transitions\": %lu,\n  \"traces_validated_against_impl\": %lu,\n  \"oracle_checks\": %lu,\n  \"exhaustive\": %s,\n",
              (unsigned long)st, (unsigned long)tr, (unsigned long)ex, (unsigned long)ck, complete ? "true" : "false");
      fprintf(f, "  \"spaces\": [");
      bool first = true;
      for (auto &r : rs) {
        fprintf(f, "%s\n   {\"name\": \"%s\", \"rule\": \"%s\", \"executions\": %lu, \"states\": %lu, \"transitions\": %lu, \"pruned\": %lu, \"max_choices\": %lu, \"complete\": %s, \"wall_s\": %.2f, \"outcomes\": {",
                first ? "" : ",", r.space.c_str(), jesc(r.rule).c_str(), (unsigned long)r.execs, (unsigned long)r.states, (unsigned long)r.transitions,
                (unsigned long)r.prunes, (unsigned long)r.maxdepth, r.complete ? "true" : "false", r.wall);
        first = false;
        bool f2 = true;
        for (auto &l : r.labels) { fprintf(f, "%s\"%s\": %lu", f2 ? "" : ", ", jesc(l.first).c_str(), (unsigned long)l.second); f2 = false; }
        fprintf(f, "}}");
      }
      fprintf(f, "\n  ],\n  \"samples\": [");
      first = true;
      for (auto &r : rs) for (auto &s : r.samples) { fprintf(f, "%s\n   \"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
      fprintf(f, "\n  ]\n },\n \"assumptions\": [");
      first = true;
      for (auto &a : assumptions) { fprintf(f, "%s\n  \"%s\"", first ? "" : ",", jesc(a).c_str()); first = false; }
      fprintf(f, "\n ],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now() - G.t0, bad ? 1 : 0);
      fclose(f);
      rename((p + ".tmp").c_str(), p.c_str());
    }
  }
  return bad ? 1 : 0;
}
} // namespace mc
