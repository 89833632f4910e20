// fault injector: the I/O calls of the code under test are counted while armed, and the chosen one fails.
// The functions are interposed at link level (the executable's definitions win over libc's and libasan's).
#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
namespace fault {
enum Mode { NONE, ERR, SHORT, INTR, CRASH };
struct State { bool armed = false; int count = 0, at = -1; Mode mode = NONE; int err = EIO; bool fired = false; bool sticky = false; char what[32] = ""; bool only_write = false; };
inline State &st() { static State s; return s; }
// 0: run normally; else the fault to apply to this call
inline Mode hit(const char *name, bool can_short) {
  State &s = st();
  if (!s.armed) return NONE;
  int k = s.count++;
  if (s.at < 0 || (s.sticky ? k < s.at : k != s.at)) return NONE;
  if (!s.fired) snprintf(s.what, sizeof s.what, "%s", name);
  s.fired = true;
  if (s.mode != ERR && !can_short) return NONE;
  return s.mode;
}
inline void arm(int at, Mode m, int err, bool sticky = false) { State &s = st(); s = State(); s.at = at; s.mode = m; s.err = err; s.sticky = sticky; s.armed = true; }
inline int disarm() { st().armed = false; return st().count; }
template <class F> F next(F *slot, const char *n) { if (!*slot) *slot = (F)dlsym(RTLD_NEXT, n); return *slot; }
} // namespace fault
#define FAULT_REAL(ret, name, ...) typedef ret (*F_)(__VA_ARGS__); static F_ slot_; F_ real_ = fault::next(&slot_, #name)
#define FAULT_RW(name, ctype, ...) \
  extern "C" ssize_t name(int fd, ctype buf, size_t n, ##__VA_ARGS__)
extern "C" ssize_t write(int fd, const void *b, size_t n) {
  FAULT_REAL(ssize_t, write, int, const void *, size_t);
  switch (fault::hit("write", n > 1)) { case fault::ERR: errno = fault::st().err; return -1; case fault::INTR: errno = EINTR; return -1; case fault::SHORT: return real_(fd, b, n / 2); default: return real_(fd, b, n); }
}
extern "C" ssize_t read(int fd, void *b, size_t n) {
  FAULT_REAL(ssize_t, read, int, void *, size_t);
  switch (fault::hit("read", n > 1)) { case fault::ERR: errno = fault::st().err; return -1; case fault::INTR: errno = EINTR; return -1; case fault::SHORT: return real_(fd, b, n / 2); default: return real_(fd, b, n); }
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int c) {
  FAULT_REAL(ssize_t, writev, int, const struct iovec *, int);
  switch (fault::hit("writev", true)) {
  case fault::ERR: errno = fault::st().err; return -1; case fault::INTR: errno = EINTR; return -1;
  case fault::SHORT: for (int i = 0; i < c; i++) if (v[i].iov_len) { struct iovec h = v[i]; h.iov_len = (h.iov_len + 1) / 2; return real_(fd, &h, 1); } return 0;
  default: return real_(fd, v, c); }
}
#define FAULT_P(name, buft) extern "C" ssize_t name(int fd, buft b, size_t n, off_t o) { FAULT_REAL(ssize_t, name, int, buft, size_t, off_t); \
  switch (fault::hit(#name, n > 1)) { case fault::ERR: errno = fault::st().err; return -1; case fault::INTR: errno = EINTR; return -1; case fault::SHORT: return real_(fd, b, n / 2, o); default: return real_(fd, b, n, o); } }
FAULT_P(pwrite, const void *) FAULT_P(pwrite64, const void *) FAULT_P(pread, void *) FAULT_P(pread64, void *)
#define FAULT_OPEN(name) extern "C" int name(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); FAULT_REAL(int, name, const char *, int, ...); \
  if (fault::hit(#name, false) == fault::ERR) { errno = fault::st().err; return -1; } return real_(p, f, m); }
FAULT_OPEN(open) FAULT_OPEN(open64)
#define FAULT_FOPEN(name) extern "C" FILE *name(const char *p, const char *m) { FAULT_REAL(FILE *, name, const char *, const char *); if (fault::hit(#name, false) == fault::ERR) { errno = fault::st().err; return nullptr; } return real_(p, m); }
FAULT_FOPEN(fopen) FAULT_FOPEN(fopen64)
extern "C" int fclose(FILE *f) { FAULT_REAL(int, fclose, FILE *); int r = real_(f); if (fault::hit("fclose", false) == fault::ERR) { errno = fault::st().err; return EOF; } return r; }
extern "C" int close(int fd) { FAULT_REAL(int, close, int); int r = real_(fd); if (fault::hit("close", false) == fault::ERR) { errno = fault::st().err; return -1; } return r; }
#define FAULT_TRUNC(name) extern "C" int name(int fd, off_t o) { FAULT_REAL(int, name, int, off_t); if (fault::hit(#name, false) == fault::ERR) { errno = fault::st().err; return -1; } return real_(fd, o); }
FAULT_TRUNC(ftruncate) FAULT_TRUNC(ftruncate64)
#define FAULT_MMAP(name) extern "C" void *name(void *a, size_t n, int p, int f, int fd, off_t o) { FAULT_REAL(void *, name, void *, size_t, int, int, int, off_t); if (fd >= 0 && fault::hit(#name, false) == fault::ERR) { errno = fault::st().err; return MAP_FAILED; } return real_(a, n, p, f, fd, o); }
FAULT_MMAP(mmap) FAULT_MMAP(mmap64)
