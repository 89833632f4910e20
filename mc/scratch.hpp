// a scratch directory of this check, removed when the process that made it ends
#pragma once
#include <ftw.h>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <cstdlib>
#include <cstdio>
namespace scratch {
struct Dir {
  std::string path; pid_t owner;
  Dir(const char *tag) : owner(getpid()) {
    struct stat st; bool shm = !stat("/dev/shm", &st) && S_ISDIR(st.st_mode) && !access("/dev/shm", W_OK);
    char b[128]; snprintf(b, sizeof b, "%s/vf-%s.XXXXXX", shm ? "/dev/shm" : "/tmp", tag);
    if (!mkdtemp(b)) { perror("mkdtemp"); exit(3); }
    path = b;
  }
  static int rm(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
  ~Dir() { if (getpid() == owner && path.find("/vf-") != std::string::npos) nftw(path.c_str(), rm, 16, FTW_DEPTH | FTW_PHYS); }
};
inline Dir *&cur() { static Dir *d = nullptr; return d; }
// a name private to the calling worker
inline std::string file(const std::string &name) { return cur()->path + "/" + std::to_string((long)getpid()) + name; }
inline std::string slurp(const std::string &f) { std::string s; FILE *h = fopen(f.c_str(), "rb"); if (!h) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
inline void spit(const std::string &f, const std::string &s) { FILE *h = fopen(f.c_str(), "wb"); if (!h) { perror(f.c_str()); _exit(3); } fwrite(s.data(), 1, s.size(), h); fclose(h); }
inline bool exists(const std::string &f) { struct stat st; return !lstat(f.c_str(), &st); }
inline int open_fds() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
// memory mappings of files of the scratch directory
inline int maps() { FILE *h = fopen("/proc/self/maps", "r"); int n = 0; char l[1024]; while (h && fgets(l, sizeof l, h)) if (strstr(l, "/vf-")) n++; if (h) fclose(h); return n; }
} // namespace scratch
