// A simulated operating system under the library's random source: open/read/close and the ways a process can end
// are interposed at link time. While a simulation is on, every call is a decision of the model checker.
#pragma once
#include "api.hpp"
#include <algorithm>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <setjmp.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
namespace ossim {
struct World {
  bool on = false;
  jmp_buf out;                       // where a process end lands
  bool ended = false; int status = 0;
  std::vector<int> fds;              // open descriptors of the source
  int opens = 0, reads = 0, closes = 0, faults = 0;
  int budget = 0;                    // faults (errors, end of file) that may still be injected
  bool all_lengths = false;          // every short length, or only representative ones
  std::string delivered;             // bytes the source has handed out, in order
  std::function<uint8_t(size_t)> stream;      // the source's byte at a position
  int persistent = 0;                // 1 EOF for ever, 2 EIO for ever, 3 open fails for ever
  int max_calls = 4000;
  bool fancy = true;                 // choose descriptor numbers and close results
  int splits = 1 << 30, splits_after_fault = 1 << 30;  // short reads still offered as a choice (then reads are full), also once a fault has been met
  bool giant = false; uint64_t pos = 0, total = 0; std::vector<uint64_t> probes;
  std::function<int(size_t)> chunk;  // if set, decides the number of bytes a read of n gives (no choices)
};
inline World& W() { static World w; return w; }
// A process that ends takes its locks with it; the simulated end of a process has to release them.
inline std::vector<pthread_mutex_t*>& locks() { static std::vector<pthread_mutex_t*> v; return v; }
[[noreturn]] inline void stop(int status) { World& w = W(); w.on = false; while (!locks().empty()) { pthread_mutex_t* m = locks().back(); pthread_mutex_unlock(m); } w.ended = true; w.status = status; longjmp(w.out, 1); }
inline bool mine(int fd) { for (int f : W().fds) if (f == fd) return true; return false; }
inline int sim_open(const char* path) {
  World& w = W(); w.opens++;
  if (w.opens > w.max_calls) { mc::fail_later("keeps opening the source without end"); stop(1); }
  if (strcmp(path, "/dev/urandom") && strcmp(path, "/dev/random")) { mc::fail_later("opened %s as random source", path); stop(1); }
  if (w.persistent == 3) { errno = EMFILE; return -1; }
  static const int errs[] = {EMFILE, ENOENT, EINTR};
  int n = w.budget > 0 ? 3 : 0, c = mc::choose((w.fancy ? 3 : 1) + n);
  if (n && c >= (w.fancy ? 3 : 1)) { w.budget--; w.faults++; errno = errs[c - (w.fancy ? 3 : 1)]; mc::note("open -> %s", strerror(errno)); return -1; }
  static const int nums[] = {700, 0, 1};       // 0 and 1 are descriptors a process may really get
  int fd = nums[c]; while (mine(fd)) fd++;
  w.fds.push_back(fd); mc::note("open -> %d", fd); return fd;
}
inline ssize_t sim_read(int fd, void* buf, size_t n) {
  World& w = W(); w.reads++;
  if (w.reads > w.max_calls && w.giant && w.pos < w.total) { w.faults++; mc::note("reads in very small pieces: not followed to the end"); stop(1); }
  if (w.reads > w.max_calls) { mc::fail_later("keeps reading without end"); stop(1); }
  if (fd != -77 && !mine(fd)) { errno = EBADF; mc::fail_later("read from descriptor %d, which is not the open source", fd); return -1; }
  if (n == 0) return 0;
  if (w.persistent == 1) return 0;
  if (w.persistent == 2) { errno = EIO; return -1; }
  if (w.persistent == 3 && fd == -77) { errno = ENOSYS; return -1; }
  size_t cap = n > 0x7ffff000 ? 0x7ffff000 : n, k;
  if (w.chunk) { int r = w.chunk(cap); if (r <= 0) return r; k = (size_t)r; }
  else {
    std::vector<size_t> lens;
    if (w.all_lengths) { lens.push_back(cap); for (size_t i = 1; i < cap; i++) lens.push_back(i); }
    else for (size_t i : {cap, (size_t)1, cap / 2, cap - 1, cap > 32 ? (size_t)32 : (size_t)0}) { bool dup = i == 0; for (size_t l : lens) dup |= l == i; if (!dup) lens.push_back(i); }
    if (w.splits <= 0) lens.resize(1);
    int nf = w.budget > 0 ? 4 : 0, c = mc::choose((int)lens.size() + nf);
    if (c >= (int)lens.size()) {
      w.budget--; w.faults++; w.splits = std::min(w.splits, w.splits_after_fault);
      static const int errs[] = {0, EIO, EINTR, EAGAIN};
      int e = errs[c - lens.size()]; mc::note("read(%zu) -> %s", n, e ? strerror(e) : "end of file");
      if (!e) return 0;
      errno = e; return -1;
    }
    k = lens[c]; if (k < cap) w.splits--;
  }
  if (w.reads < 2000) mc::note("read(%zu) -> %zu bytes", n, k);
  if (w.giant) {                                       // write only at probe positions: the pages stay untouched elsewhere
    auto put = [&](size_t i) { if (i < k) { ((uint8_t*)buf)[i] = w.stream(w.pos + i); w.probes.push_back(w.pos + i); } };
    uint64_t mib = (w.pos + (1 << 20) - 1) >> 20 << 20;
    if (w.reads < 2000 || w.pos + k >= w.total) for (size_t i = 0; i < 16; i++) { put(i); put(k - 1 - i); }
    else if (mib < w.pos + k) put(mib - w.pos);        // a library that reads in small pieces: one byte of every MiB
    for (size_t i = 0; i < k; i += 1 << 27) if (i) put(i);
    w.pos += k;
    return (ssize_t)k;
  }
  for (size_t i = 0; i < k; i++) { uint8_t b = w.stream(w.delivered.size()); ((uint8_t*)buf)[i] = b; w.delivered += (char)b; }
  return (ssize_t)k;
}
inline int sim_close(int fd) {
  World& w = W(); w.closes++;
  for (size_t i = 0; i < w.fds.size(); i++) if (w.fds[i] == fd) {
    w.fds.erase(w.fds.begin() + i);
    if (w.fancy && mc::choose(2)) { errno = EIO; mc::note("close -> EIO"); return -1; }
    return 0;
  }
  errno = EBADF;
  return -1;
}
// Run f in the simulated world; true if it returned, false if it ended the process (status in W().status).
template <class F> inline bool run(F f) {
  World& w = W();
  static FILE* null = fopen("/dev/null", "w");
  fflush(stderr);
  FILE* old = stderr; stderr = null;
  bool returned = false;
  w.on = true; w.ended = false;
  if (setjmp(w.out) == 0) { f(); returned = true; }
  w.on = false;
  stderr = old;
  return returned;
}
inline void reset(int budget) { World& w = W(); w = World(); w.budget = budget; w.stream = [](size_t i) { return (uint8_t)(1 + (i * 167 + i / 251 * 13) % 255); }; }
}  // namespace ossim

extern "C" {
#define OSSIM_OPEN(name, call)                                   \
  int name(const char* path, int flags, ...) {                   \
    va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a); \
    if (ossim::W().on) return ossim::sim_open(path);             \
    return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode); \
  }
OSSIM_OPEN(open, open) OSSIM_OPEN(open64, open64)
int __open_2(const char* path, int flags) { if (ossim::W().on) return ossim::sim_open(path); return (int)syscall(SYS_openat, AT_FDCWD, path, flags, 0); }
int __open64_2(const char* path, int flags) { return __open_2(path, flags); }
int openat(int d, const char* path, int flags, ...) { va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a); if (ossim::W().on) return ossim::sim_open(path); return (int)syscall(SYS_openat, d, path, flags, mode); }
ssize_t read(int fd, void* b, size_t n) { if (ossim::W().on) return ossim::sim_read(fd, b, n); return syscall(SYS_read, fd, b, n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t readv(int fd, const struct iovec* v, int n) {
  if (!ossim::W().on) return syscall(SYS_readv, fd, v, n);
  for (int i = 0; i < n; i++) if (v[i].iov_len) return ossim::sim_read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t getrandom(void* b, size_t n, unsigned f) { if (ossim::W().on) return ossim::sim_read(-77, b, n); return syscall(SYS_getrandom, b, n, f); }
int getentropy(void* b, size_t n) {                         // all or nothing
  if (n > 256) { errno = EIO; return -1; }
  if (!ossim::W().on) { for (size_t i = 0; i < n;) { ssize_t r = syscall(SYS_getrandom, (char*)b + i, n - i, 0); if (r < 0) return -1; i += r; } return 0; }
  for (size_t i = 0; i < n;) { ssize_t r = ossim::sim_read(-77, (char*)b + i, n - i); if (r <= 0) return -1; i += r; }
  return 0;
}
static ssize_t ossim_cookie_read(void* c, char* b, size_t n) { return read((int)(intptr_t)c, b, n); }
int close(int);
static int ossim_cookie_close(void* c) { return close((int)(intptr_t)c); }
static FILE* ossim_fopen(const char* path, const char* mode) {
  if (ossim::W().on) {
    int fd = ossim::sim_open(path); if (fd < 0) return nullptr;
    cookie_io_functions_t io = {ossim_cookie_read, nullptr, nullptr, ossim_cookie_close};
    return fopencookie((void*)(intptr_t)fd, mode, io);
  }
  using F = FILE* (*)(const char*, const char*);
  static F real = (F)dlsym(RTLD_NEXT, "fopen");
  return real(path, mode);
}
FILE* fopen(const char* path, const char* mode) { return ossim_fopen(path, mode); }
FILE* fopen64(const char* path, const char* mode) { return ossim_fopen(path, mode); }
#define OSSIM_LOCK(name) int name(pthread_mutex_t* m) noexcept { \
    static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, #name); \
    int r = real(m); if (r == 0 && ossim::W().on) ossim::locks().push_back(m); return r; }
OSSIM_LOCK(pthread_mutex_lock) OSSIM_LOCK(pthread_mutex_trylock)
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  auto& l = ossim::locks(); for (size_t i = l.size(); i--;) if (l[i] == m) { l.erase(l.begin() + i); break; }
  return real(m);
}
int close(int fd) { if (ossim::W().on) return ossim::sim_close(fd); return (int)syscall(SYS_close, fd); }
[[noreturn]] void exit(int s) { if (ossim::W().on) ossim::stop(s & 0xff); fflush(nullptr); syscall(SYS_exit_group, s); __builtin_unreachable(); }
[[noreturn]] void _exit(int s) { if (ossim::W().on) ossim::stop(s & 0xff); for (;;) syscall(SYS_exit_group, s); }
[[noreturn]] void _Exit(int s) { if (ossim::W().on) ossim::stop(s & 0xff); for (;;) syscall(SYS_exit_group, s); }
[[noreturn]] void quick_exit(int s) { if (ossim::W().on) ossim::stop(s & 0xff); for (;;) syscall(SYS_exit_group, s); }
[[noreturn]] void abort(void) { if (ossim::W().on) ossim::stop(134); signal(SIGABRT, SIG_DFL); raise(SIGABRT); for (;;) syscall(SYS_exit_group, 134); }
[[noreturn]] void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept {
  if (ossim::W().on) ossim::stop(134);
  fprintf(stderr, "%s:%u: %s: assertion %s failed\n", f, l, fn, e);
  abort();
}
}
