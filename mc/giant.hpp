// More than 4 GiB of readable or writable address space backed by little memory.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
namespace giant {
// 8 GiB of pseudo-random bytes (one file mapped again and again; its size does not divide 2^32, so offsets that wrap read other bytes)
inline const uint8_t* get() {
  static const uint8_t* base = nullptr;
  if (base) return base;
  const size_t P = 63u << 20, N = (8ull << 30) + (128ull << 20);
  int fd = memfd_create("giant", 0);
  if (fd < 0 || ftruncate(fd, P)) { perror("memfd"); _exit(41); }
  uint64_t* w = (uint64_t*)mmap(0, P, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  uint64_t x = 88172645463325252ull;
  for (size_t i = 0; i < P / 8; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; w[i] = x; }
  uint8_t* b = (uint8_t*)mmap(0, N, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED) { perror("mmap"); _exit(41); }
  for (size_t o = 0; o + P <= N; o += P)
    if (mmap(b + o, P, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(41); }
  munmap(w, P); close(fd);
  return base = b;
}
// A read-only text repeated to `total` bytes; single pages can be made private and changed.
struct In {
  uint8_t* b; size_t room;
  In(const std::string& period, size_t total) {           // period: a multiple of the page size
    size_t P = period.size(), n = (total + P) / P + 1; room = n * P;
    int fd = memfd_create("in", 0);
    if (fd < 0 || ftruncate(fd, P) || pwrite(fd, period.data(), P, 0) != (ssize_t)P) { perror("memfd"); _exit(41); }
    b = (uint8_t*)mmap(0, room, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t i = 0; i < n; i++) if (mmap(b + i * P, P, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(41); }
    close(fd);
  }
  void set(size_t at, const std::string& s) {
    size_t a = at & ~4095ull, e = (at + s.size() + 4095) & ~4095ull;
    mprotect(b + a, e - a, PROT_READ | PROT_WRITE); memcpy(b + at, s.data(), s.size()); mprotect(b + a, e - a, PROT_READ);
  }
  ~In() { munmap(b, room); }
};
// Writable room for `total` bytes whose content repeats: ordinary positions share memory, while the
// windows (front, around 2^31 and 2^32, end) are private pages, so that what was written there is known.
struct OutMap {
  uint8_t* b; size_t room, total; std::vector<std::pair<size_t, size_t>> win;
  OutMap(size_t P, size_t total_) : total(total_) {
    const size_t W = 1 << 18; size_t n = total / P + 2; room = n * P;
    int fd = memfd_create("out", 0);
    if (fd < 0 || ftruncate(fd, P)) { perror("memfd"); _exit(41); }
    b = (uint8_t*)mmap(0, room, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t i = 0; i < n; i++) if (mmap(b + i * P, P, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(41); }
    close(fd);
    auto window = [&](size_t lo, size_t hi) {
      lo &= ~4095ull; hi = std::min((hi + 4095) & ~4095ull, (total + 8192) & ~4095ull); if (lo >= hi) return;
      mmap(b + lo, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); memset(b + lo, 0xE1, hi - lo);
      win.push_back({lo, std::min(hi, total)});
    };
    window(0, W);
    for (uint64_t e : {1ull << 29, 1ull << 30, 1ull << 31, 1ull << 32, 1ull << 33}) if (e < total) window(e - W, e + W);
    window(total > 2 * W ? total - W : 0, total + 4096);
  }
  bool clean_behind() const { for (size_t i = total; i < total + 4096; i++) if (b[i] != 0xE1) return false; return true; }
  ~OutMap() { munmap(b, room); }
};
}  // namespace giant
