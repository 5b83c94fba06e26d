// C28: the endian helpers at every offset, for every value of every byte in every position.
#include "api.hpp"
#include "ref.hpp"
extern "C" {
#include <fingera_libc/endian.h>
}
using namespace mc;
static const int OFF = 64;
static uint64_t value(const uint8_t* p, int n, bool big) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << 8 * (big ? n - 1 - i : i); return v; }
// The library's helpers behind calls the optimiser cannot see through.
static uint32_t (*volatile rl32)(const void*) = read_little_32; static uint32_t (*volatile rb32)(const void*) = read_big_32;
static uint64_t (*volatile rl64)(const void*) = read_little_64; static uint64_t (*volatile rb64)(const void*) = read_big_64;
static void (*volatile wl32)(void*, uint32_t) = write_little_32; static void (*volatile wb32)(void*, uint32_t) = write_big_32;
static uint32_t (*volatile l32)(const void*, size_t) = le32; static uint32_t (*volatile b32)(const void*, size_t) = be32;
static uint64_t (*volatile l64)(const void*, size_t) = le64; static uint64_t (*volatile b64)(const void*, size_t) = be64;
static void one(const Bytes& content, int off) {       // content: 8 bytes placed at off
  alignas(128) uint8_t m[128]; for (int i = 0; i < 128; i++) m[i] = Out::canary(i);
  memcpy(m + off, content.data(), 8);
  uint8_t before[128]; memcpy(before, m, 128);
  const uint8_t* p = m + off;
  auto e = [&](const char* f, uint64_t got, uint64_t want) { checked(); if (got != want) fail("%s at offset %d of bytes %s gives %llx, should be %llx", f, off, hex(content).c_str(), (unsigned long long)got, (unsigned long long)want); };
  op(8);
  e("read_little_32", rl32(p), value(p, 4, false)); e("read_big_32", rb32(p), value(p, 4, true));
  e("read_little_64", rl64(p), value(p, 8, false)); e("read_big_64", rb64(p), value(p, 8, true));
  e("le32", l32(m, off), value(p, 4, false)); e("be32", b32(m, off), value(p, 4, true));
  e("le64", l64(m, off), value(p, 8, false)); e("be64", b64(m, off), value(p, 8, true));
  e("le32+4", l32(p, 4), value(p + 4, 4, false)); e("be32+4", b32(p, 4), value(p + 4, 4, true));
  if (memcmp(before, m, 128)) fail("a read changed memory");
  for (int big = 0; big < 2; big++) {
    uint32_t v = (uint32_t)value(p, 4, big); alignas(128) uint8_t t[128]; for (int i = 0; i < 128; i++) t[i] = Out::canary(i);
    op(); if (big) wb32(t + off, v); else wl32(t + off, v);
    checked();
    for (int i = 0; i < 128; i++) {
      uint8_t w = i >= off && i < off + 4 ? p[i - off] : Out::canary(i);
      if (t[i] != w) fail("write_%s_32(%08x) at offset %d: byte %d is %02x, should be %02x", big ? "big" : "little", v, off, i - off, t[i], w);
    }
  }
}
static void define() {
  add("bytes", 256, [](long v) { int pos = choose(8), bg = choose(4), off = choose(OFF); static const uint8_t b[] = {0, 0xff, 0x80, 0x5a}; Bytes c(8, (char)b[bg]); c[pos] = (char)v; note("byte %02lx at %d, offset %d", v, pos, off); one(c, off); }, "every byte value at every position, 4 backgrounds, 64 offsets");
  add("pairs", 256, [](long v) { int p = choose(8), q = choose(8); if (q == p) return; for (int w = 0; w < 256; w++) { Bytes c = ref::pattern(2, 8); c[p] = (char)v; c[q] = (char)w; one(c, (int)(v % 16)); } inner(256, 255); }, "every pair of byte values at every pair of positions");
  add("patterns", pick(2000, 40000), [](long i) { one(ref::sha256("e" + std::to_string(i)).substr(0, 8), choose(64)); }, "thousands of words at 64 offsets");
  add("addresses", 4096, [](long a) {                   // every address of a page; the values begin and end where accessible memory does, or straddle two pages
    static uint8_t* m = nullptr; if (!m) { m = (uint8_t*)mmap(0, 4 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED || mprotect(m + 4096, 8192, PROT_READ | PROT_WRITE)) fail("no address space"); }
    static const uint8_t w[3][8] = {{0x80, 0x7f, 0xff, 0, 1, 0xfe, 0x81, 0x5a}, {0xff, 0xfe, 0xfd, 0xfc, 0xfb, 0xfa, 0xf9, 0xf8}, {0, 1, 2, 3, 4, 5, 6, 7}};
    int k = choose(3), where = choose(3);
    long off = where == 0 ? a : where == 1 ? 8192 - 8 - a % 64 : 8192 - 4 - a % 64; bool wide = where < 2;
    uint8_t* p = m + 4096 + off; for (int i = 0; i < 8192; i++) m[4096 + i] = Out::canary(i);
    memcpy(p, w[k], wide ? 8 : 4); op(8); checked();
    note("bytes %s at page offset %ld", hex(p, wide ? 8 : 4).c_str(), off);
    if (rl32(p) != value(p, 4, false) || rb32(p) != value(p, 4, true) || l32(p - 16, 16) != value(p, 4, false) || b32(p - 16, 16) != value(p, 4, true)) fail("a 32-bit read at page offset %ld is wrong", off);
    if (wide && (rl64(p) != value(p, 8, false) || rb64(p) != value(p, 8, true) || l64(p - 16, 16) != value(p, 8, false) || b64(p - 16, 16) != value(p, 8, true))) fail("a 64-bit read at page offset %ld is wrong", off);
    for (int big = 0; big < 2; big++) {
      for (int i = 0; i < 4; i++) p[i] = 0xCC;
      if (big) wb32(p, (uint32_t)value(w[k], 4, true)); else wl32(p, (uint32_t)value(w[k], 4, false));
      if (memcmp(p, w[k], 4)) fail("a %s write at page offset %ld leaves %s", big ? "big-endian" : "little-endian", off, hex(p, 4).c_str());
      for (int i = 0; i < 8192; i++) if (m[4096 + i] != (i >= off && i < off + (wide ? 8 : 4) ? w[k][i - off] : Out::canary(i))) fail("a %s write at page offset %ld changes the byte at %d", big ? "big-endian" : "little-endian", off, i);
    }
  }, "every address of a page, and values at the very end of accessible memory");
  add("far-offsets", 27 * 4, [](long u) { size_t o = (size_t)1 << (6 + u / 4); o += (size_t)(u % 4 == 0 ? -1 : u % 4 == 1 ? 0 : u % 4 == 2 ? 5 : -7); size_t n = o + 4096;
      uint8_t* m = (uint8_t*)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) fail("no address space");
      for (int i = 0; i < 8; i++) m[o + i] = 0x11 * (i + 1); op(4); checked(); note("offset %zu", o);
      if (l32(m, o) != value(m + o, 4, false) || b32(m, o) != value(m + o, 4, true) || l64(m, o) != value(m + o, 8, false) || b64(m, o) != value(m + o, 8, true)) fail("a read at offset %zu is wrong", o);
      munmap(m, n); }, "offsets around every power of two from 2^6 to 2^32");
}
int main(int c, char** v) { return run(c, v, "C28", define, {"a little-endian machine (the only one here)"}); }
