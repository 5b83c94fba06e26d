// C24: fingera_hex_dump, captured from standard output, against the layout.
#include "api.hpp"
#include "ref.hpp"
#include <setjmp.h>
#include <sys/resource.h>
#include <time.h>
using namespace mc;
static Bytes layout(const Bytes& b, bool upper) {
  const char* d = upper ? "0123456789ABCDEF" : "0123456789abcdef"; Bytes r;
  for (size_t i = 0; i < b.size(); i++) {
    if (i) { if (i % 4 == 0) r += ' '; if (i % 8 == 0) r += ' '; if (i % 16 == 0) r += ' '; if (i % 32 == 0) r += '\n'; }
    r += d[(uint8_t)b[i] >> 4]; r += d[(uint8_t)b[i] & 15];
  }
  return r + "\n";
}
static int tmp = -1;
static void capture_begin() {
  if (tmp < 0) { tmp = memfd_create("out", 0); fflush(stdout); dup2(tmp, 1); rlimit lim = {256 << 20, 256 << 20}; setrlimit(RLIMIT_FSIZE, &lim); }    // output without end ends in SIGXFSZ
  fflush(stdout); ftruncate(tmp, 0); lseek(tmp, 0, SEEK_SET);
}
static Bytes capture_end() { fflush(stdout); off_t n = lseek(tmp, 0, SEEK_END); Bytes r(n, 0); if (n) pread(tmp, &r[0], n, 0); return r; }
// mode: buffering of standard output
static void set_mode(int mode) {
  static char small[16], mid[1024], big[1 << 16]; fflush(stdout);
  switch (mode) { case 0: setvbuf(stdout, nullptr, _IONBF, 0); break; case 1: setvbuf(stdout, mid, _IOLBF, sizeof mid); break; case 2: setvbuf(stdout, small, _IOFBF, sizeof small); break; default: setvbuf(stdout, big, _IOFBF, sizeof big); }
}
static void dump(const Bytes& b, int up, int mode) {
  capture_begin(); set_mode(mode);
  Bytes c = b; std::vector<char> exact(c.begin(), c.end());
  fputs("<<", stdout);
  op(); fingera_hex_dump(exact.data(), exact.size(), up);
  fputs(">>", stdout);
  Bytes got = capture_end(), want = "<<" + layout(b, up != 0) + ">>"; checked();
  note("dump of %zu bytes, upper %d: %zu characters", b.size(), up, got.size());
  if (Bytes(exact.begin(), exact.end()) != b) fail("hex_dump changed its input");
  if (got != want) {
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    fail("hex_dump of %zu bytes (upper %d): %zu characters, should be %zu; first difference at %zu: %s instead of %s", b.size(), up, got.size() - 4, want.size() - 4, i,
         quote(got.substr(i, 40)).c_str(), quote(want.substr(i, 40)).c_str());
  }
}
// Beyond 4 GiB: standard output becomes a stream that compares as it goes. The buffer is zero but for marks.
struct Cmp { const uint8_t* b; uint64_t n; uint64_t row = 0; size_t at = 0; bool bad = false, slow = false; uint64_t count = 0; Bytes line; jmp_buf out;
  uint64_t rows() { return (n + 31) / 32; }
  bool done() { return row >= rows(); }
  void next() {                                           // the text of a row of 32 bytes, its separators first
    line.clear(); at = 0; if (done()) return;
    uint64_t from = row * 32, m = std::min<uint64_t>(32, n - from); static const uint8_t zero[32] = {0}; static Bytes blank;
    if (m == 32 && from && from + 32 < n && !blank.empty() && !memcmp(b + from, zero, 32)) { line = blank; return; }
    Bytes t = layout(Bytes((const char*)b + from, m), false); t.pop_back(); line = (from ? "   \n" : "") + t; if (from + m == n) line += '\n';
    if (from && m == 32 && from + 32 < n && !memcmp(b + from, zero, 32)) blank = line; } };
static ssize_t cmp_write(void* c, const char* p, size_t k) {
  Cmp& x = *(Cmp*)c;
  for (size_t j = 0; j < k && !x.bad;) {
    if (x.at == x.line.size()) { if (x.count) x.row++; x.next(); if (x.line.empty()) { x.bad = true; break; } }
    size_t m = std::min(k - j, x.line.size() - x.at); if (!memcmp(p + j, &x.line[x.at], m)) { x.at += m; x.count += m; j += m; continue; }
    while (p[j] == x.line[x.at]) { j++; x.at++; x.count++; } x.bad = true; }
  static int calls = 0; if (x.bad || (++calls % 64 == 0 && clock() > 100 * CLOCKS_PER_SEC)) { x.slow = !x.bad; longjmp(x.out, 1); }
  return (ssize_t)k; }
static void huge(uint64_t n) {
  uint8_t* b = (uint8_t*)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) fail("no address space");
  for (uint64_t i = 0; i < n; i += 0x1000001) b[i] = (uint8_t)(i >> 24 | 1); b[n - 1] = 0xa7;
  static Cmp c; c = Cmp(); c.b = b; c.n = n; cookie_io_functions_t io = {nullptr, cmp_write, nullptr, nullptr}; FILE* f = fopencookie(&c, "w", io), *old = stdout; setvbuf(f, nullptr, _IOFBF, 1 << 20);
  stdout = f; op(); if (setjmp(c.out) == 0) { fingera_hex_dump(b, n, 0); fflush(f); } stdout = old; checked(); note("dump of %llu bytes", (unsigned long long)n);
  munmap(b, n);
  if (c.slow) { note("right as far as it went in 100 s"); return; }
  if (c.bad || c.row + 1 != c.rows() || c.at < c.line.size()) fail("hex_dump of %llu bytes goes wrong at output character %llu", (unsigned long long)n, (unsigned long long)c.count);
}
static void define() {
  add("beyond-4GiB", 1, [](long) { huge(0x100000021ull); }, "2^32 + 33 bytes", 800);
  add("a-million", 2, [](long u) { huge(u ? 1 << 20 : (1 << 24) + 7); }, "2^20 and 2^24 + 7 bytes");
  int N = pick(3000, 12000);
  add("sizes", N + 1, [](long n) { static const int ups[] = {0, 1, 2, -1}; int p = choose(3); dump(ref::pattern(p == 0 ? 2 : p == 1 ? 5 : 1, n), ups[choose(2)], choose(4)); }, "all sizes to 3000 (thorough 12000), 3 contents, both cases, 4 bufferings of standard output");
  add("values", 256, [](long v) { static const int ups[] = {0, 1, 2, -1, 256, INT32_MIN}; int at = choose(70); Bytes b(70, '\x5c'); b[at] = (char)v; dump(b, ups[choose(6)], 3); }, "every byte value at every position of 70 bytes; any non-zero value of upper means upper case");
  add("pairs", 256, [](long v) { for (int w = 0; w < 256; w++) { Bytes b; b += (char)v; b += (char)w; dump(b, 0, 3); } inner(256, 255); }, "all two-byte buffers");
  add("large", pick(40, 400), [](long n) { dump(ref::pattern(5, 30000 + n * 997), (int)choose(2), choose(4)); }, "sizes to 70000");
}
int main(int c, char** v) { return run(c, v, "C24", define, {"standard output accepts every write"}); }
