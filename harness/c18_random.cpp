// C18: fingera_os_rand_bytes (and its callers' use of it) under every sequence of results of open/read/close.
#include "ossim.hpp"
using namespace mc;
using namespace ossim;
static void finish(const char* what, bool returned) {
  World& w = W();
  checked();
  if (!returned) {
    note("process ended with status %d", w.status);
    if (w.status == 0) fail("%s ended the process with status 0 after a failure of the random source", what);
    if (w.faults == 0 && !w.persistent) fail("%s ended the process although the source did not fail", what);
    return;
  }
  if (!w.fds.empty()) fail("%s returned with the source still open (%zu descriptors)", what, w.fds.size());
}
static void request(size_t n, uint8_t fill) {
  World& w = W(); Out o(n, fill);
  uint8_t* p = o.p();
  op();
  bool r = run([&] { fingera_os_rand_bytes(p, n); });
  o.check("os_rand_bytes");
  note("request of %zu: %d opens, %d reads, %d closes", n, w.opens, w.reads, w.closes);
  finish("os_rand_bytes", r);
  if (!r) return;
  if (w.delivered.size() < n) fail("a request for %zu bytes returned after the source gave only %zu", n, w.delivered.size());
  for (size_t i = 0; i < n; i++) if (p[i] != (uint8_t)w.delivered[i])
    fail("byte %zu of %zu is %02x, the source delivered %02x (buffer %s, delivered %s)", i, n, p[i], (uint8_t)w.delivered[i], hex(p, n, 80).c_str(), hex(w.delivered, 80).c_str());
}
// A request in a world that has seen others: its bytes must be those the source gives during this very call.
static void later_request(size_t n, const char* where) {
  World& w = W(); Out o(n, 0xE1); uint8_t* p = o.p(); size_t from = w.delivered.size();
  op(); bool r = run([&] { fingera_os_rand_bytes(p, n); });
  o.check("os_rand_bytes"); finish("os_rand_bytes", r);
  if (!r) return;
  note("%s: request of %zu took %zu bytes from the source", where, n, w.delivered.size() - from);
  if (w.delivered.size() - from < n) fail("%s: a request for %zu bytes returned after the source gave only %zu during it", where, n, w.delivered.size() - from);
  for (size_t i = 0; i < n; i++) if (p[i] != (uint8_t)w.delivered[from + i])
    fail("%s: byte %zu of %zu is %02x, the source gave %02x during this call (buffer %s)", where, i, n, p[i], (uint8_t)w.delivered[from + i], hex(p, n, 80).c_str());
}
static void forked_request(size_t n) {                  // the same in a forked process, whose source gives other bytes
  static char* msg = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  msg[0] = 0; fflush(nullptr);
  pid_t c = fork(); if (c < 0) { note("no process"); return; }
  if (c == 0) {
    auto old = W().stream; W().stream = [old](size_t i) { return (uint8_t)(old(i) ^ 0x5a); };
    bool bad = false; std::string why;
    try { later_request(n, "forked process"); } catch (...) { bad = true; }
    syscall(SYS_exit_group, bad ? 3 : 0);
  }
  int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
  checked();
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) fail("in a forked process a request for %zu bytes does not get the source's bytes (status %d)", n, st);
}
static void define() {
  add("histories", 6 * 6, [](long u) {
    static const size_t ns[] = {1, 16, 32, 33, 64, 300}; reset(0); W().fancy = false; W().splits = 1;
    for (int k = 0; k < pick(3, 4); k++) {
      size_t n = k == 0 ? ns[u % 6] : k == 1 ? ns[u / 6] : ns[choose(6)];
      if (k == pick(2, 3) && choose(2)) forked_request(n); else later_request(n, "this process");
    } }, "3 (thorough 4) requests of 1..300 bytes in a row, one of them cut once, the last also in a forked process");
  add("many-requests", 4, [](long u) {
    static const size_t ns[] = {1, 32, 33, 64}; reset(0); World& w = W(); w.fancy = false; w.max_calls = 1 << 30; w.chunk = [](size_t m) -> int { return (int)m; };
    for (int k = 0; k < 70000; k++) { w.delivered.clear(); w.stream = [k](size_t i) { return (uint8_t)((k + 1) * 2654435761u >> 13 ^ i * 29); }; later_request(ns[u], "one of many"); } }, "70000 requests in a row");
  int small = pick(6, 8);
  add("all-schedules", small + 1, [](long n) { reset(3); W().all_lengths = true; request(n, choose(2) ? 0 : 0xE1); }, "requests of 0.." + std::to_string(small) + " bytes: every length of every read, end of file, EIO, EINTR, EAGAIN at every read (up to 3 faults), every open and close result");
  add("clean-schedules", pick(11, 15), [](long n) { reset(0); W().fancy = false; W().all_lengths = true; request(n, 0xE1); }, "every way of cutting requests of up to 10 (thorough 14) bytes into reads");
  add("sizes", pick(300, 1200), [](long n) { reset(n < 80 ? 2 : 1); W().fancy = false; W().splits = pick(9, 12); W().splits_after_fault = 1;
      if (n >= 80) { static const size_t cut[] = {0, 1, 7, 31, 32, 33, 64}; int c = choose(8); size_t k = c < 7 ? cut[c] : n - 1; int f = choose(3); W().chunk = [k, f](size_t m) -> int { World& w = W(); if (w.reads == 2 && f && w.budget) { w.budget--; w.faults++; if (f == 1) return 0; errno = EIO; return -1; } return (int)(k && k < m ? k : m); }; }
      request(n, 0); }, "requests of up to 300 (thorough 1200) bytes: up to 9 (thorough 12) representative cuts and two faults below 80 bytes (one cut after a fault), one cut size and one fault above");
  static const size_t big[] = {4095, 4096, 4097, 65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 24) + 3};
  add("large", 9, [](long i) { reset(1); W().fancy = false; W().max_calls = 1 << 30; static const size_t cut[] = {0, 255, 256, 4096, 65536, 32767}; size_t k = cut[choose(6)]; int f = choose(3); int at = 1 + choose(3);
      W().chunk = [k, f, at](size_t m) -> int { World& w = W(); if (w.reads == at && f && w.budget) { w.budget--; w.faults++; if (f == 1) return 0; errno = EIO; return -1; } return (int)(k && k < m ? k : m); };
      size_t n = big[i]; if (n > (1 << 20) && k < 4096 && k) return; request(n, 0xE1); }, "requests up to 16 MiB with cuts of 255..65536 bytes and a fault at the 1st, 2nd or 3rd read");
  add("persistent", 3 * 6, [](long u) { static const size_t ns[] = {1, 2, 31, 32, 64, 5000}; reset(0); W().persistent = 1 + u % 3; size_t n = ns[u / 3]; Out o(n); uint8_t* p = o.p(); op();
      bool r = run([&] { fingera_os_rand_bytes(p, n); }); o.check("os_rand_bytes"); checked(); note("persistent failure %ld", u % 3);
      if (r) fail("a request for %zu bytes returned although the source never gave any", n);
      if (W().status == 0) fail("ended with status 0"); }, "a source that fails for ever: the process ends");
  static const uint64_t giant[] = {0x7ffff000ull, 0x80000005ull, 0x100000000ull, 0x100000003ull};
  add("beyond-4GiB", 4, [](long i) { reset(0); World& w = W(); w.fancy = false; w.giant = true; uint64_t n = giant[i]; w.total = n; w.max_calls = 1 << 26;
      uint8_t* p = (uint8_t*)mmap(0, n + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p == MAP_FAILED) fail("no address space");
      int c = choose(3); w.chunk = [c](size_t m) -> int { return c == 0 ? (int)m : c == 1 ? (int)(m > 0x10000000 ? 0x10000000 : m) : (int)(m > 0x3fffffff ? 0x3fffffff : m); };
      op(); bool r = run([&] { fingera_os_rand_bytes(p, n); });
      note("request of %llu in %d reads", (unsigned long long)n, w.reads);
      finish("os_rand_bytes", r);
      if (r) {
        if (w.pos < n) { munmap(p, n + 8192); fail("a request for %llu bytes returned after the source gave only %llu", (unsigned long long)n, (unsigned long long)w.pos); }
        for (uint64_t q : w.probes) if (q < n && p[q] != w.stream(q)) { munmap(p, n + 8192); fail("byte %llu of a %llu-byte request is not the source's", (unsigned long long)q, (unsigned long long)n); }
        for (int k = 0; k < 8192; k++) if (p[n + k]) { munmap(p, n + 8192); fail("wrote past a %llu-byte request", (unsigned long long)n); }
      }
      munmap(p, n + 8192); }, "requests of 2^31 and 2^32 bytes and a few more, in reads of at most 2^31 bytes");
  add("key-init", 4, [](long u) { reset(u < 2 ? 1 : 2); World& w = W(); w.fancy = u & 1; w.splits = pick(9, 12); w.splits_after_fault = 1; op(2);
      bool r = run([] { fingera_btc_key_init(); });
      finish("key_init", r);
      if (r) {
        if (w.delivered.size() < 32) fail("key_init took only %zu bytes", w.delivered.size());
        uint8_t k[32] = {0}, p[64]; k[31] = 1; fingera_btc_key_get_pub(k, p); fingera_btc_key_uninit();
      } else { /* the contexts were made before the source failed: a real process is gone */ reset(0); bool ok = ossim::run([] { fingera_btc_key_uninit(); }); (void)ok; } }, "key_init under short reads and up to two faults");
}
int main(int c, char** v) { return run(c, v, "C18", define, {"the operating system's interface is open/openat/read/readv/close; exit, _exit, abort and assertion failures end a process"}); }
