// C25: fingera_btc_key_new under every sequence of random draws and deliveries.
#include "ossim.hpp"
#include "ref.hpp"
#include <algorithm>
using namespace mc;
using namespace ossim;
static const std::vector<Bytes>& invalid() {
  static std::vector<Bytes> v;
  if (v.empty()) {
    Bytes n = ref::order(), f(32, '\xff'), n2 = n;
    v = {Bytes(32, 0), n, ref::add_int(n, 1), f, ref::add_int(n, 0x3a5c)};
    for (int i : {0, 15, 16, 23, 31}) { Bytes t = n; if ((uint8_t)t[i] < 255) t[i]++; else t[i - (i == 0 ? 0 : 1)] = '\xff'; if (!ref::valid_key(t)) v.push_back(t); }
    for (auto& x : v) if (ref::valid_key(x)) abort();
  }
  return v;
}
static const std::vector<Bytes>& valid() {
  static std::vector<Bytes> v;
  if (v.empty()) {
    Bytes one(32, 0), n = ref::order(); one[31] = 1;
    v = {one, ref::add_int(n, -1), ref::pattern(5, 32), ref::add_int(n, -0x41), Bytes(1, 1) + Bytes(31, 0), Bytes(31, '\xff').insert(0, "\x7f")};
    for (auto& x : v) if (!ref::valid_key(x)) abort();
  }
  return v;
}
// Generate a key while the source's stream is the concatenation of draws made by next()
static void generate(std::function<Bytes()> next, const char* what, int fault_budget) {
  key_init();
  World& w = W();
  static std::vector<Bytes> draws; draws.clear();
  w.budget = fault_budget; w.max_calls = 1 << 30;
  w.stream = [&](size_t i) -> uint8_t { while (draws.size() * 32 <= i) draws.push_back(next()); return (uint8_t)draws[i / 32][i % 32]; };
  Out o(32, choose(2) ? 0 : 0xE1); uint8_t* p = o.p();
  op(); bool r = run([&] { fingera_btc_key_new(p); });
  o.check("key_new"); checked();
  std::string t; for (size_t i = 0; i < draws.size() && i < 8; i++) t += hex(draws[i]) + " ";
  if (!r) {
    note("the process ended (status %d) after %zu draws", w.status, draws.size());
    if (w.status == 0) fail("key_new ended the process with status 0");
    if (!w.faults) fail("key_new ended the process without a failure of the source; draws %s", t.c_str());
    return;
  }
  if (!w.fds.empty()) fail("key_new left the random source open");
  Bytes got = o.str(); const Bytes* want = nullptr;
  size_t full = w.delivered.size() / 32;
  for (size_t i = 0; i < full && !want; i++) if (ref::valid_key(draws[i])) want = &draws[i];
  note("draws %s-> %s", t.c_str(), hex(got).c_str());
  if (!want) fail("key_new returned %s although no draw was valid; draws %s", hex(got).c_str(), t.c_str());
  if (got != *want) fail("key_new returned %s, the first valid draw is %s; draws %s (%s)", hex(got).c_str(), hex(*want).c_str(), t.c_str(), what);
}
static void define() {
  int D = pick(3, 4);
  add("draw-sequences", 6, [D](long u) {
    reset(0); W().fancy = false; static int left; left = D;
    static const int cuts[] = {32, 1, 31, 16, 7, 3}; int c = cuts[u]; W().chunk = [c](size_t m) -> int { return (int)((size_t)c < m ? c : m); };
    generate([] { int ni = left > 0 ? (int)invalid().size() : 0, k = choose(ni + (int)valid().size()); left--; return k < ni ? invalid()[k] : valid()[k - ni]; }, "all sequences", 0);
  }, "all sequences of up to 3 (thorough 4) invalid draws and a valid one, six ways of cutting reads");
  add("deliveries", 4, [](long u) {
    reset(0); W().fancy = false; static int i; i = 0; static long uu; uu = u;
    W().chunk = [](size_t m) -> int {           // free choices at the first two reads of a draw, then all the rest
      World& w = W(); size_t into = w.delivered.size() % 32; static int nth; if (into == 0) nth = 0; 
      if (nth++ >= 2) return (int)m;
      int nf = w.budget > 0 ? 3 : 0; std::vector<int> l; for (size_t k : {m, (size_t)1, m / 2, m - 1}) if (k && std::find(l.begin(), l.end(), (int)k) == l.end()) l.push_back((int)k);
      int c = choose((int)l.size() + nf); if (c < (int)l.size()) return l[c];
      w.budget--; w.faults++; c -= (int)l.size(); if (c == 0) return 0; errno = c == 1 ? EIO : EINTR; return -1;
    };
    generate([] { int k = i++; return k == 0 ? invalid()[uu] : k == 1 ? invalid()[(uu + 1) % 4] : valid()[2]; }, "deliveries", 2);
  }, "two invalid draws and a valid one: the first two reads of each draw cut at 1, half, n-1, up to two errors or ends of file");
  add("many-invalid", 44, [](long u) {
    reset(0); W().fancy = false; W().chunk = [](size_t m) -> int { return (int)m; };
    static const long ns[] = {1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4096, 10000, 65536, 70000, 100001, 1000001, (1 << 20) + 1, 3000000};
    long n = ns[u]; int mix = n > 70000 ? u % 3 : choose(4); static long i; i = 0; static long nn; static int m; nn = n; m = mix;
    generate([] { long k = i++; if (k >= nn) return valid()[2]; return invalid()[m < 3 ? m : k % 4]; }, "many invalid draws", 0);
  }, "1 to 3000000 invalid draws in a row");
  add("near-order", 256, [](long b) {
    reset(0); W().fancy = false; W().chunk = [](size_t m) -> int { return (int)m; };
    static Bytes d; int dir = choose(4); d = ref::order();
    if (dir == 0) d[b / 8] ^= 1 << b % 8;
    else if (dir == 1) { d = Bytes(32, 0); d[b / 8] = (char)(1 << b % 8); }
    else if (dir == 2) d = ref::add_int(ref::order(), -(long)(b + 1));
    else d = ref::add_int(ref::order(), (long)b);
    static int i; i = 0;
    generate([] { return i++ == 0 ? d : valid()[2]; }, "around the order", 0);
  }, "first draws that differ from the order in one bit, have one bit set, or lie within 256 of the order");
}
int main(int c, char** v) { return run(c, v, "C25", define, {"OpenSSL's group order", "draws are consecutive 32-byte pieces of what the source delivers"}); }
