// C03: hash160, hash256, the 64-byte block function (merkle step), bip32 hash.
#include "api.hpp"
#include "ref.hpp"
#include "giant.hpp"
using namespace mc;

static void hash_both(const Bytes& m) {
  Out o(20), p(32);
  Tail c(m);
  call(fingera_btc_hash160, (const void*)c.data(), c.size(), (void*)o.p());
  call(fingera_btc_hash256, (const void*)c.data(), c.size(), (void*)p.p());
  o.check("hash160"); p.check("hash256");
  if (c != m) fail("hash160/256 changed its input");
  note("hash160(%zu bytes) = %s", m.size(), hex(o.str()).c_str());
  expect("hash160", o.str(), ref::hash160(m), m);
  expect("hash256", p.str(), ref::hash256(m), m);
}
static Bytes blocks_ref(const Bytes& in) { Bytes r; for (size_t i = 0; i + 64 <= in.size(); i += 64) r += ref::hash256(in.substr(i, 64)); return r; }

static void define() {
  int N = pick(1300, 6000);
  add("hash160-hash256", N + 1, [](long len) { hash_both(ref::pattern(choose(ref::NPAT), len)); }, "every length 0.." + std::to_string(N) + " x 7 contents");
  add("one-byte-differs", 200, [](long u) {
    Bytes m = ref::pattern(5, u + 1); m[choose((int)u + 1)] ^= 1 << choose(8); hash_both(m);
  }, "every length 1..200, every bit flipped");
  add("d64-one-block", 512, [](long bit) {
    Bytes m = ref::pattern(choose(ref::NPAT), 64); m[bit / 8] ^= 1 << (bit % 8);
    Out o(32); Bytes c = m;
    call(fingera_btc_hash256_d64, (void*)o.p(), (const void*)c.data(), (size_t)1);
    o.check("hash256_d64");
    if (c != m) fail("hash256_d64 changed its input");
    note("d64(%s) = %s", hex(m).c_str(), hex(o.str()).c_str());
    expect("hash256_d64", o.str(), ref::hash256(m), m);
  }, "every bit of a block flipped in 7 contents");
  int B = pick(70, 300);
  add("d64-blocks", B + 1, [](long n) {
    int pat = choose(ref::NPAT), mode = choose(4);     // 0 separate, 1 in place, 2 output before input (overlapping forward), 3 output = input + 0 with slack
    Bytes in = ref::pattern(pat, n * 64);
    Bytes want = blocks_ref(in);
    if (mode == 0) {
      Out o(n * 32); Bytes c = in;
      call(fingera_btc_hash256_d64, (void*)o.p(), (const void*)c.data(), (size_t)n);
      o.check("hash256_d64");
      if (c != in) fail("hash256_d64 changed its input");
      expect("hash256_d64", o.str(), want, in);
    } else if (mode == 1) {
      Out o(n * 64); memcpy(o.p(), in.data(), in.size());
      call(fingera_btc_hash256_d64, (void*)o.p(), (const void*)o.p(), (size_t)n);
      o.check("hash256_d64 in place");
      note("in place %ld blocks", n);
      expect("hash256_d64 in place", o.str(n * 32), want, in);
      if (o.str().substr(n * 32) != in.substr(n * 32)) fail("hash256_d64 in place of %ld blocks wrote behind its %ld output bytes", n, n * 32);
    } else if (mode == 2) {
      size_t lead = 32;                                 // output starts one digest before the input
      Out o(n * 64 + lead); memcpy(o.p() + lead, in.data(), in.size());
      call(fingera_btc_hash256_d64, (void*)o.p(), (const void*)(o.p() + lead), (size_t)n);
      o.check("hash256_d64 overlapping");
      expect("hash256_d64 overlapping", o.str(n * 32), want, in);
    } else {                                            // block by block gives the same as all at once
      Out o(n * 32);
      for (long i = 0; i < n; i++) call(fingera_btc_hash256_d64, (void*)(o.p() + 32 * i), (const void*)(in.data() + 64 * i), (size_t)1);
      o.check("hash256_d64");
      expect("hash256_d64 one by one", o.str(), want, in);
    }
  }, "0.." + std::to_string(B) + " blocks x 7 contents x separate / in place / overlapping / one by one");
  static const std::vector<long> BIG = {127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131073, 262145};
  add("d64-many-blocks", (long)BIG.size(), [](long u) {
    long n = BIG[u]; bool inplace = choose(2); Bytes in = ref::pattern(5, n * 64), want = blocks_ref(in);
    Out o(n * (inplace ? 64 : 32)); const void* src = in.data(); Bytes keep = in;
    if (inplace) { memcpy(o.p(), in.data(), in.size()); src = o.p(); }
    call(fingera_btc_hash256_d64, (void*)o.p(), src, (size_t)n);
    o.check("hash256_d64"); checked();
    note("%ld blocks%s", n, inplace ? " in place" : "");
    if (in != keep) fail("hash256_d64 changed its input");
    for (long i = 0; i < n; i++) if (memcmp(o.p() + 32 * i, &want[32 * i], 32)) fail("hash256_d64 of %ld blocks%s: digest %ld is %s, the model says %s", n, inplace ? " in place" : "", i, hex(Bytes((char*)o.p() + 32 * i, 32)).c_str(), hex(want.substr(32 * i, 32)).c_str());
    if (inplace && memcmp(o.p() + 32 * n, &in[32 * n], 32 * n)) fail("hash256_d64 in place of %ld blocks wrote behind its output", n);
  }, "up to 262145 blocks at once, apart and in place", 200);
  add_patient("d64-giant", 1, [](long) {          // 2^26 + 3 blocks: 4 GiB in, 2 GiB out
    size_t n = (1ull << 26) + 3; const uint8_t* p = giant::get(); giant::OutMap o(32 << 20, n * 32);
    call(fingera_btc_hash256_d64, (void*)o.b, (const void*)p, n);
    checked();
    for (auto& w : o.win) for (size_t i = w.first / 32; i * 32 + 32 <= w.second; i++) { Bytes d = ref::hash256(Bytes((const char*)p + 64 * i, 64)); if (memcmp(o.b + 32 * i, d.data(), 32)) fail("hash256_d64 of %zu blocks: digest %zu is wrong", n, i); }
    if (!o.clean_behind()) fail("hash256_d64 wrote behind its output");
  }, "4 GiB of blocks at once", 250);
  int F = pick(130, 520);
  add("merkle-fold", F, [](long u) {
    long n = u + 1; Bytes leaves = ref::pattern(choose(ref::NPAT), n * 32);
    // reference tree, last one duplicated on odd levels
    std::vector<Bytes> lv; for (long i = 0; i < n; i++) lv.push_back(leaves.substr(32 * i, 32));
    while (lv.size() > 1) { if (lv.size() & 1) lv.push_back(lv.back()); std::vector<Bytes> nx; for (size_t i = 0; i < lv.size(); i += 2) nx.push_back(ref::hash256(lv[i] + lv[i + 1])); lv = nx; }
    Out o((n + 1) * 32); memcpy(o.p(), leaves.data(), leaves.size());
    long k = n;
    while (k > 1) {
      if (k & 1) { memcpy(o.p() + 32 * k, o.p() + 32 * (k - 1), 32); k++; }
      call(fingera_btc_hash256_d64, (void*)o.p(), (const void*)o.p(), (size_t)(k / 2));
      k /= 2;
    }
    o.check("merkle fold");
    note("%ld leaves, root %s", n, hex(o.str(32)).c_str());
    expect("merkle root folded in place", o.str(32), lv[0], leaves);
  }, "trees of 1.." + std::to_string(F) + " leaves folded level by level in place x 7 contents");
  add("bip32-hash", 256, [](long header) {
    static const std::vector<uint32_t> child = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x01020304, 0x7fffffff, 0x80000000, 0x80000001, 0xdeadbeef, 0xfffffffe, 0xffffffff};
    Bytes cc = ref::pattern(choose(ref::NPAT), 32), d = ref::pattern(choose(ref::NPAT) ^ 1, 32); uint32_t ch = choose_of(child);
    int alias = choose(3);
    Bytes want = ref::hmac512(cc, Bytes(1, (char)header) + d + ref::be32(ch));
    Out o(64);
    const void* pc = cc.data(); const void* pd = d.data();
    if (alias == 1) { memcpy(o.p(), cc.data(), 32); pc = o.p(); }
    if (alias == 2) { memcpy(o.p() + 32, d.data(), 32); pd = o.p() + 32; }
    call(fingera_btc_bip32_hash, pc, ch, (uint8_t)header, pd, (void*)o.p());
    o.check("bip32_hash");
    note("bip32_hash header %ld child %u alias %d = %s", header, ch, alias, hex(o.str()).c_str());
    expect("bip32_hash", o.str(), want, cc + Bytes(1, (char)header) + d + ref::be32(ch));
  }, "256 header bytes x 7 x 7 contents x 15 child numbers x output apart / over the chain code / over the data");
  add("bip32-child-bits", 32, [](long bit) {
    uint32_t ch = 1u << bit; if (choose(2)) ch = ~ch;
    Bytes cc = ref::pattern(5, 32), d = ref::pattern(6, 32); int at = choose(65);
    if (at < 32) cc[at] ^= 0x41; else if (at < 64) d[at - 32] ^= 0x41;
    Out o(64);
    call(fingera_btc_bip32_hash, (const void*)cc.data(), ch, (uint8_t)3, (const void*)d.data(), (void*)o.p());
    o.check("bip32_hash");
    expect("bip32_hash", o.str(), ref::hmac512(cc, Bytes(1, 3) + d + ref::be32(ch)), cc + d + ref::be32(ch));
  }, "every bit of the child number, every byte of chain code and data deviating");
  add_patient("giant", 2, [](long u) {
    uint64_t len = (1ull << 32) + 65; const uint8_t* p = giant::get(); uint8_t h[32]; SHA256(p, len, h); Bytes first((char*)h, 32);
    Out o(32);
    if (u) { call(fingera_btc_hash160, (const void*)p, (size_t)len, (void*)o.p()); expect("hash160 of 4 GiB", o.str(20), ref::ripemd160(first), first); }
    else { call(fingera_btc_hash256, (const void*)p, (size_t)len, (void*)o.p()); expect("hash256 of 4 GiB", o.str(), ref::sha256(first), first); }
  }, "a message longer than 4 GiB", 250);
}
int main(int c, char** v) { return run(c, v, "C03", define, {"OpenSSL digests implement FIPS 180-4 and RIPEMD-160"}); }
