// C09: varint and zigzag as a canonical, prefix-free bijection on 64 bits.
#include "api.hpp"
#include "ref.hpp"
using namespace mc;

static void value(uint64_t v, bool all_sizes) {
  Bytes want = ref::varint(v); Out o(10);
  size_t n = call(fingera_encode_varint, v, (void*)o.p());
  o.check("encode_varint");
  checked();
  if (n > 10 || o.str(n) != want) fail("encode_varint(%llu) = %s, the model says %s", (unsigned long long)v, hex(o.str(std::min(n, (size_t)10))).c_str(), hex(want).c_str());
  note("varint %llu = %s", (unsigned long long)v, hex(want).c_str());
  for (size_t size = all_sizes ? 0 : n; size <= n + 3; size++) {
    Bytes b = want + "\x80\xff\x00"; uint64_t got = 0x1122334455667788ull;
    b.resize(b.size() < size ? size : b.size(), 'x');
    size_t r = call(fingera_decode_varint, (const void*)b.data(), size, &got);
    checked();
    if (size < n) { if (r) fail("decode_varint accepted %zu of the %zu bytes of %llu", size, n, (unsigned long long)v); }
    else if (r != n || got != v) fail("decode_varint of %s (size %zu): used %zu value %llu, expected %zu and %llu", hex(b).c_str(), size, r, (unsigned long long)got, n, (unsigned long long)v);
  }
}
static void zig(int64_t v) {
  Out o(10); size_t n = call(fingera_encode_zigzag, v, (void*)o.p()); o.check("encode_zigzag");
  Bytes e = o.str(std::min(n, (size_t)10)); int64_t got = v ^ 0x5555;
  note("zigzag %lld = %s", (long long)v, hex(e).c_str());
  checked();
  if (n < 1 || n > 10) fail("encode_zigzag(%lld) used %zu bytes", (long long)v, n);
  for (size_t size = 0; size <= n + 2; size++) {
    Bytes b = e + "\x81\x01"; got = v ^ 0x5555;
    size_t r = call(fingera_decode_zigzag, (const void*)b.data(), size, &got);
    if (size < n ? r != 0 : (r != n || got != v)) fail("decode_zigzag of the encoding %s of %lld with size %zu: used %zu value %lld", hex(e).c_str(), (long long)v, size, r, (long long)got);
  }
}
static void bytes(const Bytes& s) {
  uint64_t want = 0, got = 1; size_t w = ref::unvarint(s, want);
  Tail c(s); size_t r = call(fingera_decode_varint, (const void*)c.data(), c.size(), &got);
  note("decode_varint(%s) -> %zu", hex(s).c_str(), r);
  checked();
  if (r != w || (w && got != want)) fail("decode_varint of %s: used %zu value %llu, the model says %zu and %llu", hex(s).c_str(), r, (unsigned long long)got, w, (unsigned long long)want);
  if (r) { uint8_t e[16]; size_t n = call(fingera_encode_varint, got, (void*)e); if (n != r || memcmp(e, s.data(), n)) fail("decode_varint accepted %s, which is not the encoding %s of %llu", hex(s).c_str(), hex(e, n).c_str(), (unsigned long long)got); }
  int64_t z = 1; size_t rz = call(fingera_decode_zigzag, (const void*)c.data(), c.size(), &z);
  if (rz != w) fail("decode_zigzag of %s used %zu bytes, expected %zu", hex(s).c_str(), rz, w);
  if (rz) { uint8_t e[16]; size_t n = call(fingera_encode_zigzag, z, (void*)e); if (n != rz || memcmp(e, s.data(), n)) fail("decode_zigzag accepted %s as %lld, whose encoding is %s", hex(s).c_str(), (long long)z, hex(e, n).c_str()); }
}
static void define() {
  int U = pick(512, 4096);
  add("all-small", U, [](long u) { for (int i = 0; i < 4096; i++) { value((uint64_t)u * 4096 + i, false); zig((int64_t)u * 4096 + i); zig(-(int64_t)u * 4096 - i); inner(3, 3); } },
      "every value and its negative up to " + std::to_string((long)U * 4096));
  add("edges", 64, [](long bit) {
    int k = choose(4), d = choose(2001) - 1000; uint64_t b = 1ull << bit, v;
    if (k == 0) v = b + (int64_t)d; else if (k == 1) v = ~b + (int64_t)d; else if (k == 2) v = (b | (b >> 7) | (b >> 14) | (b >> 21) | (b >> 35)) + (int64_t)d; else v = b * 129 + (int64_t)d;
    value(v, d % 50 == 0); zig((int64_t)v); zig(-(int64_t)(v & INT64_MAX));
  }, "+-1000 around every power of two, its complement and two mixtures; every truncated size");
  add("length-edges", 10, [](long k) {                    // around the first value of every encoded length
    unsigned __int128 base = 0, size = 128; for (int i = 0; i < k; i++) { base += size; size *= 128; }
    uint64_t v = (uint64_t)base + (int64_t)(choose(4001) - 2000); value(v, true); zig((int64_t)v); zig(-(int64_t)(v >> 1)); zig((int64_t)(v >> 1)); zig((int64_t)((v >> 1) ^ (1ull << 63)));
  }, "+-2000 around the first value of each encoded length, every size parameter");
  add("extremes", 4001, [](long d) { value(UINT64_MAX - d, true); value(d, true); zig(INT64_MAX - d); zig(INT64_MIN + d); zig(d - 2000); }, "the 4001 values next to each end of the ranges");
  add("short-strings", 256, [](long a) {
    bytes(Bytes(1, (char)a)); if (!a) bytes("");
    for (int b = 0; b < 256; b++) { bytes(Bytes(1, (char)a) + (char)b); for (int c = 0; c < 256; c++) bytes(Bytes(1, (char)a) + (char)b + (char)c); }
    inner(65793, 65793);
  }, "all byte strings of 0-3 bytes");
  static const Bytes E("\x00\x7f\x80\xff\x81\xfe\x01\x7e", 8);
  int nv = pick(4, 5), nl = pick(10, 11);
  add("edge-bytes", (long)nv * nv * nv, [nv, nl](long u) {
    Bytes s; s += E[u % nv]; s += E[u / nv % nv]; s += E[u / nv / nv]; int n = choose(nl - 2);
    for (int i = 0; i < n; i++) { if (!((uint8_t)s.back() & 128) && i > 2) return; s += E[choose(nv)]; }
    bytes(s);
  }, "strings of 3.." + std::to_string(nl) + " bytes over edge bytes");
  add("around-maximum", 10, [](long i) {                  // where 64 bits end: the last encoding and its neighbours
    Bytes s = ref::varint(UINT64_MAX - choose(2)); s[i] = (char)choose(256); int j = choose(11); if (j < 10) s[j] = (char)choose(256);
    bytes(s); bytes(s + "\x01"); 
  }, "every one- and two-byte change of the largest encodings");
  add("too-long", 12, [](long n) { int last = choose(256), fill = choose(128); bytes(Bytes(n, (char)(0x80 | fill)) + (char)last); bytes(Bytes(n, (char)(0x80 | fill)) + (char)last + "\x05"); }, "up to 12 continuation bytes");
  add("giant-size", 64, [](long u) {                         // announced sizes of 2^32 bytes and more
    Bytes e = ref::varint(u ? (1ull << u) + u : 0); uint64_t n = (uint64_t)(1 + choose(4)) << (choose(2) ? 32 : 40), got = 0; n += choose(13); int64_t z = 0; Tail m(e + Bytes(12, 0)); 
    size_t r = call(fingera_decode_varint, (const void*)m.data(), (size_t)n, &got), rz = call(fingera_decode_zigzag, (const void*)m.data(), (size_t)n, &z); checked(); note("size %llu -> %zu", (unsigned long long)n, r);
    if (r != e.size() || got != (u ? (1ull << u) + u : 0) || rz != r) fail("decode_varint of %s with an announced size of %llu: used %zu, value %llu", hex(e).c_str(), (unsigned long long)n, r, (unsigned long long)got);
  }, "announced sizes of 2^32 bytes and more");
}
int main(int c, char** v) { return run(c, v, "C09", define, {"64-bit values away from powers of two, length limits and the ends of the range are covered up to 2^21 only"}); }
