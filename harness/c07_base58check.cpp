// C07: Base58Check: right text, and accepted exactly when the four checksum bytes match.
#include "api.hpp"
#include "giant.hpp"
#include "ref.hpp"
using namespace mc;

static Bytes lib_enc(const Bytes& payload, const Bytes& prefix) {
  Out o(fingera_to_base58_check_length(payload.size(), prefix.size())); Bytes c = payload, p = prefix;
  size_t n = call(fingera_to_base58_check, (const void*)c.data(), c.size(), (const void*)p.data(), p.size(), o.c());
  o.check("to_base58_check");
  if (c != payload || p != prefix) fail("to_base58_check changed its input");
  if (n > o.n) fail("to_base58_check returned %zu of %zu announced", n, o.n);
  return o.str(n);
}
static void decode(const Bytes& s) {
  Bytes w; bool ok = ref::unbase58check(s, w); if (!ok) w.clear();
  Out o(fingera_from_base58_check_length(s.size())); Tail mem(s);
  size_t n = call(fingera_from_base58_check, (const char*)mem.data(), mem.size(), (void*)o.p());
  o.check("from_base58_check");
  if (mem != s) fail("from_base58_check changed its input");
  note("decode %s -> %zu bytes%s", quote(s, 120).c_str(), n, ok ? "" : " (bad checksum or text)");
  checked();
  if (n > o.n || o.str(n) != w) fail("from_base58_check of %s: got %zu bytes %s, the model says %s", quote(s).c_str(), n, hex(o.str(std::min(n, o.n))).c_str(), ok ? hex(w).c_str() : "refuse");
}
static void define() {
  int N = pick(130, 260);
  add("encode", N + 1, [](long n) {
    Bytes pre = ref::pattern(choose(3) + 4, choose(9)), pay = ref::pattern(choose(ref::NPAT), n);
    Bytes t = lib_enc(pay, pre);
    note("%s | %s -> %s", hex(pre).c_str(), hex(pay, 40).c_str(), t.c_str());
    expect_str("to_base58_check", t, ref::base58check(pre + pay), pre + pay);
    decode(t);
  }, "payload lengths 0.." + std::to_string(N) + " x prefix lengths 0..8 x contents, round trip");
  add("long-prefix", pick(320, 700), [](long n) {
    int l = choose(5); Bytes pre = ref::pattern(6, n + 1), pay = ref::pattern(5, l == 4 ? 100 : l * 9), w = ref::base58check(pre + pay);
    Bytes t = lib_enc(pay, pre);
    expect_str("to_base58_check", t, w, pre + pay); decode(w);
  }, "prefixes of 1..320 bytes x payloads of 0, 9, 18, 27, 100 bytes");
  static const std::vector<long> BIG = {255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1025, 2048, 3000, 4095, 4096, 4097, 5000, 8192};
  add("long-payload", (long)BIG.size(), [](long u) {
    Bytes pre = ref::pattern(6, choose(2) * 4), pay = ref::pattern(choose(2) ? 1 : 5, BIG[u]), w = ref::base58check(pre + pay);
    expect_str("to_base58_check", lib_enc(pay, pre), w, pre + pay); decode(w);
    Bytes bad = w; size_t i = bad.size() - 1 - (size_t)choose(2) * (bad.size() / 2); bad[i] = bad[i] == '2' ? '3' : '2'; decode(bad);
  }, "payloads of 255..8192 bytes, valid and with one wrong character", 300);
  add("zero-prefix", 50, [](long n) {
    Bytes pre(choose(5), 0), pay = ref::pattern(choose(ref::NPAT), n); Bytes t = lib_enc(pay, pre);
    expect_str("to_base58_check", t, ref::base58check(pre + pay), pre + pay); decode(t);
  }, "leading zero bytes in the prefix");
  add("checksum-bytes", 60, [](long n) {                 // every wrong value of every checksum byte
    Bytes p = ref::pattern(choose(2) + 5, n), h = ref::hash256(p).substr(0, 4);
    h[choose(4)] ^= 1 + choose(255);
    decode(ref::base58(p + h));
  }, "payloads of 0..59 bytes x every wrong value of each checksum byte");
  add("checksum-masks", 90, [](long n) {                 // every set of wrong bytes
    Bytes p = ref::pattern(5, n), h = ref::hash256(p).substr(0, 4); int mask = 1 + choose(15), how = choose(5);
    for (int i = 0; i < 4; i++) if (mask >> i & 1) h[i] = how == 0 ? ~h[i] : how == 1 ? 0 : how == 2 ? (char)0xff : how == 3 ? h[(i + 1) % 4] : h[i] ^ 0x80;
    decode(ref::base58(p + h));
  }, "every set of wrong checksum bytes x 5 ways of being wrong");
  add("other-digests", 80, [](long n) {                  // checksums computed in a wrong way
    Bytes p = ref::pattern(5, n); Bytes h; int k = choose(7);
    Bytes d = ref::hash256(p);
    h = k == 0 ? ref::sha256(p) : k == 1 ? d.substr(28) : k == 2 ? d.substr(4) : k == 3 ? Bytes(d.rbegin(), d.rend()) : k == 4 ? ref::hash160(p) : k == 5 ? ref::hash256(n ? p.substr(1) : p + 'x') : Bytes(4, 0);
    decode(ref::base58(p + h.substr(0, 4)));
  }, "checksums of the wrong digest, half, order or payload");
  static const Bytes ALPHA(ref::B58);
  int L = pick(36, 60);
  add("substitution", L, [](long n) {
    Bytes s = ref::base58check(Bytes("\0", 1) + ref::pattern(5, n)); int at = choose((int)s.size());
    int c = choose(60); s[at] = c < 58 ? ALPHA[c] : c == 58 ? '0' : ' ';
    decode(s);
  }, "every single-character substitution of valid strings with 1.." + std::to_string(L) + " payload bytes");
  add("insert-delete-swap", L, [](long n) {
    Bytes s = ref::base58check(Bytes("\0", 1) + ref::pattern(5, n)); int k = choose(4);
    if (k == 0) s.insert(choose((int)s.size() + 1), 1, ALPHA[choose(58)]);
    else if (k == 1) s.erase(choose((int)s.size()), 1);
    else if (k == 2) { int i = choose((int)s.size()), j = choose((int)s.size()); std::swap(s[i], s[j]); }
    else { int i = choose((int)s.size()); s = s.substr(i) + s.substr(0, i); }
    decode(s);
  }, "every insertion, deletion, exchange and rotation");
  add("two-substitutions", 34, [](long i) {
    Bytes s = ref::base58check(Bytes("\0", 1) + ref::pattern(5, 20)); int at = choose((int)s.size());
    if (i < (long)s.size()) s[i] = ALPHA[choose(58)];
    s[at] = ALPHA[choose(58) / (thorough() ? 1 : 4)];
    decode(s);
  }, "pairs of substitutions in an address-sized string");
  add("short-data", 6, [](long n) {                      // raw data of 0..5 bytes: too short to carry a checksum
    Bytes b; for (int i = 0; i < n; i++) b += (char)(choose(6) * 51);
    decode(ref::base58(b));
    decode(Bytes(n, '1'));
    decode(ref::base58check(b));
  }, "strings that decode to 0..5 bytes");
  add("heap-sized", pick(60, 200), [](long n) {          // both sides of the scratch-buffer switches
    Bytes p = ref::pattern(5, 80 + n); Bytes s = ref::base58check(p); decode(s); expect_str("to_base58_check", lib_enc(p.substr(4), p.substr(0, 4)), s, p);
    int at = choose((int)s.size()); s[at] = s[at] == '2' ? '3' : '2'; decode(s);
  }, "payloads of 80..140 bytes, valid and with every position changed");
  add("spaces", 30, [](long n) {
    Bytes s = ref::base58check(ref::pattern(5, n)); int k = choose(5);
    if (k == 1) s = " " + s; if (k == 2) s += "\n"; if (k == 3) s = "\t " + s + "  "; if (k == 4) s.insert(s.size() / 2, " ");
    decode(s);
  }, "white space around and inside");
  static const std::vector<long> ZB = {41, 127, 128, 129, 251, 252, 253, 255, 256, 257, 508, 1020, 4093, 32767, 65531, 65532, 65533, 65535, 65536, 65537, 65540, 70000, 131072};
  add("many-zeros", (long)ZB.size(), [](long u) {            // long runs of leading zeros in front of a short number
    long z = ZB[u] - choose(3); int n = choose(8), split = choose(2) ? (int)std::min(z, 7L) : 0; Bytes pay = Bytes(z, 0) + ref::pattern(5, n * 3), w = ref::base58check(pay);
    expect_str("to_base58_check", lib_enc(pay.substr(split), pay.substr(0, split)), w, pay); decode(w); Bytes bad = w; bad.back() = bad.back() == '2' ? '3' : '2'; decode(bad); if (n) { bad = w; bad.erase(0, 1); decode(bad); }
  }, "39..131072 leading zeros x payloads of 0..21 more bytes", 200);
  add_patient("giant", 1, [](long) {                                 // a valid string that goes on for 4 GiB
    Bytes s = ref::base58check(ref::pattern(5, 33)); uint64_t n = (1ull << 32) + s.size(); giant::In in(Bytes(1 << 20, '0'), n); in.set(0, s);
    giant::OutMap o(1 << 20, fingera_from_base58_check_length(n)); op(); size_t r = fingera_from_base58_check((const char*)in.b, n, o.b); checked(); note("%s and 4 GiB of '0' -> %zu", s.c_str(), r);
    if (r) fail("from_base58_check accepted a string of %llu characters, most of them illegal", (unsigned long long)n);
  }, "valid strings with an illegal character and 2^32 more behind");
  add_patient("giant-zeros", 2, [](long u) {                         // 2^32 + 9 zero bytes in front of a short payload, encoded and decoded
    const uint64_t z = (1ull << 32) + 9; const Bytes tail = ref::pattern(5, 21); giant::In in(Bytes(1 << 20, 0), z + 64); in.set(z, tail);
    uint8_t h[32]; SHA256(in.b, z + 21, h); SHA256(h, 32, h); const Bytes num = tail + Bytes((char*)h, 4), text = ref::base58(num); op();
    auto behind = [&](giant::OutMap& o, uint64_t n, const Bytes& want, uint8_t zero) {
      checked(); note("%llu leading zeros %s -> %llu", (unsigned long long)z, u ? "decoded" : "encoded", (unsigned long long)n);
      if (n != z + want.size()) fail("base58_check of %llu zeros and 21 bytes %s returned %llu", (unsigned long long)z, u ? "decoded" : "encoded", (unsigned long long)n);
      if (memcmp(o.b + z, want.data(), want.size())) fail("base58_check, behind %llu zeros: wrong result %s", (unsigned long long)z, hex(Bytes((char*)o.b + z, want.size())).c_str());
      for (auto& w : o.win) for (uint64_t i = w.first; i < w.second && i < z; i++) if (o.b[i] != zero) fail("base58_check of %llu zeros: output %llu is %02x", (unsigned long long)z, (unsigned long long)i, o.b[i]);
      if (!o.clean_behind()) fail("base58_check wrote behind its output"); };
    if (u == 0) { giant::OutMap o(1 << 20, fingera_to_base58_check_length(z + 17, 4)); size_t n = fingera_to_base58_check(in.b + 4, z + 17, "\0\0\0\0", 4, (char*)o.b); behind(o, n, text, '1'); }
    else { giant::In t(Bytes(1 << 20, '1'), z + 64); t.set(z, text + Bytes(16, '~')); giant::OutMap o(1 << 20, fingera_from_base58_check_length(z + text.size())); size_t n = fingera_from_base58_check((const char*)t.b, z + text.size(), o.b); behind(o, n, tail, 0);
      if (thorough()) { t.set(z, text.substr(0, 3) + (text[3] == '2' ? "3" : "2")); n = fingera_from_base58_check((const char*)t.b, z + text.size(), o.b); if (n) fail("from_base58_check accepted a wrong checksum behind %llu zeros", (unsigned long long)z); } }
  }, "2^32 + 9 leading zeros in front of a short payload, both directions (thorough: also with a wrong checksum)");
}
int main(int c, char** v) { return run(c, v, "C07", define, {"OpenSSL's SHA-256"}); }
