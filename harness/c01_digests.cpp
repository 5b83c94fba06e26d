// C01: SHA-1, SHA-256, SHA-512, RIPEMD-160 against the standards (OpenSSL) for bounded-exhaustive message shapes.
#include "api.hpp"
#include "ref.hpp"
#include "giant.hpp"
using namespace mc;

struct Alg { const char* name; size_t out; void (*lib)(const void*, size_t, void*); ref::Bytes (*model)(const ref::Bytes&); unsigned char* (*one)(const unsigned char*, size_t, unsigned char*); };
static const Alg A[4] = {
    {"sha1", 20, fingera_sha1, ref::sha1, SHA1},
    {"sha256", 32, fingera_sha2_256, ref::sha256, SHA256},
    {"sha512", 64, fingera_sha2_512, ref::sha512, SHA512},
    {"ripemd160", 20, fingera_ripemd160, ref::ripemd160, RIPEMD160}};

static void one(const Alg& a, const Bytes& m) {
  Out o(a.out);
  Tail copy(m);
  call(a.lib, (const void*)copy.data(), copy.size(), (void*)o.p());
  o.check(a.name);
  if (copy != m) fail("%s changed its input", a.name);
  Bytes w = a.model(m);
  note("%s(%zu bytes %s) = %s", a.name, m.size(), hex(m, 16).c_str(), hex(w).c_str());
  checked();
  if (o.str() != w) fail("%s of the %zu-byte message %s: got %s, standard says %s", a.name, m.size(), hex(m, 400).c_str(), hex(o.str()).c_str(), hex(w).c_str());
}

static void define() {
  int maxlen = pick(2200, 9000);
  add("lengths", maxlen + 1, [](long len) {
    int k = choose(ref::NPAT);
    one(A[choose(4)], ref::pattern(k, len));
  }, "every length 0.." + std::to_string(maxlen) + " x 7 contents x 4 digests");
  int pl = pick(300, 700);
  add("one-byte-differs", pl, [](long u) {
    long len = u + 1;
    Bytes m = ref::pattern(5, len);
    int at = choose((int)len);
    m[at] ^= 1 << choose(8);
    one(A[choose(4)], m);
  }, "every length 1.." + std::to_string(pl) + ", every position, every bit flipped x 4 digests");
  add("all-short", 256, [](long b) {
    Bytes m(1, (char)b);
    int second = choose(257);
    if (second) { m += (char)(second - 1); if (thorough()) { int third = choose(257); if (third) m += (char)(third - 1); } }
    one(A[choose(4)], m);
  }, thorough() ? "all messages of 1-3 bytes" : "all messages of 1-2 bytes");
  // the bit length crosses 2^32 at 2^29 bytes; 2^31 and 2^32 bytes are where 32-bit lengths break
  static std::vector<uint64_t> L = {(1ull << 29) - 9, (1ull << 29) + 60, (1ull << 32) + 119};
  if (thorough()) for (uint64_t x : {(1ull << 29) - 65, (1ull << 29) - 1, (1ull << 29), (1ull << 29) + 1, (1ull << 30) + 7, (1ull << 31) + 3, (1ull << 31) - 1, (1ull << 31), (1ull << 32) - 1, (1ull << 32), (1ull << 32) + 55, (1ull << 32) + 56, (1ull << 33) + 5}) L.push_back(x);
  add_patient("giant", (long)L.size() * 4, [](long u) {
    const Alg& a = A[u % 4];
    uint64_t len = L[L.size() - 1 - u / 4];
    const uint8_t* p = giant::get();
    uint8_t got[64], want[64];
    call(a.lib, (const void*)p, (size_t)len, (void*)got);
    a.one(p, len, want);
    note("%s of %llu bytes = %s", a.name, (unsigned long long)len, hex(want, a.out).c_str());
    checked();
    if (memcmp(got, want, a.out)) fail("%s of a %llu-byte message: got %s, standard says %s", a.name, (unsigned long long)len, hex(got, a.out).c_str(), hex(want, a.out).c_str());
  }, "messages around 2^29 and 2^32 bytes (thorough: also 2^30, 2^31, 2^33)", 250);
}
int main(int c, char** v) {
  return run(c, v, "C01", define, {"OpenSSL's one-shot digests implement FIPS 180-4 and RIPEMD-160", "contents are 7 fixed patterns plus every single-bit deviation from a pseudo-random one"});
}
