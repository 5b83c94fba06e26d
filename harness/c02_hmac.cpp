// C02: HMAC-SHA-256 / HMAC-SHA-512 against RFC 2104 written out over OpenSSL digests.
#include "api.hpp"
#include "ref.hpp"
#include "giant.hpp"
#include <openssl/evp.h>
#include <openssl/hmac.h>
using namespace mc;

struct Alg { const char* name; size_t out, block; void (*lib)(const void*, size_t, const void*, size_t, void*); Bytes (*model)(const Bytes&, const Bytes&); };
static const Alg A[2] = {{"hmac_sha256", 32, 64, fingera_hmac_sha256, ref::hmac256}, {"hmac_sha512", 64, 128, fingera_hmac_sha512, ref::hmac512}};

static void one(const Alg& a, const Bytes& k, const Bytes& m) {
  Out o(a.out);
  Tail kc(k), mcopy(m);
  call(a.lib, (const void*)kc.data(), kc.size(), (const void*)mcopy.data(), mcopy.size(), (void*)o.p());
  o.check(a.name);
  if (kc != k || mcopy != m) fail("%s changed its input", a.name);
  Bytes w = a.model(k, m);
  note("%s key %zu bytes, message %zu bytes = %s", a.name, k.size(), m.size(), hex(w).c_str());
  checked();
  if (o.str() != w) fail("%s of key %s message %s: got %s, RFC 2104 says %s", a.name, hex(k, 300).c_str(), hex(m, 300).c_str(), hex(o.str()).c_str(), hex(w).c_str());
}
static void define() {
  int K = pick(300, 620), M = pick(300, 620);
  add("grid", K + 1, [M](long kl) {
    int ml = choose(M + 1), a = choose(2), p = choose(pick(1, 3));
    one(A[a], ref::pattern(p == 0 ? 5 : p == 1 ? 1 : 0, kl), ref::pattern(p == 0 ? 6 : p == 1 ? 0 : 1, ml));
  }, "every key length 0.." + std::to_string(K) + " x every message length 0.." + std::to_string(M) + " x 2 MACs");
  add("contents", 301, [](long kl) {
    static const std::vector<int> ml = {0, 1, 31, 32, 55, 56, 63, 64, 111, 112, 127, 128, 129};
    int kp = choose(ref::NPAT), mp = choose(ref::NPAT), m = choose_of(ml);
    one(A[choose(2)], ref::pattern(kp, kl), ref::pattern(mp, m));
  }, "7 key contents x 7 message contents, key lengths 0..300, boundary message lengths");
  add("one-key-byte-differs", 270, [](long u) {
    long kl = u + 1; Bytes k = ref::pattern(5, kl);
    k[choose((int)kl)] ^= 1 << choose(pick(2, 8));
    one(A[choose(2)], k, ref::pattern(6, 37));
  }, "every key length 1..270, every byte position deviates");
  add("large", 40, [](long u) {
    static const int B[10] = {1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 65537};
    int kl = B[u % 10], side = choose(3);
    one(A[choose(2)], ref::pattern(5, side != 1 ? kl : 20), ref::pattern(6, side != 0 ? kl + (int)(u / 10) : 13));
  }, "large keys and messages to 64 KiB");
  int G = pick(1, 4);
  add_patient("giant", 2 * 2 * G, [](long u) {
    const Alg& a = A[u & 1]; bool bigkey = u >> 1 & 1;
    static const uint64_t L[4] = {(1ull << 32) + 20, (1ull << 32) + 71, (1ull << 29) + 1, (1ull << 31) + 9};
    uint64_t len = L[u >> 2];
    const uint8_t* p = giant::get(); uint8_t got[64], want[64]; unsigned n = 0;
    Bytes small = ref::pattern(5, 40);
    const EVP_MD* md = u & 1 ? EVP_sha512() : EVP_sha256();
    if (bigkey) {
      Bytes hk(a.out, 0); u & 1 ? SHA512(p, len, (uint8_t*)&hk[0]) : SHA256(p, len, (uint8_t*)&hk[0]);
      Bytes w = a.model(hk, small); memcpy(want, w.data(), a.out);
      call(a.lib, (const void*)p, (size_t)len, (const void*)small.data(), small.size(), (void*)got);
    } else {
      HMAC(md, small.data(), (int)small.size(), p, len, want, &n);
      call(a.lib, (const void*)small.data(), small.size(), (const void*)p, (size_t)len, (void*)got);
    }
    note("%s giant %s %llu = %s", a.name, bigkey ? "key" : "message", (unsigned long long)len, hex(want, a.out).c_str());
    checked();
    if (memcmp(got, want, a.out)) fail("%s with a %llu-byte %s: got %s want %s", a.name, (unsigned long long)len, bigkey ? "key" : "message", hex(got, a.out).c_str(), hex(want, a.out).c_str());
  }, "key or message of 4 GiB and 20 bytes (a 32-bit length takes it for a short one); thorough: also 4 GiB + 71, 512 MiB + 1, 2 GiB + 9", 250);
}
int main(int c, char** v) { return run(c, v, "C02", define, {"OpenSSL digests implement FIPS 180-4", "contents are fixed patterns plus every single-byte deviation of the key"}); }
