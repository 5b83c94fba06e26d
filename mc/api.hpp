// The library under test, and guarded buffers.
#pragma once
#include "mc.hpp"
extern "C" {
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/chain_parameters.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/compress_integer.h>
#include <fingera_libc/error.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/hex.h>
#include <fingera_libc/random.h>
}
#undef assert

namespace mc {
using Bytes = std::string;
// One counted call into the library.
template <class F, class... A> inline auto call(F f, A... a) -> decltype(f(a...)) { op(); return f(a...); }

// Output buffer with canaries on both sides; check() verifies that nothing outside [0,n) was written.
struct Out {
  static constexpr size_t G = 64;
  std::vector<uint8_t> v; size_t n; size_t off;
  explicit Out(size_t n_, uint8_t fill = 0xE1, size_t off_ = 0) : v(n_ + 2 * G + off_, fill), n(n_), off(off_) {
    for (size_t i = 0; i < G + off; i++) v[i] = canary(i);
    for (size_t i = G + off + n; i < v.size(); i++) v[i] = canary(i);
  }
  static uint8_t canary(size_t i) { return (uint8_t)(0x5A ^ (i * 29)); }
  uint8_t* p() { return v.data() + G + off; }
  char* c() { return (char*)p(); }
  void check(const char* what) const {
    for (size_t i = 0; i < G + off; i++) if (v[i] != canary(i)) fail("%s wrote before its output buffer", what);
    for (size_t i = G + off + n; i < v.size(); i++) if (v[i] != canary(i)) fail("%s wrote past its %zu-byte output buffer", what, n);
  }
  Bytes str(size_t k) const { return Bytes((const char*)v.data() + G + off, k); }
  Bytes str() const { return str(n); }
};
// An input that ends where readable memory ends: a read behind it crashes.
struct Tail {
  static constexpr size_t ROOM = 1 << 16;
  size_t n; uint8_t* at; uint8_t* own = nullptr; size_t len = 0;
  static uint8_t* map(size_t room) {
    uint8_t* m = (uint8_t*)mmap(0, room + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED || mprotect(m + room, 4096, PROT_NONE)) { perror("mmap"); _exit(41); }
    return m;
  }
  explicit Tail(const Bytes& s) : n(s.size()) {
    static uint8_t* ring[8]; static int next = 0;
    if (n > ROOM) { len = (n + 4095) & ~4095ull; own = map(len); at = own + len - n; }
    else { uint8_t*& m = ring[next++ & 7]; if (!m) m = map(ROOM); at = m + ROOM - n; }
    if (n) memcpy(at, s.data(), n);
  }
  Tail(const Tail&) = delete;
  ~Tail() { if (own) munmap(own, len + 4096); }
  const char* data() const { return (const char*)at; }
  size_t size() const { return n; }
  bool operator!=(const Bytes& s) const { return s.size() != n || memcmp(at, s.data(), n); }
  bool operator==(const Bytes& s) const { return !(*this != s); }
};
inline void expect(const char* what, const Bytes& got, const Bytes& want, const Bytes& input) {
  checked();
  if (got != want) fail("%s: got %s, the model says %s, for input %s", what, hex(got).c_str(), hex(want).c_str(), hex(input, 400).c_str());
}
inline void expect_str(const char* what, const Bytes& got, const Bytes& want, const Bytes& input) {
  checked();
  if (got != want) fail("%s: got %s, the model says %s, for input %s", what, quote(got).c_str(), quote(want).c_str(), hex(input, 400).c_str());
}
inline void expect_n(const char* what, long long got, long long want, const Bytes& input) {
  checked();
  if (got != want) fail("%s: got %lld, the model says %lld, for input %s (%s)", what, got, want, quote(input).c_str(), hex(input, 400).c_str());
}
struct Net { const char* name; const chain_parameters* p; int pk, sc, wif; uint32_t xpub, xprv; const char* hrp; };
inline const Net* nets() {
  static const Net n[3] = {
      {"main", &g_mainnet_chain_parameters, 0x00, 0x05, 0x80, 0x0488B21E, 0x0488ADE4, "bc"},
      {"test", &g_testnet_chain_parameters, 0x6F, 0xC4, 0xEF, 0x043587CF, 0x04358394, "tb"},
      {"reg", &g_regnet_chain_parameters, 0x6F, 0xC4, 0xEF, 0x043587CF, 0x04358394, "bcrt"}};
  return n;
}
// call the key-context initialiser once per worker process
inline void key_init() { static bool done = false; if (!done) { fingera_btc_key_init(); done = true; } }   // forked processes inherit it
}  // namespace mc
