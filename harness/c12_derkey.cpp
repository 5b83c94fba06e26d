// C12: DER private keys: exact encoding built from the ASN.1, and the decoder's grammar.
#include "api.hpp"
#include "giant.hpp"
#include "ref.hpp"
using namespace mc;

static Bytes tlv(int tag, const Bytes& body) {
  Bytes r(1, (char)tag); size_t n = body.size();
  if (n < 128) r += (char)n; else if (n < 256) { r += '\x81'; r += (char)n; } else { r += '\x82'; r += (char)(n >> 8); r += (char)n; }
  return r + body;
}
#include <map>
static Bytes der_key_(const Bytes& key, bool comp) {        // SEC1 ECPrivateKey with explicit secp256k1 parameters
  auto& c = ref::C(); Bytes one(32, 0); one[31] = 1;
  Bytes oid("\x2A\x86\x48\xCE\x3D\x01\x01", 7);
  Bytes params = tlv(0x30, tlv(2, Bytes(1, 1)) + tlv(0x30, tlv(6, oid) + tlv(2, Bytes(1, 0) + ref::be(c.p))) +
                           tlv(0x30, tlv(4, Bytes(1, 0)) + tlv(4, Bytes(1, 7))) + tlv(4, ref::pub(one, comp)) +
                           tlv(2, Bytes(1, 0) + ref::order()) + tlv(2, Bytes(1, 1)));
  return tlv(0x30, tlv(2, Bytes(1, 1)) + tlv(4, key) + tlv(0xA0, params) + tlv(0xA1, tlv(3, Bytes(1, 0) + ref::pub(key, comp))));
}
static Bytes der_key(const Bytes& key, bool comp) {
  static std::map<Bytes, Bytes> memo; Bytes& r = memo[key + (char)comp]; if (r.empty()) { if (memo.size() > 5000) memo.clear(); return memo[key + (char)comp] = der_key_(key, comp); } return r;
}
static void encode(const Bytes& key, bool comp) {
  key_init();
  size_t n = comp ? 214 : 279; bool ok = ref::valid_key(key);
  Out o(n); Bytes k = key;
  int r = call(fingera_btc_key_encode, (const void*)k.data(), (void*)o.p(), n);
  o.check("key_encode");
  if (k != key) fail("key_encode changed the key");
  note("encode %s %s -> %d", hex(key).c_str(), comp ? "compressed" : "uncompressed", r);
  checked();
  if (!!r != ok) fail("key_encode of %s returned %d, the key is %s", hex(key).c_str(), r, ok ? "valid" : "invalid");
  if (!ok) return;
  Bytes w = der_key(key, comp); if (w.size() != n) fail("harness: model has %zu bytes", w.size());
  expect("key_encode", o.str(), w, key);
}
static void decode(const Bytes& s) {
  key_init();
  // grammar of the accepted encodings
  bool ok = false; Bytes key(32, 0); size_t at = 0, n = s.size();
  auto u = [&](size_t i) { return (uint8_t)s[i]; };
  do {
    if (n < 2 || u(0) != 0x30 || !(u(1) & 0x80)) break;
    size_t lenb = u(1) & 0x7f; if (lenb < 1 || lenb > 2 || n < 2 + lenb) break;
    size_t len = lenb == 1 ? u(2) : u(2) << 8 | u(3); at = 2 + lenb;
    if (n - at < len) break;
    if (n - at < 3 || u(at) != 2 || u(at + 1) != 1 || u(at + 2) != 1) break;
    at += 3; if (n - at < 2 || u(at) != 4) break;
    size_t os = u(at + 1); at += 2; if (os > 32 || n - at < os) break;
    for (size_t i = 0; i < os; i++) key[32 - os + i] = s[at + i];
    ok = ref::valid_key(key);
  } while (0);
  Out o(32, 0x3C);
  Tail heap(s);
  int r = call(fingera_btc_key_decode, (const void*)heap.data(), heap.size(), (void*)o.p());
  o.check("key_decode");
  if (heap != s) fail("key_decode changed its input");
  note("decode %s -> %d (%s)", hex(s, 50).c_str(), r, ok ? "accepted" : "refused");
  checked();
  if (!!r != ok) fail("key_decode of %s returned %d, the grammar %s it", hex(s, 300).c_str(), r, ok ? "accepts" : "refuses");
  if (ok) expect("key_decode", o.str(), key, s);
  else if (o.str() != Bytes(32, 0) && o.str() != Bytes(32, 0x3C)) fail("key_decode refused %s but left %s as the key", hex(s, 300).c_str(), hex(o.str()).c_str());
}
static const std::vector<Bytes>& keys() {                  // valid and invalid edges
  static std::vector<Bytes> v;
  if (v.empty()) {
    Bytes n = ref::order(); Bytes one(32, 0); one[31] = 1;
    v = {one, ref::add_int(n, -1), n, Bytes(32, 0), ref::add_int(n, 1), Bytes(32, '\xff'), ref::add_int(n, -2), ref::pattern(5, 32), ref::pattern(6, 32), ref::pattern(2, 32), Bytes("\0\0\0", 3) + ref::pattern(5, 29), Bytes(31, 0) + '\x80', Bytes("\x7f") + Bytes(31, '\xff')};
    Bytes t = n; t[0] = '\xfe'; v.push_back(t); t = n; t[16] = (char)((uint8_t)t[16] + 1); v.push_back(t); t = n; t[16] = (char)((uint8_t)t[16] - 1); v.push_back(t);
  }
  return v;
}
static void define() {
  add("encode", (long)keys().size() * 2, [](long u) { encode(keys()[u / 2], u & 1); }, "16 edge keys (zero, 1, order-2 .. order+1, all ones) x 2 forms");
  add("encode-bits", 256, [](long bit) { Bytes k = Bytes(32, 0); k[bit / 8] |= 1 << bit % 8; if (choose(2)) k = ref::add_mod_n(k, ref::pattern(5, 32)); encode(k, choose(2)); }, "every power of two as a key");
  add("encode-small", pick(150, 2000), [](long i) { Bytes k = ref::add_int(Bytes(32, 0), i + 1); if (choose(2)) k = ref::add_int(ref::order(), -(i + 1)); encode(k, choose(2)); }, "keys next to zero and next to the order");
  add("roundtrip", (long)keys().size(), [](long u) { const Bytes& k = keys()[u]; bool c = choose(2); decode(der_key(ref::valid_key(k) ? k : ref::pattern(5, 32), c)); Bytes e = der_key(ref::pattern(5, 32), c); memcpy(&e[c ? 8 : 9], k.data(), 32); decode(e); }, "own and patched encodings of every edge key decode as the grammar says");
  add("header-bytes", 256, [](long v) { Bytes e = der_key(ref::pattern(5, 32), choose(2)); int at = choose(12); e[at] = (char)v; decode(e); }, "every value of each of the first 12 bytes, both forms");
  add("two-header-bytes", 256, [](long v) { Bytes e = der_key(ref::pattern(5, 32), choose(2)); int at = choose(10), at2 = choose(10); static const std::vector<int> E = {0, 1, 2, 4, 0x20, 0x21, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x83, 0xff, 31, 33}; e[at] = (char)v; e[at2] = (char)choose_of(E); decode(e); }, "pairs of header bytes");
  add("any-byte", 279, [](long at) { Bytes e = der_key(ref::pattern(5, 32), choose(2)); if (at >= (long)e.size()) return; e[at] = (char)choose(256); decode(e); }, "every value of every byte");
  add("truncation", 280, [](long n) { Bytes e = der_key(ref::pattern(5, 32), choose(2)); e.resize(std::min((size_t)n, e.size())); decode(e); if (n > 2) { e[1] = '\x81'; e[2] = (char)(n > 3 ? n - 3 - choose(3) : 0); decode(e); } }, "every truncation, also with the outer length adjusted");
  add("built", 40, [](long os) {                            // short encodings put together field by field
    static const std::vector<int> L = {0x80, 0x81, 0x82, 0x83, 0x84, 0xff, 0x20, 0x7f}; int lb = choose_of(L), delta = choose(7) - 3, tail = choose(3), content = choose(4), declared = (int)os + (choose(3) - 1);
    if (declared < 0) declared = 0;
    Bytes k(os, 0); if (content == 1) k = Bytes(os, '\xff'); if (content == 2) k = ref::pattern(5, os); if (content == 3 && os) k[os - 1] = 1;
    Bytes body = Bytes("\2\1\1\4", 4) + (char)declared + k + Bytes(tail, 'x'); int len = (int)body.size() + delta; if (len < 0) len = 0;
    Bytes s("\x30"); s += (char)lb; int nb = lb == 0x82 ? 2 : lb == 0x83 ? 3 : lb == 0x84 ? 4 : lb == 0x81 ? 1 : lb == 0xff ? 127 : 0;
    for (int i = nb - 1; i >= 0; i--) s += (char)(i < 4 ? len >> (8 * i) : 0); decode(s + body);
  }, "every octet string length 0..39 x length-of-length forms x declared lengths off by -3..3 x 4 contents x trailing bytes");
  add("short-strings", 256, [](long a) { int b = choose(257); Bytes s(1, (char)a); if (b) s += (char)(b - 1); decode(s); if (!a) decode(""); }, "all strings of 0-2 bytes");
  add("prefixes", 9, [](long n) { Bytes s = der_key(ref::pattern(5, 32), true).substr(0, n); s += Bytes(choose(45), (char)choose(256)); decode(s); }, "header prefixes continued with runs of every byte");
  add("long-tails", 256, [](long b) {                        // every first length byte, with enough bytes behind for any reading of it
    static const std::vector<int> T = {0, 1, 100, 127, 128, 129, 130, 255, 256, 257, 300, 400, 33000, 65535, 65536, 70000}; int tail = choose_of(T), lay = choose(6), lenb = (int)b & 0x7f;
    Bytes k = ref::pattern(5, 32), body = Bytes("\2\1\1\4\x20", 5) + k; static const int V[] = {0, 37, 37 + 1, 127, 255};
    Bytes s("\x30"); s += (char)b;
    if (lay < 5) { int v = lay == 1 ? 37 + tail : lay == 2 ? 37 : lay == 3 ? 38 + tail : V[lay]; for (int i = lenb - 1; i >= 0; i--) s += (char)(i < 4 ? v >> (8 * i) : 0); }   // as many length bytes as announced, or none
    decode(s + body + Bytes(tail, lay & 1 ? 0 : 'x'));
  }, "all 256 first length bytes, with or without that many length bytes, 0..70000 bytes behind");
  add_patient("giant", 5, [](long u) {                               // more than 2^32 bytes behind (or instead of) the encoding
    static const uint64_t N[] = {1ull << 32, (1ull << 32) + 1, (1ull << 32) + 40, (1ull << 32) + 214, 1ull << 31}; Bytes k = ref::pattern(5, 32);
    key_init(); giant::In in(Bytes(1 << 20, 0), N[u]); in.set(0, der_key(k, u & 1)); uint8_t o[34]; memset(o, 0x3C, 34); op();
    int r = fingera_btc_key_decode(in.b, N[u], o + 1); checked(); note("encoding in %llu bytes -> %d", (unsigned long long)N[u], r);
    if (!r || Bytes((char*)o + 1, 32) != k || o[0] != 0x3C || o[33] != 0x3C) fail("key_decode of an encoding at the front of %llu bytes returned %d and the key %s", (unsigned long long)N[u], r, hex(o + 1, 32).c_str());
  }, "an encoding at the front of 2^31..2^32 bytes");
}
int main(int c, char** v) { return run(c, v, "C12", define, {"OpenSSL's secp256k1", "the accepted grammar is the one documented above the decoder (Bitcoin Core's)"}); }
