// C15: signing against RFC 6979 with the smallest low-R counter; verification of made and tampered signatures.
#include "api.hpp"
#include "ref.hpp"
using namespace mc;
using ref::Sig;
struct S64 { uint8_t b[64]; };
static S64 from_rs(const Sig& s) { S64 r; Bytes d = ref::der_sig(s); memset(&r, 0, sizeof r); if (!call(fingera_btc_signature_decode, (const void*)d.data(), d.size(), (void*)r.b)) fail("signature_decode refused the strict encoding %s", hex(d).c_str()); return r; }
static Bytes der(const S64& s) { Out o(72); size_t n = call(fingera_btc_signature_encode, (const void*)s.b, (void*)o.p()); o.check("signature_encode"); if (n > 72) fail("signature_encode returned %zu", n); return o.str(n); }
static S64 pub_of(const Bytes& key) { S64 p; Bytes k = key; call(fingera_btc_key_get_pub, (const void*)k.data(), (void*)p.b); return p; }
static S64 sign(const Bytes& key, const Bytes& h) {
  key_init();
  Out o(64); Bytes k = key, hh = h;
  call(fingera_btc_key_sign, (const void*)k.data(), (const void*)hh.data(), (void*)o.p()); o.check("key_sign");
  if (k != key || hh != h) fail("key_sign changed its input");
  S64 s; memcpy(s.b, o.p(), 64); return s;
}
static bool verify(const S64& p, const Bytes& h, const S64& s) {
  S64 pc = p, sc = s; Bytes hh = h; int r = call(fingera_btc_key_verify, (const void*)pc.b, (const void*)hh.data(), (const void*)sc.b);
  if (memcmp(&pc, &p, 64) || memcmp(&sc, &s, 64) || hh != h) fail("key_verify changed its input");
  return r != 0;
}
static void expect_verify(const char* what, const S64& p, const Bytes& pubkey, const Bytes& h, const Sig& s) {
  bool w = ref::verify(pubkey, h, s); S64 x = from_rs(s); bool g = verify(p, h, x); checked();
  note("%s: verify -> %d", what, g);
  if (g != w) fail("%s: key_verify says %d, ECDSA says %d: public key %s hash %s r %s s %s", what, g, w, hex(pubkey).c_str(), hex(h).c_str(), hex(s.r).c_str(), hex(s.s).c_str());
}
static Sig full(const Bytes& key, const Bytes& h) {
  uint32_t counter = 0; Sig w = ref::sign_low_r(key, h, &counter); S64 s = sign(key, h); Bytes d = der(s), wd = ref::der_sig(w);
  note("key %s hash %s -> %s (counter %u)", hex(key).c_str(), hex(h).c_str(), hex(d).c_str(), counter);
  expect("key_sign (DER)", d, wd, key + h);
  if (d.size() > 71) fail("signature of %zu bytes", d.size());
  if (!verify(pub_of(key), h, s)) fail("the signature %s of %s by %s does not verify", hex(d).c_str(), hex(h).c_str(), hex(key).c_str());
  return w;
}
static const std::vector<Bytes>& keys() { static std::vector<Bytes> v; if (v.empty()) { Bytes one(32, 0); one[31] = 1; Bytes n = ref::order(); v = {one, ref::add_int(n, -1), ref::add_int(one, 1), ref::add_int(n, -2), ref::pattern(5, 32), ref::pattern(6, 32), Bytes("\0\0", 2) + ref::pattern(5, 30), Bytes("\x7f") + Bytes(31, '\xff')}; } return v; }
static const std::vector<Bytes>& hashes() { static std::vector<Bytes> v; if (v.empty()) { Bytes one(32, 0); one[31] = 1; Bytes n = ref::order(); v = {Bytes(32, 0), one, ref::add_int(n, -1), n, ref::add_int(n, 1), Bytes(32, '\xff'), Bytes(1, '\x80') + Bytes(31, 0), ref::pattern(5, 32), ref::pattern(6, 32), ref::pattern(2, 32)}; } return v; }
static Sig neg_s(const Sig& s) { ref::BN x(s.s), r; BN_sub(r, ref::C().n, x); return {s.r, ref::be(r)}; }
static void define() {
  add("edges", (long)(keys().size() * hashes().size()), [](long u) {
    const Bytes &k = keys()[u % keys().size()], &h = hashes()[u / keys().size()]; Sig s = full(k, h); S64 p = pub_of(k); Bytes pk = ref::pub(k);
    expect_verify("high-S twin", p, pk, h, neg_s(s));
    S64 t = from_rs(neg_s(s)); if (!verify(p, h, t)) fail("the high-S twin does not verify");
    Bytes other = ref::pub(keys()[(u + 1) % keys().size()]); expect_verify("another key", pub_of(keys()[(u + 1) % keys().size()]), other, h, s);
    for (auto& h2 : hashes()) expect_verify("edge hash", p, pk, h2, s);
  }, "8 edge keys x 10 edge hashes; high-S twin, other key, all other edge hashes");
  int M = pick(3000, 60000);
  add("messages", M, [](long i) { full(ref::pattern(5, 32), ref::sha256("message " + std::to_string(i))); }, std::to_string(M) + " messages (low-R counters 0..~12 all occur)");
  add("keys", pick(1000, 20000), [](long i) { full(ref::sha256("key " + std::to_string(i)), ref::pattern(6, 32)); }, "1000 keys");
  add("small-keys", pick(100, 500), [](long i) { Bytes k = ref::add_int(Bytes(32, 0), i + 1); if (choose(2)) k = ref::add_int(ref::order(), -(i + 1)); full(k, hashes()[choose(3) * 3]); }, "keys next to 0 and to the order");
  // Messages found by search (key 01 02 .. 20, message = the number, big-endian): how often the nonce is drawn again before R is low.
  static const struct { uint32_t counter, message; } deep[] = {{11, 6425}, {11, 23186}, {12, 6528}, {12, 42811}, {13, 20584}, {13, 45889}, {14, 3465}, {14, 56609}, {15, 191035}, {15, 365801}, {16, 208850}, {16, 326576}, {17, 174232}, {17, 987378}, {18, 275833}, {18, 467634}, {19, 1588913}, {19, 2774667}, {20, 394747}, {20, 1203962}, {21, 4285745}, {21, 24616961}, {22, 9570323}, {22, 37080920}, {23, 54873899}, {23, 95834874}, {24, 8377144}, {24, 26564992}, {25, 106908691}, {25, 192224755}, {26, 3707648}, {26, 112257275}};
  add("deep-grind", sizeof deep / sizeof *deep, [](long i) {
    Bytes k(32, 0), h(28, 0); for (int b = 0; b < 32; b++) k[b] = (char)(b + 1);
    h += ref::be32(deep[i].message); uint32_t c = 0; ref::sign_low_r(k, h, &c);
    if (c != deep[i].counter) fail("model: counter %u, not %u", c, deep[i].counter);
    full(k, h);
  }, "messages whose low-R counter is 11..26");
  static const Bytes K = ref::pattern(5, 32), H = ref::pattern(6, 32);
  add("structured-hashes", 32, [](long z) {                 // runs of zero or one bytes at either end, then every bit
    Bytes h = ref::pattern(5, 32); int kind = choose(4); for (int i = 0; i < z; i++) h[kind & 1 ? 31 - i : i] = kind & 2 ? '\xff' : 0;
    int at = kind & 1 ? 31 - (int)z : (int)z; int next = choose(4); h[at] = (char)(next == 0 ? 0x80 : next == 1 ? 0xff : next == 2 ? 1 : 0x7f);
    key_init(); Sig s = ref::sign_low_r(K, h); full(K, h); for (int b = 0; b < 256; b += 5) { Bytes t = h; t[b / 8] ^= 1 << b % 8; expect_verify("hash with one other bit", pub_of(K), ref::pub(K), t, s); } Bytes t = h; for (int b = 0; b < 8; b++) { t = h; t[at] ^= 1 << b; expect_verify("hash with one other bit", pub_of(K), ref::pub(K), t, s); }
  }, "hashes that begin or end in 0..31 zero or all-one bytes followed by 80, ff, 01, 7f; tampered in many bits");
  add("structured-keys", 32, [](long z) { Bytes k = ref::pattern(5, 32); int kind = choose(3); for (int i = 0; i < z; i++) k[kind & 1 ? 31 - i : i] = kind & 2 ? '\xff' : 0; if (!ref::valid_key(k)) return; full(k, H); full(k, Bytes(1, 0) + ref::pattern(6, 31)); }, "keys that begin or end in 0..31 zero bytes or begin with all-one bytes");
  add("tampered-hash", 256, [](long b) { key_init(); static Sig s = ref::sign_low_r(K, H); Bytes h = H; h[b / 8] ^= 1 << b % 8; expect_verify("tampered hash", pub_of(K), ref::pub(K), h, choose(2) ? s : neg_s(s)); }, "every bit of the hash flipped, low and high S");
  add("tampered-signature", 512, [](long b) { key_init(); static Sig s0 = ref::sign_low_r(K, H); Sig s = choose(2) ? s0 : neg_s(s0); Bytes& t = b < 256 ? s.r : s.s; t[b % 256 / 8] ^= 1 << b % 8; if (!ref::valid_key(s.r) || !ref::valid_key(s.s)) return; expect_verify("tampered signature", pub_of(K), ref::pub(K), H, s); }, "every bit of R and S flipped");
  add("tampered-key", 256, [](long b) { key_init(); static Sig s = ref::sign_low_r(K, H); Bytes k = K; k[b / 8] ^= 1 << b % 8; if (!ref::valid_key(k)) return; expect_verify("other key", pub_of(k), ref::pub(k), H, s); }, "every bit of the private key flipped");
  add("forged", 9 * 9, [](long u) { key_init(); static Sig s = ref::sign_low_r(K, H); Bytes one(32, 0), z(32, 0); one[31] = 1; Bytes n = ref::order(); auto pickv = [&](int i, bool r) -> Bytes { switch (i) { case 0: return z; case 1: return one; case 2: return ref::add_int(n, -1); case 3: return n; case 4: return ref::add_int(n, 1); case 5: return Bytes(32, '\xff'); case 6: return r ? s.r : s.s; case 7: return r ? s.s : s.r; default: return r ? ref::add_int(s.r, 1) : neg_s(s).s; } };
    Sig f{pickv(u % 9, true), pickv(u / 9, false)}; for (auto& h : {H, z}) { bool w = ref::verify(ref::pub(K), h, f); S64 x = from_rs(f); bool g = verify(pub_of(K), h, x); checked(); note("forged r %s s %s -> %d", hex(f.r).c_str(), hex(f.s).c_str(), g); if (g != w) fail("key_verify says %d for r %s s %s, ECDSA says %d", g, hex(f.r).c_str(), hex(f.s).c_str(), w); } }, "R and S from {0, 1, n-1, n, n+1, all ones, right, exchanged, off}: never verifies unless it should");
  add("negated-key", 8, [](long u) { key_init(); const Bytes& k = keys()[u]; ref::BN x(k), r; BN_sub(r, ref::C().n, x); Bytes nk = ref::be(r); Bytes h = hashes()[choose((int)hashes().size())]; Sig s = ref::sign_low_r(k, h); expect_verify("negated key", pub_of(nk), ref::pub(nk), h, s); }, "the negated key (same x) does not verify");
  add("repeat", 40, [](long i) { key_init(); Bytes k = ref::sha256("r" + std::to_string(i)); S64 a = sign(k, H), b = sign(k, H); checked(); if (memcmp(&a, &b, 64)) fail("signing twice gives two signatures"); fingera_btc_key_uninit(); fingera_btc_key_init(); S64 c = sign(k, H); if (memcmp(&a, &c, 64)) fail("signing after a new random blinding gives another signature"); }, "signing is deterministic, also across re-initialisation (new blinding)");
}
int main(int c, char** v) { return run(c, v, "C15", define, {"OpenSSL's secp256k1 arithmetic", "a hash that is equal modulo the group order verifies: that is ECDSA"}); }
