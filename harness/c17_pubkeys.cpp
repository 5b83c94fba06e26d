// C17: public keys against OpenSSL: creation, both encodings, decoding of every kind of string, ids.
#include "api.hpp"
#include "ref.hpp"
#include <climits>
using namespace mc;
struct S64 { uint8_t b[64]; bool operator==(const S64& o) const { return !memcmp(b, o.b, 64); } };
static Bytes enc(const S64& p, size_t n) { Out o(n); S64 c = p; int r = call(fingera_btc_pubkey_encode, (const void*)c.b, (void*)o.p(), n); o.check("pubkey_encode"); if (!r) fail("pubkey_encode failed"); if (!(c == p)) fail("pubkey_encode changed its input"); return o.str(); }
static void key(const Bytes& k) {
  key_init();
  Out o(64); Bytes kc = k; call(fingera_btc_key_get_pub, (const void*)kc.data(), (void*)o.p()); o.check("key_get_pub"); if (kc != k) fail("key_get_pub changed the key");
  S64 p; memcpy(p.b, o.p(), 64);
  Bytes w33 = ref::pub(k, true), w65 = ref::pub(k, false);
  note("key %s -> %s", hex(k).c_str(), hex(w33).c_str());
  expect("public key, compressed", enc(p, 33), w33, k); expect("public key, uncompressed", enc(p, 65), w65, k);
  for (int c = 0; c < 2; c++) {
    const Bytes& w = c ? w33 : w65; S64 d; memset(&d, 1, 64); int r = call(fingera_btc_pubkey_decode, (const void*)w.data(), w.size(), (void*)d.b); checked(); if (!r || !(d == p)) fail("pubkey_decode of %s does not give the same public key", hex(w).c_str());
    Bytes id = ref::hash160(w); Out a(20), b(20); call(fingera_btc_key_keyid, (const void*)kc.data(), c, (void*)a.p()); call(fingera_btc_pubkey_keyid, (const void*)p.b, c, (void*)b.p()); a.check("key_keyid"); b.check("pubkey_keyid");
    expect("key_keyid", a.str(), id, k); expect("pubkey_keyid", b.str(), id, k);
    uint32_t f = call(fingera_btc_key_fingerprint, (const void*)kc.data(), c); expect("key_fingerprint", Bytes((char*)&f, 4), id.substr(0, 4), k);
  }
  for (int c : {2, -1, 256, 4, 1 << 16, 1 << 30, INT_MIN}) {   // any other value is true
    Bytes id = ref::hash160(w33); Out a(20), b(20); call(fingera_btc_key_keyid, (const void*)kc.data(), c, (void*)a.p()); call(fingera_btc_pubkey_keyid, (const void*)p.b, c, (void*)b.p()); a.check("key_keyid"); b.check("pubkey_keyid");
    expect("key_keyid", a.str(), id, k); expect("pubkey_keyid", b.str(), id, k);
    uint32_t f = call(fingera_btc_key_fingerprint, (const void*)kc.data(), c); expect("key_fingerprint", Bytes((char*)&f, 4), id.substr(0, 4), k);
  }
  uint32_t f = call(fingera_btc_pubkey_fingerprint, (const void*)w33.data()); expect("pubkey_fingerprint", Bytes((char*)&f, 4), ref::hash160(w33).substr(0, 4), k);
}
static void decode(const Bytes& s) {                        // 33 or 65 bytes
  key_init();
  ref::Point P; bool hybrid = s.size() == 65 && (s[0] == 6 || s[0] == 7); bool form = s.size() == 33 ? (s[0] == 2 || s[0] == 3) : (s[0] == 4 || hybrid);
  bool ok = form && ref::parse_point(s, P);
  Out o(64); Tail c(s); int r = call(fingera_btc_pubkey_decode, (const void*)c.data(), c.size(), (void*)o.p()); o.check("pubkey_decode"); if (c != s) fail("pubkey_decode changed its input");
  note("decode %s -> %d", hex(s).c_str(), r);
  checked();
  if (!ok) { if (r) fail("pubkey_decode accepted %s", hex(s).c_str()); return; }
  if (!r) { if (hybrid) return; fail("pubkey_decode refused %s", hex(s).c_str()); }
  S64 p; memcpy(p.b, o.p(), 64); expect("decoded key, compressed", enc(p, 33), ref::ser(P, true), s); expect("decoded key, uncompressed", enc(p, 65), ref::ser(P, false), s);
}
static Bytes num(const Bytes& base, long d) { return ref::add_int(base, d); }
static void define() {
  Bytes n = ref::order(), z(32, 0);
  add("small-keys", pick(300, 5000), [](long i) { key(num(Bytes(32, 0), i + 1)); key(num(ref::order(), -(i + 1))); }, "keys next to zero and next to the order");
  add("powers", 256, [](long b) { Bytes k(32, 0); k[b / 8] |= 1 << b % 8; if (choose(2)) k = ref::add_mod_n(k, ref::pattern(5, 32)); key(k); }, "every power of two");
  add("keys", pick(400, 10000), [](long i) { key(ref::sha256("k" + std::to_string(i))); }, "400 hashed keys (coordinates with leading zero bytes and both parities occur)");
  add("small-x", pick(1500, 20000), [](long x) { int tag = choose(2) + 2; decode(Bytes(1, (char)tag) + num(Bytes(32, 0), x)); if (x < 300) decode(Bytes(1, (char)tag) + num(ref::be(ref::C().p), x - 150)); if (x < 150) decode(Bytes(1, (char)tag) + num(ref::order(), x - 75)); if (x < 100) decode(Bytes(1, (char)tag) + num(Bytes(32, '\xff'), -x)); }, "x = 0..1499 and around the field size, the order and 2^256, both parities: about half are no points");
  add("tags", 256, [](long t) { Bytes k = ref::pattern(5, 32); k[31] = (char)choose(8); Bytes a = ref::pub(k, true), b = ref::pub(k, false); a[0] = (char)t; decode(a); b[0] = (char)t; decode(b); }, "all 256 leading bytes of both encodings, both parities");
  add("y-bits", 256, [](long bit) { Bytes k = ref::pattern(6, 32); k[31] = (char)choose(4); Bytes b = ref::pub(k, false); int tag = choose(3); if (tag) b[0] = tag == 1 ? 6 : 7; decode(b); b[33 + bit / 8] ^= 1 << bit % 8; decode(b); }, "every bit of y flipped under 04, 06, 07");
  add("x-bits", 256, [](long bit) { Bytes k = ref::pattern(6, 32); k[31] = (char)choose(4); Bytes b = ref::pub(k, false); b[1 + bit / 8] ^= 1 << bit % 8; decode(b); decode((choose(2) ? "\2" : "\3") + b.substr(1, 32)); }, "every bit of x flipped in both encodings");
  add("negated", 30, [](long i) { Bytes k = ref::sha256("n" + std::to_string(i)); ref::BN x(k), r; BN_sub(r, ref::C().n, x); Bytes b = ref::pub(ref::be(r), false), a = ref::pub(k, false); decode(a); decode(b); Bytes m = a.substr(0, 33) + b.substr(33); decode(m); m[0] = 6; decode(m); m[0] = 7; decode(m); Bytes c = ref::pub(k, true); c[0] ^= 1; decode(c); }, "negated points, exchanged y, exchanged parity");
  add("infinity", 8, [](long k) { Bytes s(k & 1 ? 33 : 65, 0); s[0] = "\0\2\4\6"[k / 2]; decode(s); s = Bytes(k & 1 ? 33 : 65, '\xff'); s[0] = "\3\2\4\7"[k / 2]; decode(s); }, "all-zero and all-one coordinates");
  add("unreduced", 20, [](long i) { Bytes p = ref::be(ref::C().p); for (int t = 2; t < 4; t++) decode(Bytes(1, (char)t) + num(p, i)); Bytes one = num(Bytes(32, 0), i + 1); ref::Point P; if (ref::parse_point("\2" + one, P)) { Bytes u = ref::ser(P, false); decode("\2" + num(p, i + 1)); ref::BN y(u.substr(33)), s; BN_add(s, y, ref::C().p); if (BN_num_bits(s) <= 256) decode(u.substr(0, 33) + ref::be(s)); decode("\4" + num(p, i + 1) + u.substr(33)); } }, "coordinates not reduced modulo the field size");
}
int main(int c, char** v) { return run(c, v, "C17", define, {"OpenSSL's secp256k1", "hybrid encodings (06/07) with the right parity may be accepted or refused"}); }
