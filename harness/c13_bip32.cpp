// C13: BIP32 derivation histories: the real library and the reference walk the same tree.
#include "api.hpp"
#include "giant.hpp"
#include <openssl/hmac.h>
#include <openssl/evp.h>
#include "ref.hpp"
using namespace mc;
using ref::XKey;

static XKey from_lib(const fingera_ex_key& k) { uint8_t fp[4]; memcpy(fp, &k.ext.fingerprint, 4); return {true, k.ext.depth, k.ext.child, Bytes((char*)fp, 4), Bytes((char*)k.ext.chain_code, 32), Bytes((char*)k.key, 32)}; }
static XKey from_lib(const fingera_ex_pubkey& k) { uint8_t fp[4]; memcpy(fp, &k.ext.fingerprint, 4); return {false, k.ext.depth, k.ext.child, Bytes((char*)fp, 4), Bytes((char*)k.ext.chain_code, 32), Bytes((char*)k.c_pubkey, 33)}; }
static fingera_ex_key to_lib(const XKey& m) { fingera_ex_key k; memset(&k, 0, sizeof k); k.ext.depth = m.depth; k.ext.child = m.child; memcpy(&k.ext.fingerprint, m.fp.data(), 4); memcpy(k.ext.chain_code, m.chain.data(), 32); memcpy(k.key, m.key.data(), 32); return k; }
static fingera_ex_pubkey to_pub(const XKey& m) { fingera_ex_pubkey k; memset(&k, 0, sizeof k); k.ext.depth = m.depth; k.ext.child = m.child; memcpy(&k.ext.fingerprint, m.fp.data(), 4); memcpy(k.ext.chain_code, m.chain.data(), 32); memcpy(k.c_pubkey, m.key.data(), 33); return k; }
static void same(const char* what, const XKey& a, const XKey& b) {
  checked();
  if (ref::ser74(a) != ref::ser74(b)) fail("%s: got %s, BIP32 says %s", what, hex(ref::ser74(a)).c_str(), hex(ref::ser74(b)).c_str());
}
struct Node { XKey m; fingera_ex_key k; fingera_ex_pubkey p; Bytes fp; };
static void publish(Node& n) {                              // fill the public side and compare
  key_init();
  call(fingera_exkey_get_pub, (const fingera_ex_key*)&n.k, &n.p);
  same("exkey_get_pub", from_lib(n.p), ref::neuter(n.m));
  uint32_t a = call(fingera_btc_key_fingerprint, (const void*)n.k.key, 1), b = call(fingera_btc_pubkey_fingerprint, (const void*)n.p.c_pubkey);
  n.fp = ref::fingerprint(n.m);
  expect("key_fingerprint", Bytes((char*)&a, 4), n.fp, n.m.key); expect("pubkey_fingerprint", Bytes((char*)&b, 4), n.fp, n.m.key);
}
static Node root(const Bytes& seed) {
  Node n; n.m = ref::master(seed); memset(&n.k, 0xEE, sizeof n.k); Tail s(seed);
  call(fingera_exkey_init, &n.k, (const void*)s.data(), s.size());
  note("master of seed %s = %s", hex(seed, 20).c_str(), hex(ref::ser74(n.m)).c_str());
  same("exkey_init", from_lib(n.k), n.m); publish(n); return n;
}
// derive one child in every way the API offers; all have to agree with the model
static bool step(const Node& n, uint32_t child, Node& out, bool full = true) {
  uint32_t fp; memcpy(&fp, n.fp.data(), 4);
  XKey m; bool ok = ref::ckd(n.m, child, m); m.fp = n.fp;
  fingera_ex_key parent = n.k, k; memset(&k, 0xDD, sizeof k);
  int r = call(fingera_exkey_derive, (const fingera_ex_key*)&parent, &k, child, fp);
  note("child %u of depth %d -> %d", child, n.m.depth, r);
  if (memcmp(&parent, &n.k, sizeof parent)) fail("exkey_derive changed its parent");
  expect_n("exkey_derive return", !!r, ok, ref::ser74(n.m) + ref::be32(child));
  if (ok) same("exkey_derive", from_lib(k), m);
  // public side
  fingera_ex_pubkey pp = n.p, pk; memset(&pk, 0xDD, sizeof pk); XKey pm; bool pok = ref::ckd(ref::neuter(n.m), child, pm); pm.fp = n.fp;
  int rp = call(fingera_expubkey_derive, (const fingera_ex_pubkey*)&pp, &pk, child, fp);
  if (memcmp(&pp, &n.p, sizeof pp)) fail("expubkey_derive changed its parent");
  expect_n("expubkey_derive return", !!rp, pok, ref::ser74(n.m) + ref::be32(child));
  if (pok) same("expubkey_derive", from_lib(pk), pm);
  if (full) {
    Out ok32(32), oc32(32); uint8_t key[33], chain[32]; memcpy(key, n.k.key, 32); memcpy(chain, n.k.ext.chain_code, 32); XKey any; bool raw = n.m.depth < 255 ? ok : ref::ckd(XKey{true, 0, 0, n.m.fp, n.m.chain, n.m.key}, child, any);
    if (n.m.depth < 255) any = m;
    int r2 = call(fingera_btc_key_derive, (const void*)key, (const void*)chain, (void*)ok32.p(), (void*)oc32.p(), child); ok32.check("key_derive"); oc32.check("key_derive");
    expect_n("key_derive return", !!r2, raw, n.m.key); if (raw) { expect("key_derive key", ok32.str(), any.key, n.m.key); expect("key_derive chain", oc32.str(), any.chain, n.m.key); }
    Out pk33(33), pc32(32); memcpy(key, n.p.c_pubkey, 33);
    int r3 = call(fingera_btc_pubkey_derive, (const void*)key, (const void*)chain, (void*)pk33.p(), (void*)pc32.p(), child); pk33.check("pubkey_derive"); pc32.check("pubkey_derive");
    expect_n("pubkey_derive return", !!r3, raw && !(child >> 31), n.m.key); if (raw && !(child >> 31)) { expect("pubkey_derive key", pk33.str(), ref::pub(any.key), n.m.key); expect("pubkey_derive chain", pc32.str(), any.chain, n.m.key); }
    // derived over the parent
    fingera_ex_key self = n.k; int r4 = call(fingera_exkey_derive, (const fingera_ex_key*)&self, &self, child, fp); expect_n("exkey_derive in place", !!r4, ok, n.m.key); if (ok) same("exkey_derive in place", from_lib(self), m);
    fingera_ex_pubkey ps = n.p; int r5 = call(fingera_expubkey_derive, (const fingera_ex_pubkey*)&ps, &ps, child, fp); expect_n("expubkey_derive in place", !!r5, pok, n.m.key); if (pok) same("expubkey_derive in place", from_lib(ps), pm);
  }
  if (ok) { out.m = m; out.k = k; publish(out); if (pok) same("commutation: public child", from_lib(pk), from_lib(out.p)); }
  return ok;
}
static void define() {
  static const std::vector<uint32_t> CH = {0, 1, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 255, 256, 0x01020304, 0x81020304};
  add("seeds", pick(300, 1000), [](long len) { root(ref::pattern(choose(4) + 3, len)); }, "seeds of every length 0..299 x 4 contents");
  int D = pick(3, 5);
  add("paths", 100, [D](long u) {                           // every path over the child choices
    Node n = root(ref::pattern(5, 64)); Node c; if (!step(n, CH[u % 10], c)) return; n = c; if (!step(n, CH[u / 10], c)) return; n = c;
    for (int d = 2; d < D; d++) { if (!step(n, choose_of(CH), c)) return; n = c; }
  }, "every path of depth " + std::to_string(D) + " over 10 child numbers (plain, hardened, byte-order edges)");
  add("children", pick(2000, 30000), [](long i) {             // many siblings: keys, chain codes and coordinates with leading zeros occur
    Node n = root(ref::pattern(6, 32)), c; step(n, (uint32_t)i, c, false); step(n, 0x80000000u + (uint32_t)i, c, false);
  }, "the first 2000 plain and hardened children of one master");
  add("child-bits", 32, [](long b) { Node n = root(ref::pattern(4, 16)), c; uint32_t ch = 1u << b; int k = choose(3); if (k == 1) ch = ~ch; if (k == 2) ch |= 0x80000000u; step(n, ch, c); }, "every bit of the child number");
  static const std::vector<Bytes> KEYS = [] { Bytes one(32, 0); one[31] = 1; Bytes n = ref::order(); Bytes z = ref::pattern(5, 32); z[0] = 0; Bytes zz = z; zz[1] = zz[2] = zz[3] = 0; return std::vector<Bytes>{one, ref::add_int(one, 1), ref::add_int(n, -1), ref::add_int(n, -2), z, zz, Bytes(31, 0) + '\x7f', ref::pattern(5, 32)}; }();
  add("edge-parents", (long)KEYS.size(), [](long u) {       // parents set up field by field
    static const std::vector<int> DE = {0, 1, 127, 128, 253, 254, 255}; static const std::vector<int> CC = {0, 1, 5};
    XKey m{true, choose_of(DE), 0x11223344, "\1\2\3\4", ref::pattern(choose_of(CC), 32), KEYS[u]}; Node n, c; n.m = m; n.k = to_lib(m); publish(n);
    uint32_t ch = choose_of(CH); if (step(n, ch, c) && m.depth >= 253) { Node c2; step(c, 5, c2); }
  }, "8 edge keys (1, order-1, leading zeros) x depths 0, 1, 127, 128, 253-255 x 3 chain codes x 10 children, and one level further near depth 255");
  add("all-depths", 256, [](long d) { XKey m{true, (int)d, 7, "\xff\xfe\xfd\xfc", ref::pattern(5, 32), ref::pattern(6, 32)}; Node n, c; n.m = m; n.k = to_lib(m); publish(n); step(n, choose(2) ? 3 : 0x80000003u, c, false); }, "every depth 0..255");
  add("public-only", 16, [](long u) {                       // invalid parents: bad prefix byte, x not on the curve
    key_init(); XKey m = ref::neuter(ref::master(ref::pattern(5, 32))); int k = (int)u; Bytes bad = m.key;
    if (k < 8) bad[0] = "\0\1\4\5\6\7\x0a\xff"[k]; else if (k == 8) bad = Bytes(33, 0); else if (k == 9) bad = "\2" + Bytes(32, '\xff'); else if (k == 10) bad = "\2" + ref::be(ref::C().p); else { bad = "\2" + Bytes(32, 0); int x = 0, found = 0; ref::Point P; while (found < k - 10) { x++; bad[32] = (char)x; if (!ref::parse_point(bad, P)) found++; } }
    m.key = bad; fingera_ex_pubkey p = to_pub(m), out; memset(&out, 0, sizeof out); ref::Point P; bool valid = ref::parse_point(bad, P) && (bad[0] == 2 || bad[0] == 3);
    uint32_t ch = choose_of(CH); int r = call(fingera_expubkey_derive, (const fingera_ex_pubkey*)&p, &out, ch, 1u);
    note("parent key %s -> %d", hex(bad).c_str(), r);
    expect_n("expubkey_derive of an invalid parent", !!r, valid && !(ch >> 31), bad);
  }, "public parents with a bad prefix byte or no point of the curve");
  add("foreign-fingerprint", 32, [](long b) {               // the fingerprint given by the caller is stored as it is
    Node n = root(ref::pattern(5, 32)); uint32_t fp = 1u << b; if (choose(2)) fp = ~fp; fingera_ex_key k; fingera_ex_pubkey p; call(fingera_exkey_derive, (const fingera_ex_key*)&n.k, &k, 5u, fp); call(fingera_expubkey_derive, (const fingera_ex_pubkey*)&n.p, &p, 5u, fp); checked(); if (k.ext.fingerprint != fp || p.ext.fingerprint != fp) fail("stored fingerprint %08x/%08x, given %08x", k.ext.fingerprint, p.ext.fingerprint, fp);
  }, "every bit of the fingerprint");
  add_patient("giant-seed", pick(1, 2), [](long u) {                 // a seed of more than 4 GiB
    uint64_t n = (1ull << 32) + (u ? 0 : 16); const uint8_t* g = giant::get(); unsigned char w[64]; unsigned l = 64;
    HMAC_CTX* h = HMAC_CTX_new(); HMAC_Init_ex(h, "Bitcoin seed", 12, EVP_sha512(), 0); for (uint64_t i = 0; i < n; i += 1 << 30) HMAC_Update(h, g + i, std::min(n - i, (uint64_t)1 << 30)); HMAC_Final(h, w, &l); HMAC_CTX_free(h);
    fingera_ex_key k; memset(&k, 0xEE, sizeof k); op(); fingera_exkey_init(&k, g, n); checked(); note("seed of %llu bytes", (unsigned long long)n);
    if (memcmp(k.key, w, 32) || memcmp(k.ext.chain_code, w + 32, 32) || k.ext.depth || k.ext.child || k.ext.fingerprint) fail("the master key of a seed of %llu bytes is wrong", (unsigned long long)n);
  }, "a seed of more than 2^32 bytes");
}
int main(int c, char** v) { return run(c, v, "C13", define, {"OpenSSL's HMAC-SHA512 parts and secp256k1", "tweaks outside the group order cannot be reached through HMAC; failing tweaks are explored in C27"}); }
