// C14: extended keys: 74-byte form, strings, and acceptance exactly as the format says.
#include "api.hpp"
#include "giant.hpp"
#include "ref.hpp"
using namespace mc;
using ref::XKey;
static XKey from_lib(const fingera_ex_key& k) { uint8_t fp[4]; memcpy(fp, &k.ext.fingerprint, 4); return {true, k.ext.depth, k.ext.child, Bytes((char*)fp, 4), Bytes((char*)k.ext.chain_code, 32), Bytes((char*)k.key, 32)}; }
static XKey from_lib(const fingera_ex_pubkey& k) { uint8_t fp[4]; memcpy(fp, &k.ext.fingerprint, 4); return {false, k.ext.depth, k.ext.child, Bytes((char*)fp, 4), Bytes((char*)k.ext.chain_code, 32), Bytes((char*)k.c_pubkey, 33)}; }
template <class T> static void common(T& k, const XKey& m) { memset(&k, 0xAB, sizeof k); k.ext.depth = m.depth; k.ext.child = m.child; memcpy(&k.ext.fingerprint, m.fp.data(), 4); memcpy(k.ext.chain_code, m.chain.data(), 32); }
static fingera_ex_key to_priv(const XKey& m) { fingera_ex_key k; common(k, m); memcpy(k.key, m.key.data(), 32); return k; }
static fingera_ex_pubkey to_pub(const XKey& m) { fingera_ex_pubkey k; common(k, m); memcpy(k.c_pubkey, m.key.data(), 33); return k; }

struct P { Bytes pub, prv; chain_parameters c; const chain_parameters* use; };
static std::vector<P>& params() {
  static std::vector<P> v;
  if (v.empty()) {
    v.reserve(8);
    for (int i = 0; i < 3; i++) { P p; p.pub = ref::be32(nets()[i].xpub); p.prv = ref::be32(nets()[i].xprv); v.push_back(p); }
    P a; a.pub = Bytes("\x04\x88", 2); a.prv = Bytes("\0\0\1", 3); v.push_back(a);
    P b; b.pub = ref::pattern(5, 8); b.prv = ref::pattern(6, 8); v.push_back(b);
    P d; d.pub = Bytes("\x7f", 1); d.prv = Bytes("\x80", 1); v.push_back(d);
    for (size_t i = 0; i < v.size(); i++) { P& p = v[i]; p.c = *nets()[0].p; p.c.prefix_ext_public_key = p.pub.data(); p.c.prefix_ext_public_key_size = p.pub.size(); p.c.prefix_ext_secret_key = p.prv.data(); p.c.prefix_ext_secret_key_size = p.prv.size(); p.use = i < 3 ? nets()[i].p : &p.c; }
  }
  return v;
}
static XKey parse74(bool priv, const Bytes& b) { XKey m{priv, (uint8_t)b[0], 0, b.substr(1, 4), b.substr(9, 32), priv ? b.substr(42) : b.substr(41)}; for (int i = 5; i < 9; i++) m.child = m.child << 8 | (uint8_t)b[i]; return m; }
static void decode(const Bytes& s, const P& p) {
  Bytes pay; bool sum = ref::unbase58check(s, pay);
  for (int priv = 0; priv < 2; priv++) {
    const Bytes& pre = priv ? p.prv : p.pub;
    bool ok = sum && pay.size() == pre.size() + 74 && pay.compare(0, pre.size(), pre) == 0 && (!priv || pay[pre.size() + 41] == 0);
    struct { uint64_t a; fingera_ex_key k; uint64_t b; } x; struct { uint64_t a; fingera_ex_pubkey k; uint64_t b; } y;
    memset(&x, 0x77, sizeof x); memset(&y, 0x77, sizeof y); Tail mem(s);
    int r = priv ? call(fingera_exkey_from_string, (const char*)mem.data(), mem.size(), &x.k, p.use) : call(fingera_expubkey_from_string, (const char*)mem.data(), mem.size(), &y.k, p.use);
    if (x.a != 0x7777777777777777ull || x.b != x.a || y.a != x.a || y.b != x.a) fail("from_string wrote around its result");
    if (mem != s) fail("from_string changed its input");
    note("%s from %s with prefix %s -> %d", priv ? "private" : "public", quote(s, 120).c_str(), hex(pre).c_str(), r);
    checked();
    if (!!r != ok) fail("%s extended key string %s with prefix %s was %s", priv ? "private" : "public", quote(s).c_str(), hex(pre).c_str(), r ? "accepted" : "refused");
    if (ok) { XKey w = parse74(priv, pay.substr(pre.size())), g = priv ? from_lib(x.k) : from_lib(y.k); expect("from_string", ref::ser74(g), ref::ser74(w), pay); if (g.key != w.key || g.child != w.child) fail("from_string fields"); }
  }
}
static void roundtrip(const XKey& m, const P& p, bool everywhere) {
  Out e(74), s(fingera_exkey_string_max_length()); size_t n; Bytes want = ref::ser74(m);
  if (m.priv) {
    fingera_ex_key k = to_priv(m), keep = k, back; memset(&back, 0, sizeof back);
    call(fingera_exkey_encode, (const fingera_ex_key*)&k, (void*)e.p()); e.check("exkey_encode"); expect("exkey_encode", e.str(), want, want);
    call(fingera_exkey_decode, (const void*)e.p(), &back); expect("exkey_decode", ref::ser74(from_lib(back)), want, want);
    n = call(fingera_exkey_to_string, (const fingera_ex_key*)&k, s.c(), p.use); s.check("exkey_to_string"); if (memcmp(&k, &keep, sizeof k)) fail("exkey_to_string changed the key");
  } else {
    fingera_ex_pubkey k = to_pub(m), keep = k, back; memset(&back, 0, sizeof back);
    call(fingera_expubkey_encode, (const fingera_ex_pubkey*)&k, (void*)e.p()); e.check("expubkey_encode"); expect("expubkey_encode", e.str(), want, want);
    call(fingera_expubkey_decode, (const void*)e.p(), &back); expect("expubkey_decode", ref::ser74(from_lib(back)), want, want);
    n = call(fingera_expubkey_to_string, (const fingera_ex_pubkey*)&k, s.c(), p.use); s.check("expubkey_to_string"); if (memcmp(&k, &keep, sizeof k)) fail("expubkey_to_string changed the key");
  }
  Bytes w = ref::base58check((m.priv ? p.prv : p.pub) + want);
  if (n > s.n) fail("to_string returned %zu", n);
  note("%s -> %s", hex(want).c_str(), s.str(n).c_str());
  expect_str("to_string", s.str(n), w, want);
  if (everywhere) for (auto& q : params()) decode(w, q); else decode(w, p);
}
static XKey make(bool priv, int pat, int depth = 3) { return {priv, depth, 0x01020304u, "\xf1\x02\x83\x04", ref::pattern(pat, 32), priv ? ref::pattern(pat ^ 3, 32) : Bytes(1, 2) + ref::pattern(pat ^ 3, 32)}; }
static void define() {
  int NP = (int)params().size();
  add("depth", 256, [NP](long d) { XKey m = make(choose(2), 5, (int)d); roundtrip(m, params()[choose(NP)], false); }, "every depth x both kinds x 6 parameter sets");
  add("fields", NP * 2, [](long u) { XKey m = make(u & 1, 5); int f = choose(3); if (f == 0) { m.child = 1u << choose(32); if (choose(2)) m.child = ~m.child; } else if (f == 1) { m.fp[choose(4)] = (char)(choose(8) * 36); } else { m.fp = Bytes(4, 0); m.child = choose(4) * 0x55555555u; m.depth = choose(2) * 255; } roundtrip(m, params()[u / 2], true); }, "every bit of the child number, fingerprint bytes, extremes; decoded on all parameter sets as both kinds");
  add("bytes", NP * 2, [](long u) { XKey m = make(u & 1, choose(3) == 0 ? 0 : choose(2) ? 1 : 5); Bytes& t = choose(2) ? m.chain : m.key; t[choose((int)t.size())] = (char)choose_of(std::vector<int>{0, 1, 2, 0x7f, 0x80, 0xff}); roundtrip(m, params()[u / 2], false); }, "every byte of chain code and key deviating");
  add("payload-sizes", 160, [NP](long n) { const P& p = params()[choose(NP)]; Bytes b = ref::pattern(5, n); int z = choose(2); if (z && n > 41) b[41] = 0; decode(ref::base58check((choose(2) ? p.pub : p.prv) + b), p); }, "0..159 bytes behind either prefix");
  add("pad-byte", 256, [NP](long v) { const P& p = params()[choose(NP)]; Bytes b = ref::ser74(make(choose(2), 5)); b[41] = (char)v; decode(ref::base58check((choose(2) ? p.pub : p.prv) + b), p); }, "every value of the byte before the private key, under both prefixes");
  add("any-byte-74", 74, [](long at) { Bytes b = ref::ser74(make(choose(2), 6)); b[at] = (char)choose(256); const P& p = params()[0]; decode(ref::base58check((choose(2) ? p.pub : p.prv) + b), p); }, "every value of every byte behind the prefix");
  add("prefix-bits", NP, [](long u) { const P& p = params()[u]; bool priv = choose(2); Bytes pre = priv ? p.prv : p.pub; pre[choose((int)pre.size())] ^= 1 << choose(8); decode(ref::base58check(pre + ref::ser74(make(choose(2), 5))), p); }, "every single-bit error of every prefix");
  add("prefix-known", 4 * 256, [](long u) { static const uint32_t K[4] = {0x0488B21E, 0x0488ADE4, 0x043587CF, 0x04358394}; Bytes pre = ref::be32(K[u & 3]); pre[choose(4)] = (char)(u >> 2); for (int i = 0; i < 3; i++) decode(ref::base58check(pre + ref::ser74(make(choose(2), 5))), params()[i]); }, "every byte value at every place of the known prefixes, on 3 networks");
  add("prefix-size", NP, [](long u) { const P& p = params()[u]; Bytes pre = choose(2) ? p.pub : p.prv; int d = choose(7) - 3; if (d < 0) pre = pre.substr((size_t)std::min((int)pre.size(), -d)); else pre += Bytes(d, (char)choose(2)); Bytes b = ref::ser74(make(choose(2), 5)); int adj = choose(3); if (adj == 1 && d > 0) b = b.substr(d); if (adj == 2 && d < 0) b = Bytes(-d, 0) + b; decode(ref::base58check(pre + b), p); }, "prefixes too short or too long by up to 3 bytes, with and without a right total length");
  add("corruption", 4, [](long u) { const P& p = params()[u / 2]; Bytes t = ref::base58check((u & 1 ? p.prv : p.pub) + ref::ser74(make(u & 1, 5))); int at = choose((int)t.size()), k = choose(97); if (k < 95) t[at] = (char)(32 + k); else if (k == 95) t.erase(at, 1); else t.insert(at, 1, '2'); decode(t, p); }, "every substitution, deletion, an insertion at every position of four strings");
  add("checksum", 16, [](long u) { const P& p = params()[u / 8]; bool priv = u & 1; Bytes pay = (priv ? p.prv : p.pub) + ref::ser74(make(priv, 6)), h = ref::hash256(pay).substr(0, 4); h[u / 2 % 4] ^= 1 + choose(255); decode(ref::base58(pay + h), p); }, "every wrong value of every checksum byte");
  add("long-strings", pick(400, 1200), [NP](long n) { const P& p = params()[choose(NP)]; int k = choose(4); decode(k < 2 ? ref::base58check((k ? p.pub : p.prv) + ref::pattern(choose(2) * 5, n)) : Bytes(n, k == 2 ? '1' : 'z'), p); }, "payloads to 400 bytes, runs of '1' and 'z'");
  add("short-strings", 256, [](long a) { int b = choose(257); if (!a) { decode("", params()[0]); return; } if (b == 1) return; Bytes s(1, (char)a); if (b) s += (char)(b - 1); decode(s, params()[0]); }, "all strings of 0-2 bytes");
  add("size-wrap", 6, [](long u) {                            // payloads whose size is right modulo 2^16
    int priv = u & 1; Bytes ser = Bytes(41, 7) + (priv ? Bytes(1, 0) + ref::pattern(5, 32) : ref::pub(ref::pattern(5, 32))), pre = ref::be32(priv ? nets()[0].xprv : nets()[0].xpub);
    Bytes s = u < 2 ? ref::base58check_long(pre + ser + ref::pattern(6, 65536)) : ref::base58check_long(Bytes(u < 4 ? 65536 : 131072, 0) + pre + ser);
    for (auto& p : params()) {
      fingera_ex_key k; fingera_ex_pubkey q; op(); int r = priv ? fingera_exkey_from_string(s.data(), s.size(), &k, p.use) : fingera_expubkey_from_string(s.data(), s.size(), &q, p.use); checked(); note("string of %zu characters -> %d", s.size(), r);
      if (r) fail("an extended key string of %zu characters was accepted", s.size()); if (u < 2) break;
    }
  }, "payloads whose size is right modulo 2^16", 200);
  add_patient("giant", 1, [](long) {                                 // valid strings that go on for 4 GiB
    for (int priv = 0; priv < 2; priv++) {
      Bytes s = ref::base58check(ref::be32(priv ? nets()[0].xprv : nets()[0].xpub) + Bytes(41, 7) + (priv ? Bytes(1, 0) + ref::pattern(5, 32) : ref::pub(ref::pattern(5, 32)))); uint64_t n = (1ull << 32) + s.size(); giant::In in(Bytes(1 << 20, '0'), n); in.set(0, s);
      fingera_ex_key k; fingera_ex_pubkey p; op(); int r = priv ? fingera_exkey_from_string((const char*)in.b, n, &k, nets()[0].p) : fingera_expubkey_from_string((const char*)in.b, n, &p, nets()[0].p); checked(); note("%s and 4 GiB of '0' -> %d", s.c_str(), r);
      if (r) fail("an extended key string of %llu characters, most of them illegal, was accepted", (unsigned long long)n);
    }
  }, "valid strings with an illegal character and 2^32 more behind");
  add_patient("giant-zeros", 1, [](long) {                           // a payload of 2^32 + 78 bytes is not an extended key
    P p; p.pub = p.prv = Bytes(4, 0); p.c = *nets()[0].p; p.c.prefix_ext_public_key = p.c.prefix_ext_secret_key = p.pub.data(); p.c.prefix_ext_public_key_size = p.c.prefix_ext_secret_key_size = 4; key_init();
    const uint64_t z = (1ull << 32) + 50; const Bytes tail = ref::pattern(5, 28); uint8_t h[32]; giant::In t(Bytes(1 << 20, '1'), z + 64);
    { giant::In in(Bytes(1 << 20, 0), z + 64); in.set(z, tail); SHA256(in.b, z + tail.size(), h); SHA256(h, 32, h); }
    Bytes text = ref::base58(tail + Bytes((char*)h, 4)); t.set(z, text + Bytes(16, '~')); fingera_ex_key k; fingera_ex_pubkey q; op(2);
    int r = fingera_exkey_from_string((const char*)t.b, z + text.size(), &k, &p.c); checked();
    int r2 = fingera_expubkey_from_string((const char*)t.b, z + text.size(), &q, &p.c); checked(); note("payload of 2^32 + 78 bytes -> %d, %d", r, r2);
    if (r || r2) fail("a payload of 2^32 + 78 bytes was accepted as an extended %s key", r ? "private" : "public");
  }, "payloads of 2^32 + 78 bytes behind a right checksum");
}
int main(int c, char** v) { return run(c, v, "C14", define, {"the key data of an imported extended key is not validated against the curve (the property does not ask for it)"}); }
