// One call of every kind: an alphabet of operations covering the API.
#pragma once
#include "api.hpp"
#include "ref.hpp"
using namespace mc;
typedef const chain_parameters* Par;
static const Par MAIN = &g_mainnet_chain_parameters, TEST = &g_testnet_chain_parameters, REG = &g_regnet_chain_parameters;
// Inputs, made once before any library call (by the reference model).
struct Inputs { Bytes key, key2, hash, chain, pub33, pub65, der, dkey, m64, wif, wifbad, wiflong, xprv, xprvbad, xprvlong, xpub, xpubbad, b58, b58long, b58bad, b58sp, seg, segbad, addr, msg, longmsg, seed, b64, b32, e74, bech; };
static Inputs I;
static void make_inputs() {
  I.key = ref::pattern(5, 32); I.key2 = ref::sha256("two"); I.hash = ref::pattern(6, 32); I.chain = ref::sha256("chain"); I.pub33 = ref::pub(I.key); I.pub65 = ref::pub(I.key, false);
  I.der = ref::der_sig(ref::sign_low_r(I.key, I.hash)); I.dkey = Bytes("\x30\x81\xD3\x02\x01\x01\x04\x20", 8) + I.key + Bytes(171, 0); I.m64 = ref::pattern(5, 256);
  I.wif = ref::base58check("\x80" + I.key + "\x01"); I.wifbad = I.wif; I.wifbad[20] = I.wifbad[20] == 'a' ? 'b' : 'a'; I.wiflong = ref::base58check("\x80" + ref::pattern(5, 150));
  ref::XKey x{true, 3, 7, Bytes("\1\2\3\4"), I.chain, I.key};
  I.xprv = ref::base58check(ref::be32(0x0488ADE4) + ref::ser74(x)); I.xprvbad = ref::base58check(ref::be32(0x0488ADE5) + ref::ser74(x)); I.xprvlong = ref::base58check(ref::be32(0x0488ADE4) + ref::pattern(5, 130));
  I.xpub = ref::base58check(ref::be32(0x0488B21E) + ref::ser74(ref::neuter(x))); I.xpubbad = I.xpub.substr(1); I.e74 = ref::ser74(x);
  I.b58 = ref::base58(ref::pattern(5, 40)); I.b58long = ref::base58(Bytes(9, 0) + ref::pattern(5, 250)); I.b58bad = I.b58long; I.b58bad[100] = '0'; I.b58sp = "  " + I.b58 + " \n";
  I.seg = ref::bech32("bc", Bytes(1, 0) + ref::base32_raw(ref::pattern(5, 20))); I.segbad = I.seg; I.segbad[9] ^= 1; I.addr = ref::base58check(Bytes(1, 0) + ref::pattern(5, 20));
  I.msg = ref::pattern(5, 100); I.longmsg = ref::pattern(6, 5000); I.seed = ref::pattern(6, 16); I.b64 = "TWFuIGlzIGRpc3Rpbmd1aXNoZWQ="; I.b32 = "mfrggzdfmztwq2lkmm======"; I.bech = ref::bech32("tb", Bytes(30, 5));
}
struct R { uint8_t b[6000]; size_t n = 0; void put(const void* p, size_t k) { if (n + k > sizeof b) k = sizeof b - n; memcpy(b + n, p, k); n += k; } void num(long long v) { put(&v, 8); } };
static uint8_t o[20000], o2[400];
struct Op { const char* name; int state; void (*f)(R&); };     // state: 0 any, 1 needs init, 2 init, 3 uninit
#define P(x) ((const void*)I.x.data())
#define T(x) I.x.data(), I.x.size()
#define T2(x) (x).data(), (x).size()
#define OP(name, st, ...) {name, st, [](R& r) { __VA_ARGS__ }}
static void ask_str(R& r, size_t n) { r.num(n); if (n <= sizeof o) r.put(o, n); }
static const Op OPS[] = {
  OP("init", 2, fingera_btc_key_init();), OP("uninit", 3, fingera_btc_key_uninit();),
  OP("get_pub", 1, fingera_btc_key_get_pub(P(key), o); r.put(o, 64);),
  OP("sign", 1, fingera_btc_key_sign(P(key), P(hash), o); r.num(fingera_btc_signature_encode(o, o2)); r.put(o2, I.der.size());),
  OP("verify", 1, fingera_btc_signature_decode(T(der), o); fingera_btc_pubkey_decode(T(pub33), o2); r.num(fingera_btc_key_verify(o2, P(hash), o));),
  OP("verify-wrong", 1, fingera_btc_signature_decode(T(der), o); fingera_btc_pubkey_decode(T(pub33), o2); r.num(fingera_btc_key_verify(o2, P(chain), o));),
  OP("derive", 1, r.num(fingera_btc_key_derive(P(key), P(chain), o, o2, 5)); r.put(o, 32); r.put(o2, 32);),
  OP("derive-hard", 1, r.num(fingera_btc_key_derive(P(key), P(chain), o, o2, 0x80000005)); r.put(o, 32); r.put(o2, 32);),
  OP("pubkey_derive", 1, r.num(fingera_btc_pubkey_derive(P(pub33), P(chain), o, o2, 5)); r.put(o, 33); r.put(o2, 32);),
  OP("pubkey_derive-refused", 1, r.num(fingera_btc_pubkey_derive(P(pub33), P(chain), o, o2, 0x80000005));),
  OP("pubkey_derive-bad", 1, r.num(fingera_btc_pubkey_derive(P(m64), P(chain), o, o2, 5));),
  OP("key_new", 1, fingera_btc_key_new(o); uint8_t z[32] = {0}; r.num(memcmp(o, z, 32) != 0); fingera_btc_key_get_pub(o, o2);),
  OP("key_encode", 1, r.num(fingera_btc_key_encode(P(key), o, 279)); r.put(o, 279);),
  OP("key_encode-invalid", 1, uint8_t z[32] = {0}; r.num(fingera_btc_key_encode(z, o, 214));),
  OP("key_decode", 1, r.num(fingera_btc_key_decode(T(dkey), o)); r.put(o, 32);),
  OP("key_decode-bad", 1, r.num(fingera_btc_key_decode(T(msg), o));),
  OP("sig_decode-bad", 1, r.num(fingera_btc_signature_decode(T(msg), o));),
  OP("pubkey_decode-bad", 1, r.num(fingera_btc_pubkey_decode(P(m64), 33, o));),
  OP("keyid", 1, fingera_btc_key_keyid(P(key), 0, o); r.put(o, 20); r.num(fingera_btc_key_fingerprint(P(key), 1));),
  OP("exkey_derive", 1, fingera_ex_key k; fingera_ex_key d; fingera_exkey_decode(P(e74), &k); r.num(fingera_exkey_derive(&k, &d, 9, 77)); r.num(d.ext.depth); r.num(d.ext.child); r.num(d.ext.fingerprint); r.put(d.ext.chain_code, 32); r.put(d.key, 32);),
  OP("exkey_derive-deep", 1, fingera_ex_key k; fingera_ex_key d; fingera_exkey_decode(P(e74), &k); k.ext.depth = 255; r.num(fingera_exkey_derive(&k, &d, 9, 77));),
  OP("exkey_get_pub", 1, fingera_ex_key k; fingera_ex_pubkey q; fingera_exkey_decode(P(e74), &k); fingera_exkey_get_pub(&k, &q); r.put(q.c_pubkey, 33); r.num(q.ext.depth);),
  OP("wif", 0, int c = -5; r.num(fingera_btc_key_from_string(T(wif), o, &c, MAIN)); r.put(o, 32); r.num(c);),
  OP("wif-bad", 0, int c; r.num(fingera_btc_key_from_string(T(wifbad), o, &c, MAIN));),
  OP("wif-long", 0, int c; r.num(fingera_btc_key_from_string(T(wiflong), o, &c, MAIN));),
  OP("wif-other-net", 0, int c; r.num(fingera_btc_key_from_string(T(wif), o, &c, TEST));),
  OP("to_wif", 0, ask_str(r, fingera_btc_key_to_string(P(key), (char*)o, 1, TEST));),
  OP("xprv", 0, fingera_ex_key k; r.num(fingera_exkey_from_string(T(xprv), &k, MAIN)); r.num(k.ext.depth); r.num(k.ext.child); r.num(k.ext.fingerprint); r.put(k.ext.chain_code, 32); r.put(k.key, 32);),
  OP("xprv-bad", 0, fingera_ex_key k; r.num(fingera_exkey_from_string(T(xprvbad), &k, MAIN));),
  OP("xprv-long", 0, fingera_ex_key k; r.num(fingera_exkey_from_string(T(xprvlong), &k, MAIN));),
  OP("xpub", 0, fingera_ex_pubkey k; r.num(fingera_expubkey_from_string(T(xpub), &k, MAIN)); r.put(k.c_pubkey, 33); r.put(k.ext.chain_code, 32);),
  OP("xpub-bad", 0, fingera_ex_pubkey k; r.num(fingera_expubkey_from_string(T(xpubbad), &k, MAIN));),
  OP("to_xprv", 0, fingera_ex_key k; fingera_exkey_decode(P(e74), &k); ask_str(r, fingera_exkey_to_string(&k, (char*)o, MAIN));),
  OP("master", 0, fingera_ex_key k; fingera_exkey_init(&k, T(seed)); r.put(k.key, 32); r.put(k.ext.chain_code, 32); r.num(k.ext.depth);),
  OP("to_base58", 0, ask_str(r, fingera_to_base58(T(msg), (char*)o));),
  OP("to_base58-long", 0, ask_str(r, fingera_to_base58(P(longmsg), 400, (char*)o));),
  OP("from_base58", 0, ask_str(r, fingera_from_base58(T(b58sp), o));),
  OP("from_base58-long", 0, ask_str(r, fingera_from_base58(T(b58long), o));),
  OP("from_base58-bad", 0, r.num(fingera_from_base58(T(b58bad), o));),
  OP("to_base58_check", 0, ask_str(r, fingera_to_base58_check(T(msg), "ab", 2, (char*)o));),
  OP("from_base58_check-bad", 0, r.num(fingera_from_base58_check(T(b58long), o));),
  OP("address", 0, size_t n = 400; int k = fingera_btc_address_decode(T(addr), o, &n, MAIN); r.num(k); ask_str(r, n);),
  OP("address-segwit", 0, size_t n = 400; int k = fingera_btc_address_decode(T(seg), o, &n, MAIN); r.num(k); ask_str(r, n);),
  OP("address-bad", 0, size_t n = 400; r.num(fingera_btc_address_decode(T(segbad), o, &n, MAIN));),
  OP("address-other-net", 0, size_t n = 400; r.num(fingera_btc_address_decode(T(seg), o, &n, REG));),
  OP("address-short", 0, size_t n = 400; r.num(fingera_btc_address_decode("abc", 3, o, &n, REG));),
  OP("address-long-bad", 0, size_t n = 400; r.num(fingera_btc_address_decode(T(b58long), o, &n, MAIN));),
  OP("to_address", 0, ask_str(r, fingera_to_address_pubkey(P(key), 20, (char*)o, 100, TEST)); ask_str(r, fingera_to_address_witnessv0_scripthash(P(key), 32, (char*)o, 100, REG)); r.num(fingera_to_address_script(P(key), 20, (char*)o, 5, MAIN));),
  OP("bech32", 0, size_t h = 80; int n = fingera_bech32_decode(T(bech), (char*)o2, &h, o); r.num(n); r.num(h); r.put(o2, h); r.put(o, n); fingera_bech32_encode("abc", 3, (const uint8_t*)"\1\2\3", 3, (char*)o); r.put(o, 13);),
  OP("bech32-bad", 0, size_t h = 80; r.num(fingera_bech32_decode(T(segbad), (char*)o2, &h, o));),
  OP("sha1", 0, fingera_sha1(T(msg), o); r.put(o, 20);), OP("sha256", 0, fingera_sha2_256(T(longmsg), o); r.put(o, 32); fingera_sha2_256(T(msg), o); r.put(o, 32);),
  OP("sha512", 0, fingera_sha2_512(T(longmsg), o); r.put(o, 64); fingera_sha2_512(T(msg), o); r.put(o, 64);), OP("ripemd160", 0, fingera_ripemd160(T(msg), o); r.put(o, 20);),
  OP("hmac256", 0, fingera_hmac_sha256(T(msg), T(longmsg), o); r.put(o, 32); fingera_hmac_sha256(T(key), T(msg), o); r.put(o, 32);),
  OP("hmac512", 0, fingera_hmac_sha512(T(longmsg), T(msg), o); r.put(o, 64); fingera_hmac_sha512(T(key), T(msg), o); r.put(o, 64);),
  OP("d64", 0, fingera_btc_hash256_d64(o, P(m64), 4); r.put(o, 128); fingera_btc_hash160(T(msg), o); r.put(o, 20);),
  OP("bip32_hash", 0, fingera_btc_bip32_hash(P(chain), 0x01020304, 2, P(key), o); r.put(o, 64);),
  OP("hex", 0, fingera_to_hex(T(msg), (char*)o, 1); r.put(o, 200); ask_str(r, fingera_from_hex("00fFaBzz", 8, o));),
  OP("base64", 0, fingera_to_base64(T(msg), (char*)o); r.put(o, fingera_to_base64_length(I.msg.size())); ask_str(r, fingera_from_base64(T(b64), o)); r.num(fingera_from_base64_urlsafe("ab*d", 4, o));),
  OP("base32", 0, fingera_to_base32(T(msg), (char*)o); r.put(o, fingera_to_base32_length(I.msg.size())); ask_str(r, fingera_from_base32(T(b32), o)); ask_str(r, fingera_to_base32_raw(T(msg), o));),
  OP("varint", 0, r.num(fingera_encode_varint(~0ull, o)); r.put(o, 10); uint64_t v = 9; r.num(fingera_decode_varint(o, 10, &v)); r.num(v); int64_t s = 9; r.num(fingera_encode_zigzag(-77777, o)); r.num(fingera_decode_zigzag(o, 10, &s)); r.num(s); r.num(fingera_decode_varint("\xff\xff", 2, &v));),
  OP("random", 0, memset(o, 0x5A, 40); fingera_os_rand_bytes(o, 33); int same = 0; for (int i = 0; i < 33; i++) same += o[i] == 0x5A; r.num(same > 12); r.put(o + 33, 7);), OP("cleanse", 0, memset(o, 1, 40); fingera_cleanse(o, 33); r.put(o + 33, 7);),
  OP("to_base58_check-plain", 0, ask_str(r, fingera_to_base58_check(P(longmsg), 300, nullptr, 0, (char*)o)); ask_str(r, fingera_to_base58_check(T(msg), nullptr, 0, (char*)o));),
  OP("hex_dump", 0, fingera_hex_dump(P(longmsg), 1500, 0); fflush(stdout);),
};
static const int N = sizeof OPS / sizeof OPS[0];
