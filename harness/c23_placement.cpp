// C23: results do not depend on where inputs and outputs lie, on supported overlaps, or on how the library is built.
// LINK: -Wl,-z,now
#include "libs.hpp"
#include "ref.hpp"
using namespace mc;
// One call: inputs by content, outputs by size. f gets the input and output pointers and returns what the call returned.
struct Call {
  std::string name; std::vector<Bytes> in; std::vector<size_t> out;
  std::function<long long(const Lib&, uint8_t** i, uint8_t** o)> f;
  int step = 1;                                          // 4: the buffers are structs that need that alignment
  std::vector<std::pair<int, int>> over;                 // output o may lie over input i
  bool slide = false;                                    // ... at any offset
  bool key = false;
};
static std::vector<Call> calls;
static Bytes pat(size_t n, int s = 1) { return s == 0 ? Bytes(n, 0) : s == 2 ? Bytes(n, (char)0xff) : ref::pattern(5, n); }
#define F [=](const Lib& L, uint8_t** i, uint8_t** o) -> long long
static Bytes xkey(const ref::XKey& x) { fingera_ex_key k; memset(&k, 0, sizeof k); k.ext.depth = x.depth; k.ext.child = x.child; k.ext.fingerprint = 0x04030201; memcpy(k.ext.chain_code, x.chain.data(), 32); memcpy(k.key, x.key.data(), 32); return Bytes((char*)&k, sizeof k); }
static Bytes xpub(const ref::XKey& x) { fingera_ex_pubkey k; memset(&k, 0, sizeof k); k.ext.depth = x.depth; k.ext.child = x.child; k.ext.fingerprint = 0x04030201; memcpy(k.ext.chain_code, x.chain.data(), 32); memcpy(k.c_pubkey, x.key.data(), 33); return Bytes((char*)&k, sizeof k); }
static void make() {
  int HN = pick(140, 420), CN = pick(40, 130);
  auto add1 = [&](Call c) { calls.push_back(c); };
  for (int n = 0; n <= HN; n++) {
    Bytes m = pat(n);
    add1({"sha1", {m}, {20}, F { L.fingera_sha1(i[0], n, o[0]); return 0; }, 1, {{0, 0}}, true});
    add1({"sha2_256", {m}, {32}, F { L.fingera_sha2_256(i[0], n, o[0]); return 0; }, 1, {{0, 0}}, true});
    add1({"sha2_512", {m}, {64}, F { L.fingera_sha2_512(i[0], n, o[0]); return 0; }, 1, {{0, 0}}, true});
    add1({"ripemd160", {m}, {20}, F { L.fingera_ripemd160(i[0], n, o[0]); return 0; }, 1, {{0, 0}}, true});
    if (n % 3 == 0) {
      add1({"hash160", {m}, {20}, F { L.fingera_btc_hash160(i[0], n, o[0]); return 0; }, 1, {{0, 0}}, true});
      add1({"hash256", {m}, {32}, F { L.fingera_btc_hash256(i[0], n, o[0]); return 0; }, 1, {{0, 0}}, true});
    }
    for (int k : {0, 1, 32, 63, 64, 65, 127, 128, 129}) if ((n + k) % 4 == 0) {
      add1({"hmac_sha256", {pat(k), m}, {32}, F { L.fingera_hmac_sha256(i[0], k, i[1], n, o[0]); return 0; }, 1, {{0, 0}, {0, 1}}, true});
      add1({"hmac_sha512", {pat(k), m}, {64}, F { L.fingera_hmac_sha512(i[0], k, i[1], n, o[0]); return 0; }, 1, {{0, 0}, {0, 1}}, true});
    }
  }
  for (int b = 0; b <= 9; b++) add1({"hash256_d64", {pat(64 * b)}, {(size_t)32 * b}, F { L.fingera_btc_hash256_d64(o[0], i[0], b); return 0; }, 1, {{0, 0}}});
  for (uint32_t c : {0u, 1u, 0x80000000u, 0x01020304u, ~0u}) for (int h : {0, 2, 3, 255}) add1({"bip32_hash", {pat(32), ref::sha256("d")}, {64}, F { L.fingera_btc_bip32_hash(i[0], c, h, i[1], o[0]); return 0; }, 1, {{0, 0}, {0, 1}}, true});
  // codecs
  for (int n = 0; n <= CN; n++) for (int s = 0; s < 3; s++) {
    Bytes m = pat(n, s), t;
    add1({"to_hex", {m}, {(size_t)2 * n}, F { L.fingera_to_hex(i[0], n, (char*)o[0], n & 1); return 0; }});
    t = ref::hexs(m, s & 1); if (s == 2 && n > 1) t[n] = 'g'; t += n % 3 ? "" : "7"; add1({"from_hex", {t}, {t.size() / 2}, F { return L.fingera_from_hex((char*)i[0], t.size(), o[0]); }});
    add1({"to_base64", {m}, {(size_t)(n + 2) / 3 * 4}, F { L.fingera_to_base64(i[0], n, (char*)o[0]); return 0; }});
    add1({"to_base64_urlsafe", {m}, {(size_t)(n * 4 + 2) / 3}, F { L.fingera_to_base64_urlsafe(i[0], n, (char*)o[0]); return 0; }});
    t = ref::base64(m, false); add1({"from_base64", {t}, {t.size() / 4 * 3}, F { return L.fingera_from_base64((char*)i[0], t.size(), o[0]); }});
    if (n > 2) { t[n] = '*'; add1({"from_base64", {t}, {t.size() / 4 * 3}, F { return L.fingera_from_base64((char*)i[0], t.size(), o[0]); }}); }
    t = ref::base64(m, true); add1({"from_base64_urlsafe", {t}, {t.size() / 4 * 3 + 3}, F { return L.fingera_from_base64_urlsafe((char*)i[0], t.size(), o[0]); }});
    add1({"to_base32", {m}, {(size_t)(n + 4) / 5 * 8}, F { L.fingera_to_base32(i[0], n, (char*)o[0]); return 0; }});
    t = ref::base32(m); add1({"from_base32", {t}, {t.size() / 8 * 5 + 5}, F { return L.fingera_from_base32((char*)i[0], t.size(), o[0]) * 1000 + L.fingera_from_base32_length((char*)i[0], t.size()); }});
    add1({"to_base32_raw", {m}, {(size_t)(n * 8 + 4) / 5}, F { return L.fingera_to_base32_raw(i[0], n, o[0]); }});
    t = ref::base32_raw(m); add1({"from_base32_raw", {t}, {t.size() * 5 / 8 + 1}, F { return L.fingera_from_base32_raw(i[0], t.size(), o[0]); }});
    add1({"to_base58", {m}, {(size_t)n * 138 / 100 + 2}, F { return L.fingera_to_base58(i[0], n, (char*)o[0]); }});
    t = (s ? " " : "") + ref::base58(m) + (n % 2 ? "  " : ""); add1({"from_base58", {t}, {t.size()}, F { return L.fingera_from_base58((char*)i[0], t.size(), o[0]); }});
    if (n > 3) { Bytes u = t; u[n] = 'O'; add1({"from_base58", {u}, {u.size()}, F { return L.fingera_from_base58((char*)i[0], u.size(), o[0]); }}); }
    add1({"to_base58_check", {m, "ab"}, {(size_t)(n + 6) * 138 / 100 + 2}, F { return L.fingera_to_base58_check(i[0], n, i[1], n % 3, (char*)o[0]); }});
    t = ref::base58check(m); if (s == 2) t[t.size() / 2] ^= 3; add1({"from_base58_check", {t}, {t.size()}, F { return L.fingera_from_base58_check((char*)i[0], t.size(), o[0]); }});
    if (n && n <= 60) { Bytes v = ref::base32_raw(m); v = v.substr(0, n); add1({"bech32_encode", {"tb", v}, {2 + v.size() + 7}, F { L.fingera_bech32_encode((char*)i[0], 2, i[1], v.size(), (char*)o[0]); return 0; }});
      t = ref::bech32("tb", v); if (s == 2) t[n] = 'b'; else if (s == 1) for (auto& c : t) c = toupper(c); if (t.size() <= 90) add1({"bech32_decode", {t}, {80, t.size()}, F { size_t h = 80; int r = L.fingera_bech32_decode((char*)i[0], t.size(), (char*)o[0], &h, o[1]); return r * 1000ll + h; }}); }
  }
  for (int sh = 0; sh < 64; sh++) for (int d = -1; d <= 1; d++) { uint64_t v = (1ull << sh) + d;
    add1({"encode_varint", {}, {10}, F { return L.fingera_encode_varint(v, o[0]); }}); add1({"encode_zigzag", {}, {10}, F { return L.fingera_encode_zigzag((int64_t)v, o[0]); }});
    Bytes e = ref::varint(v); add1({"decode_varint", {e}, {8}, F { uint64_t x = 7; long long r = L.fingera_decode_varint(i[0], e.size(), &x); memcpy(o[0], &x, 8); return r; }}); add1({"decode_zigzag", {e}, {8}, F { int64_t x = 7; long long r = L.fingera_decode_zigzag(i[0], e.size(), &x); memcpy(o[0], &x, 8); return r; }}); }
  // addresses
  for (int net = 0; net < 3; net++) for (int s = 0; s < 3; s++) {
    add1({"to_address_pubkey", {pat(20, s)}, {60}, F { return L.fingera_to_address_pubkey(i[0], 20, (char*)o[0], 60, L.net[net]); }}); add1({"to_address_script", {pat(20, s)}, {60}, F { return L.fingera_to_address_script(i[0], 20, (char*)o[0], 60, L.net[net]); }});
    add1({"to_address_witnessv0_keyhash", {pat(20, s)}, {80}, F { return L.fingera_to_address_witnessv0_keyhash(i[0], 20, (char*)o[0], 80, L.net[net]); }}); add1({"to_address_witnessv0_scripthash", {pat(32, s)}, {80}, F { return L.fingera_to_address_witnessv0_scripthash(i[0], 32, (char*)o[0], 80, L.net[net]); }});
    for (int n : {2, 20, 40}) add1({"to_address_witness_unknown", {Bytes(1, 1 + s) + pat(n, s)}, {100}, F { return L.fingera_to_address_witness_unknown(i[0], n + 1, (char*)o[0], 100, L.net[net]); }});
    const char* hrp[3] = {"bc", "tb", "bcrt"}; Bytes ts[] = {ref::base58check((net ? "\x6f" : Bytes(1, 0)) + pat(20, s)), ref::base58check((net ? "\xc4" : "\x05") + pat(20, s)), ref::bech32(hrp[net], Bytes(1, 0) + ref::base32_raw(pat(20, s))), ref::bech32(hrp[net], Bytes(1, 0) + ref::base32_raw(pat(32, s))), ref::bech32(hrp[net], Bytes(1, 3) + ref::base32_raw(pat(17, s))), ref::bech32(hrp[net], Bytes(1, 0) + ref::base32_raw(pat(21, s)))};
    for (auto& t : ts) for (int bad = 0; bad < 2; bad++) { Bytes u = t; if (bad) u[9] ^= 1; add1({"address_decode", {u}, {120}, F { size_t n = 120; long long r = L.fingera_btc_address_decode((char*)i[0], u.size(), o[0], &n, L.net[net]); return r ? r * 1000 + (long long)n : 0; }}); }
  }
  // keys
  for (int v = 0; v < pick(3, 12); v++) {
    Bytes key = ref::sha256("key" + std::to_string(v)), cc = ref::sha256("cc" + std::to_string(v)), h = ref::sha256("h" + std::to_string(v)), p33 = ref::pub(key), p65 = ref::pub(key, false);
    if (v == 2) cc = Bytes(32, (char)0xff);
    auto addk = [&](Call c) { c.key = true; calls.push_back(c); };
    for (int net = 0; net < 3; net++) for (int comp = 0; comp < 2; comp++) { add1({"key_to_string", {key}, {52}, F { return L.fingera_btc_key_to_string(i[0], (char*)o[0], comp, L.net[net]); }}); Bytes t = ref::base58check((net ? "\xef" : "\x80") + key + (comp ? "\1" : "")); add1({"key_from_string", {t}, {32}, F { int c = -1; long long r = L.fingera_btc_key_from_string((char*)i[0], t.size(), o[0], &c, L.net[net]); return r * 10 + c; }}); }
    for (uint32_t c : {0u, 7u, 0x7fffffffu, 0x80000000u, ~0u}) {
      addk({"key_derive", {key, cc}, {32, 32}, F { return L.fingera_btc_key_derive(i[0], i[1], o[0], o[1], c); }, 1, {{0, 0}, {1, 1}, {-1, -1}}});
      if (c >> 31 == 0) addk({"pubkey_derive", {p33, cc}, {33, 32}, F { return L.fingera_btc_pubkey_derive(i[0], i[1], o[0], o[1], c); }, 1, {{0, 0}, {1, 1}, {-1, -1}}});
      ref::XKey x{true, 3, 9, Bytes("\1\2\3\4"), cc, key};
      addk({"exkey_derive", {xkey(x)}, {sizeof(fingera_ex_key)}, F { return L.fingera_exkey_derive((fingera_ex_key*)i[0], (fingera_ex_key*)o[0], c, 0x55667788); }, 4, {{0, 0}}});
      if (c >> 31 == 0) addk({"expubkey_derive", {xpub(ref::neuter(x))}, {sizeof(fingera_ex_pubkey)}, F { return L.fingera_expubkey_derive((fingera_ex_pubkey*)i[0], (fingera_ex_pubkey*)o[0], c, 0x55667788); }, 4, {{0, 0}}});
    }
    ref::XKey x{true, 3, 9, Bytes("\1\2\3\4"), cc, key}; Bytes e = ref::ser74(x), ep = ref::ser74(ref::neuter(x));
    add1({"exkey_encode", {xkey(x)}, {74}, F { alignas(8) fingera_ex_key k; memcpy(&k, i[0], sizeof k); L.fingera_exkey_encode(&k, o[0]); return 0; }});
    add1({"exkey_decode", {e}, {77}, F { alignas(8) fingera_ex_key k; L.fingera_exkey_decode(i[0], &k); o[0][0] = k.ext.depth; memcpy(o[0] + 1, &k.ext.child, 4); memcpy(o[0] + 5, &k.ext.fingerprint, 4); memcpy(o[0] + 9, k.ext.chain_code, 32); memcpy(o[0] + 41, k.key, 32); return 0; }});
    add1({"expubkey_encode", {xpub(ref::neuter(x))}, {74}, F { alignas(8) fingera_ex_pubkey k; memcpy(&k, i[0], sizeof k); L.fingera_expubkey_encode(&k, o[0]); return 0; }});
    add1({"expubkey_decode", {ep}, {77}, F { alignas(8) fingera_ex_pubkey k; L.fingera_expubkey_decode(i[0], &k); o[0][0] = k.ext.depth; memcpy(o[0] + 1, &k.ext.child, 4); memcpy(o[0] + 5, &k.ext.fingerprint, 4); memcpy(o[0] + 9, k.ext.chain_code, 32); memcpy(o[0] + 41, k.c_pubkey, 33); return 0; }});
    add1({"exkey_to_string", {xkey(x)}, {120}, F { return L.fingera_exkey_to_string((fingera_ex_key*)i[0], (char*)o[0], L.net[v % 3]); }, 4});
    { Bytes t = ref::base58check(ref::be32(v % 3 ? 0x04358394 : 0x0488ADE4) + e); add1({"exkey_from_string", {t}, {sizeof(fingera_ex_key)}, F { return L.fingera_exkey_from_string((char*)i[0], t.size(), (fingera_ex_key*)o[0], L.net[v % 3]); }, 4}); }
    add1({"exkey_init", {pat(16 + 8 * v)}, {sizeof(fingera_ex_key)}, F { L.fingera_exkey_init((fingera_ex_key*)o[0], i[0], 16 + 8 * v); return 0; }, 4});
    addk({"exkey_get_pub", {xkey(x)}, {sizeof(fingera_ex_pubkey)}, F { L.fingera_exkey_get_pub((fingera_ex_key*)i[0], (fingera_ex_pubkey*)o[0]); return 0; }, 4});
    addk({"key_get_pub", {key}, {64}, F { L.fingera_btc_key_get_pub(i[0], o[0]); return 0; }});
    for (int n : {214, 279}) addk({"key_encode", {key}, {(size_t)n}, F { return L.fingera_btc_key_encode(i[0], o[0], n); }});
    for (int bad = 0; bad < 2; bad++) { Bytes d = Bytes("\x30\x81\xD3\x02\x01\x01\x04\x20", 8) + key + Bytes(171, 0); if (bad) d[4] = 9; addk({"key_decode", {d}, {32}, F { return L.fingera_btc_key_decode(i[0], d.size(), o[0]); }}); }
    for (auto& p : {p33, p65}) { addk({"pubkey_decode", {p}, {64}, F { return L.fingera_btc_pubkey_decode(i[0], p.size(), o[0]); }}); addk({"pubkey decode/encode", {p}, {64, 33, 65}, F { L.fingera_btc_pubkey_decode(i[0], p.size(), o[0]); return L.fingera_btc_pubkey_encode(o[0], o[1], 33) * 10 + L.fingera_btc_pubkey_encode(o[0], o[2], 65); }}); }
    addk({"sign", {key, h}, {64}, F { L.fingera_btc_key_sign(i[0], i[1], o[0]); return 0; }});
    addk({"sign/encode/decode/verify", {key, h, p33}, {64, 72, 64, 64}, F { L.fingera_btc_key_sign(i[0], i[1], o[0]); size_t n = L.fingera_btc_signature_encode(o[0], o[1]); long long r = L.fingera_btc_signature_decode(o[1], n, o[2]); L.fingera_btc_pubkey_decode(i[2], 33, o[3]); return r * 1000 + L.fingera_btc_key_verify(o[3], i[1], o[2]) * 100 + n; }});
    addk({"keyid", {key}, {20}, F { L.fingera_btc_key_keyid(i[0], v & 1, o[0]); return L.fingera_btc_key_fingerprint(i[0], v & 1); }});
    addk({"pubkey fingerprint", {p33}, {20}, F { alignas(8) uint8_t q[64]; L.fingera_btc_pubkey_decode(i[0], 33, q); L.fingera_btc_pubkey_keyid(q, 1, o[0]); return L.fingera_btc_pubkey_fingerprint(i[0]); }});
  }
}
struct Res { long long r; std::vector<Bytes> o; };
// which parts of the output structs are padding: compare only named fields
static Bytes clean(const Call& c, size_t k, Bytes b) {
  if (b.size() == sizeof(fingera_ex_key) && c.step == 4 && c.out[k] == sizeof(fingera_ex_key) && c.name.find("pub") == Bytes::npos) { fingera_ex_key x; memset(&x, 0, sizeof x); fingera_ex_key y; memcpy(&y, b.data(), sizeof y); x.ext.depth = y.ext.depth; x.ext.child = y.ext.child; x.ext.fingerprint = y.ext.fingerprint; memcpy(x.ext.chain_code, y.ext.chain_code, 32); memcpy(x.key, y.key, 32); return Bytes((char*)&x, sizeof x); }
  if (c.step == 4 && c.out[k] == sizeof(fingera_ex_pubkey)) { fingera_ex_pubkey x; memset(&x, 0, sizeof x); fingera_ex_pubkey y; memcpy(&y, b.data(), sizeof y); x.ext.depth = y.ext.depth; x.ext.child = y.ext.child; x.ext.fingerprint = y.ext.fingerprint; memcpy(x.ext.chain_code, y.ext.chain_code, 32); memcpy(x.c_pubkey, y.c_pubkey, 33); return Bytes((char*)&x, sizeof x); }
  return b;
}
static const size_t SZ = 8192;
alignas(64) static uint8_t ibuf[4][SZ], obuf[4][SZ];
static const Res& wanted(long u) {                       // aligned, separate buffers, the linked build
  static long have = -1; static Res w; static pid_t who = 0;
  if (have == u && who == getpid()) return w;
  const Call& c = calls[u]; uint8_t *i[4], *o[4]; w = Res();
  for (size_t k = 0; k < c.in.size(); k++) { i[k] = ibuf[k]; memcpy(i[k], c.in[k].data(), c.in[k].size()); }
  for (size_t k = 0; k < c.out.size(); k++) { o[k] = obuf[k]; memset(o[k], 0xE1, c.out[k]); }
  op(); w.r = c.f(libs()[0], i, o);
  for (size_t k = 0; k < c.out.size(); k++) w.o.push_back(clean(c, k, Bytes((char*)o[k], c.out[k])));
  have = u; who = getpid(); return w;
}
// what a call leaves untouched of an output depends on what was there; both runs start from the same bytes, so compare all
static void same(const Call& c, const Lib& L, const Res& w, long long r, uint8_t** o, const char* how, int inplace_first = -1) {
  checked();
  if (r != w.r) fail("%s (%s build, %s): returns %lld, not %lld as with aligned separate buffers, for %s", c.name.c_str(), L.name.c_str(), how, r, w.r, c.in.empty() ? "" : hex(c.in[0]).c_str());
  for (size_t k = 0; k < c.out.size(); k++) {
    Bytes g = clean(c, k, Bytes((char*)o[k], c.out[k]));
    size_t n = g.size(); if ((int)k == inplace_first) { /* bytes the call does not write hold the input there */ }
    if (g != w.o[k]) fail("%s (%s build, %s): output %s, not %s as with aligned separate buffers, for %s", c.name.c_str(), L.name.c_str(), how, hex(g).c_str(), hex(w.o[k]).c_str(), c.in.empty() ? "" : hex(c.in[0]).c_str());
    (void)n;
  }
}
static void placed(long u) {
  const Call& c = calls[u]; if (c.key) libs_key_init();
  const Res& w = wanted(u); const Lib& L = libs()[choose((int)libs().size())];
  int a = c.in.empty() ? 0 : choose(16 / c.step) * c.step; int step = c.key && !thorough() ? 5 : 1;    // key calls: a diagonal of offsets in the quick tier
  for (int b0 = 0; b0 < 16; b0 += c.step * (c.step == 1 ? step : 1)) {
    int b = step > 1 && c.step == 1 ? (b0 + a) % 16 : b0;
    uint8_t *i[4], *o[4];
    for (size_t k = 0; k < c.in.size(); k++) { i[k] = ibuf[k] + 64 + (a + (int)k * c.step * (a & 1 ? 3 : 1)) % 16; if (c.step == 4) i[k] = ibuf[k] + 64 + a; memcpy(i[k], c.in[k].data(), c.in[k].size()); }
    for (size_t k = 0; k < c.out.size(); k++) { o[k] = obuf[k] + 64 + b; if (c.step == 1) o[k] = obuf[k] + 64 + (b + k * 5) % 16; memset(obuf[k], 0x6D, c.out[k] + 160); memset(o[k], 0xE1, c.out[k]); }
    op(); long long r = c.f(L, i, o);
    char how[60]; snprintf(how, sizeof how, "input at offset %d, output at %d", a, b);
    same(c, L, w, r, o, how);
    for (size_t k = 0; k < c.out.size(); k++) for (uint8_t* p = obuf[k]; p < obuf[k] + c.out[k] + 160; p++) if ((p < o[k] || p >= o[k] + c.out[k]) && *p != 0x6D) fail("%s (%s build, %s) writes outside its output", c.name.c_str(), L.name.c_str(), how);
    for (size_t k = 0; k < c.in.size(); k++) if (memcmp(i[k], c.in[k].data(), c.in[k].size())) fail("%s (%s build, %s) changes its input", c.name.c_str(), L.name.c_str(), how);
  }
  note("%s %s in +%d: returns %lld", c.name.c_str(), L.name.c_str(), a, w.r);
}
static std::vector<int> inplace_units;
static void inplace(long q) {
  long u = inplace_units[q]; const Call& c = calls[u]; if (c.key) libs_key_init();
  const Res& w = wanted(u); const Lib& L = libs()[choose((int)libs().size())]; int a = choose(4) * 4 + (c.step == 1 ? choose(2) : 0);
  // {o, i}: output o over input i. {-1, -1}: all of the outputs over the inputs of the same number
  auto pr = c.over[choose((int)c.over.size())];
  int room = 0; if (c.slide && pr.first >= 0) { long d = (long)c.in[pr.second].size(); room = d; }
  for (int off = -(c.slide ? (int)c.out[0] : 0); off <= room; off += c.key ? 1000 : 1) {
    if (!c.slide && off != 0) break;
    uint8_t *i[4], *o[4];
    for (size_t k = 0; k < c.in.size(); k++) { i[k] = ibuf[k] + 256 + a; memcpy(i[k], c.in[k].data(), c.in[k].size()); }
    for (size_t k = 0; k < c.out.size(); k++) { o[k] = obuf[k] + 64 + a; memset(o[k], 0xE1, c.out[k]); }
    if (pr.first < 0) for (size_t k = 0; k < c.out.size(); k++) o[k] = i[k]; else o[pr.first] = i[pr.second] + off;
    op(); long long r = c.f(L, i, o);
    char how[80]; snprintf(how, sizeof how, "output %d over input %d at %d, placed at +%d", pr.first, pr.second, off, a);
    same(c, L, w, r, o, how);
  }
}
static void define() {
  make();
  for (size_t k = 0; k < calls.size(); k++) if (!calls[k].over.empty()) inplace_units.push_back(k);
  std::string nb = std::to_string(libs().size()) + " builds";
  add("placement", calls.size(), placed, std::to_string(calls.size()) + " calls of all functions, every pair of input and output offsets 0-15 (key operations in the quick tier: 64 pairs), " + nb + " (-O0 to -O3, -Os, native vector code, with and without assertions, unsigned char, filled locals, whole-program)");
  add("in-place", inplace_units.size(), inplace, std::to_string(inplace_units.size()) + " calls whose result goes over an input, at every overlap for digests and MACs, " + nb);
}
int main(int c, char** v) { load_libs(c, v); return run(c, v, "C23", define, {"the aligned, separate-buffer results of the -O2 build are right (the other properties decide that)"}); }
