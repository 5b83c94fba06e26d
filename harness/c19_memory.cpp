// C19: every function on exact-size buffers, valid and hostile input, with the library built under AddressSanitizer:
// every access it makes (and every libc call it makes on the buffers) is checked against the exact bounds.
#include "api.hpp"
#include "ref.hpp"
#include <functional>
#include <memory>
#include <sanitizer/asan_interface.h>
using namespace mc;
// An exact-size heap block: nothing before, nothing behind. Zero sizes get a pointer to which no access is allowed.
struct Blk {
  uint8_t* base; size_t n;
  explicit Blk(size_t n_, int fill = 0xE1) : n(n_) { base = (uint8_t*)malloc(n ? n : 16); if (n) memset(base, fill, n); else __asan_poison_memory_region(base, 16); }
  explicit Blk(const Bytes& s) : Blk(s.size()) { if (n) memcpy(base, s.data(), n); }
  Blk(const Blk&) = delete;
  ~Blk() { if (!n) __asan_unpoison_memory_region(base, 16); free(base); }
  operator void*() { return base; } operator const void*() const { return base; }
  char* c() { return (char*)base; }
};
static void within(const char* f, size_t got, size_t cap, const Bytes& in) { checked(); if (got > cap) fail("%s returned %zu with a buffer of %zu, input %s", f, got, cap, hex(in).c_str()); }

// ---- one entry per function that takes a byte string / text of any length ----
struct Fn { const char* name; std::function<void(const Bytes&)> f; };
static const std::vector<Fn>& encoders() {
  static std::vector<Fn> v; if (!v.empty()) return v;
  auto digest = [&](const char* n, void (*h)(const void*, size_t, void*), size_t out) { v.push_back({n, [h, out](const Bytes& b) { Blk i(b), o(out); op(); h(i, b.size(), o); }}); };
  digest("sha1", fingera_sha1, 20); digest("sha256", fingera_sha2_256, 32); digest("sha512", fingera_sha2_512, 64); digest("ripemd160", fingera_ripemd160, 20);
  digest("hash160", fingera_btc_hash160, 20); digest("hash256", fingera_btc_hash256, 32);
  for (size_t kl : {(size_t)0, (size_t)1, (size_t)63, (size_t)64, (size_t)65, (size_t)127, (size_t)128, (size_t)129, (size_t)200}) {
    v.push_back({"hmac_sha256", [kl](const Bytes& b) { Blk k(ref::pattern(5, kl)), i(b), o(32); op(2); fingera_hmac_sha256(k, kl, i, b.size(), o); fingera_hmac_sha256(i, b.size(), k, kl, o); }});
    v.push_back({"hmac_sha512", [kl](const Bytes& b) { Blk k(ref::pattern(5, kl)), i(b), o(64); op(2); fingera_hmac_sha512(k, kl, i, b.size(), o); fingera_hmac_sha512(i, b.size(), k, kl, o); }});
  }
  v.push_back({"to_hex", [](const Bytes& b) { for (int up : {0, 1}) { Blk i(b), o(fingera_to_hex_length(b.size())); op(); fingera_to_hex(i, b.size(), o.c(), up); } }});
  v.push_back({"to_base64", [](const Bytes& b) { Blk i(b), o(fingera_to_base64_length(b.size())); op(); fingera_to_base64(i, b.size(), o.c()); }});
  v.push_back({"to_base64_urlsafe", [](const Bytes& b) { Blk i(b), o(fingera_to_base64_urlsafe_length(b.size())); op(); fingera_to_base64_urlsafe(i, b.size(), o.c()); }});
  v.push_back({"to_base32", [](const Bytes& b) { Blk i(b), o(fingera_to_base32_length(b.size())); op(); fingera_to_base32(i, b.size(), o.c()); }});
  v.push_back({"to_base32_raw", [](const Bytes& b) { size_t cap = (b.size() * 8 + 4) / 5; Blk i(b), o(cap); op(); within("to_base32_raw", fingera_to_base32_raw(i, b.size(), o), cap, b); }});
  v.push_back({"to_base58", [](const Bytes& b) { size_t cap = fingera_to_base58_length(b.size()); Blk i(b), o(cap); op(); within("to_base58", fingera_to_base58(i, b.size(), o.c()), cap, b); }});
  for (size_t pl : {(size_t)0, (size_t)1, (size_t)4, (size_t)8}) v.push_back({"to_base58_check", [pl](const Bytes& b) { size_t cap = fingera_to_base58_check_length(b.size(), pl); Blk i(b), p(ref::pattern(pl & 1 ? 0 : 1, pl)), o(cap); op(); within("to_base58_check", fingera_to_base58_check(i, b.size(), p, pl, o.c()), cap, b); }});
  v.push_back({"bech32_encode", [](const Bytes& b) { Bytes d = b; for (auto& c : d) c &= 31; for (size_t hl : {(size_t)1, (size_t)2, (size_t)83}) { Blk h(Bytes(hl, 'h')), i(d), o(fingera_bech32_encode_length(hl, d.size())); op(); fingera_bech32_encode(h.c(), hl, (uint8_t*)i.base, d.size(), o.c()); } }});
  v.push_back({"addresses", [](const Bytes& b) {
    for (int n = 0; n < 3; n++) for (int slack : {0, 1, -1, -5}) { const chain_parameters* p = nets()[n].p;
      auto one = [&](const char* nm, size_t need, size_t (*f)(const void*, size_t, char*, size_t, const chain_parameters*)) { if ((long)need + slack < 0) return; size_t cap = need + slack; Blk i(b), o(cap); op(); within(nm, f(i, b.size(), o.c(), cap, p), cap, b); };
      size_t k = fingera_to_base58_check_length(b.size(), 1);
      one("to_address_pubkey", k, fingera_to_address_pubkey); one("to_address_script", k, fingera_to_address_script);
      size_t hl = strlen(nets()[n].hrp);
      if (b.size() == 20) one("to_address_witnessv0_keyhash", hl + 7 + 33, fingera_to_address_witnessv0_keyhash);
      if (b.size() == 32) one("to_address_witnessv0_scripthash", hl + 7 + 53, fingera_to_address_witnessv0_scripthash);
      Bytes w = b; for (int ver : {0, 1, 16, 17, 255}) { if (!w.empty()) w[0] = (char)ver; size_t need = hl + 7 + 1 + (w.empty() ? 0 : (w.size() - 1) * 8 + 4) / 5; if ((long)need + slack < 0) continue; size_t cap = need + slack; Blk i(w), o(cap); op(); within("to_address_witness_unknown", fingera_to_address_witness_unknown(i, w.size(), o.c(), cap, p), cap, w); }
    } }});
  v.push_back({"exkey_init", [](const Bytes& b) { Blk i(b), k(sizeof(fingera_ex_key)); op(); fingera_exkey_init((fingera_ex_key*)k.base, i, b.size()); }});
  v.push_back({"cleanse", [](const Bytes& b) { Blk i(b); op(); fingera_cleanse(i, b.size()); }});
  v.push_back({"os_rand_bytes", [](const Bytes& b) { Blk i(b); op(); fingera_os_rand_bytes(i, b.size()); }});
  v.push_back({"hash256_d64", [](const Bytes& b) { size_t n = b.size() / 64; Blk i(b.substr(0, n * 64)), o(n * 32); op(); fingera_btc_hash256_d64(o, i, n); }});
  return v;
}
static const std::vector<Fn>& decoders() {
  static std::vector<Fn> v; if (!v.empty()) return v;
  v.push_back({"from_hex", [](const Bytes& s) { size_t cap = fingera_from_hex_length(s.size()); Blk i(s), o(cap); op(); within("from_hex", fingera_from_hex(i.c(), s.size(), o), cap, s); }});
  v.push_back({"from_base64", [](const Bytes& s) { Blk i(s); size_t cap = fingera_from_base64_length(i.c(), s.size()); Blk o(cap); op(2); within("from_base64", fingera_from_base64(i.c(), s.size(), o), cap, s); }});
  v.push_back({"from_base64_urlsafe", [](const Bytes& s) { size_t cap = fingera_from_base64_urlsafe_length(s.size()); Blk i(s), o(cap); op(); within("from_base64_urlsafe", fingera_from_base64_urlsafe(i.c(), s.size(), o), cap, s); }});
  v.push_back({"from_base32", [](const Bytes& s) { Blk i(s); size_t cap = fingera_from_base32_length(i.c(), s.size()); Blk o(cap); op(2); within("from_base32", fingera_from_base32(i.c(), s.size(), o), cap, s); }});
  v.push_back({"from_base32_raw", [](const Bytes& s) { size_t cap = fingera_from_base32_raw_length(s.size()); Blk i(s), o(cap); op(); within("from_base32_raw", fingera_from_base32_raw(i, s.size(), o), cap, s); }});
  v.push_back({"from_base58", [](const Bytes& s) { size_t cap = fingera_from_base58_length(s.size()); Blk i(s), o(cap); op(); within("from_base58", fingera_from_base58(i.c(), s.size(), o), cap, s); }});
  v.push_back({"from_base58_check", [](const Bytes& s) { size_t cap = fingera_from_base58_check_length(s.size()); Blk i(s), o(cap); op(); within("from_base58_check", fingera_from_base58_check(i.c(), s.size(), o), cap, s); }});
  v.push_back({"bech32_decode", [](const Bytes& s) { for (size_t hc : {(size_t)0, (size_t)1, (size_t)2, (size_t)16, (size_t)83}) { Blk i(s), h(hc), o(s.size() > 7 ? s.size() - 7 : 0); size_t hs = hc; op(); int r = fingera_bech32_decode(i.c(), s.size(), h.c(), &hs, o); if (r >= 0) { within("bech32_decode", r, o.n, s); within("bech32_decode (readable part)", hs, hc, s); } } }});
  for (int n = 0; n < 3; n++) {
    const chain_parameters* p = nets()[n].p;
    v.push_back({"address_decode", [p](const Bytes& s) { size_t full = fingera_from_base58_check_length(s.size()); for (size_t cap : {full, full + 1, full / 2, (size_t)0, (size_t)41}) { Blk i(s), o(cap); size_t n = cap; op(); if (fingera_btc_address_decode(i.c(), s.size(), o, &n, p)) within("address_decode", n, cap, s); } }});
    if (n == 2) continue;
    v.push_back({"key_from_string", [p](const Bytes& s) { Blk i(s), k(32), c(sizeof(int)); op(); fingera_btc_key_from_string(i.c(), s.size(), k, (int*)c.base, p); }});
    v.push_back({"exkey_from_string", [p](const Bytes& s) { Blk i(s), k(sizeof(fingera_ex_key)); op(); fingera_exkey_from_string(i.c(), s.size(), (fingera_ex_key*)k.base, p); }});
    v.push_back({"expubkey_from_string", [p](const Bytes& s) { Blk i(s), k(sizeof(fingera_ex_pubkey)); op(); fingera_expubkey_from_string(i.c(), s.size(), (fingera_ex_pubkey*)k.base, p); }});
  }
  v.push_back({"decode_varint", [](const Bytes& s) { Blk i(s), o(8); op(); within("decode_varint", fingera_decode_varint(i, s.size(), (uint64_t*)o.base), s.size(), s); }});
  v.push_back({"decode_zigzag", [](const Bytes& s) { Blk i(s), o(8); op(); within("decode_zigzag", fingera_decode_zigzag(i, s.size(), (int64_t*)o.base), s.size(), s); }});
  v.push_back({"key_decode", [](const Bytes& s) { key_init(); Blk i(s), k(32); op(); fingera_btc_key_decode(i, s.size(), k); }});
  v.push_back({"signature_decode", [](const Bytes& s) { key_init(); Blk i(s), k(64); op(); fingera_btc_signature_decode(i, s.size(), k); }});
  v.push_back({"pubkey_decode", [](const Bytes& s) { if (s.size() != 33 && s.size() != 65) return; key_init(); Blk i(s), k(64); op(); fingera_btc_pubkey_decode(i, s.size(), k); }});
  return v;
}
// ---- hostile texts ----
static Bytes b58c(const Bytes& payload) { return ref::base58check(payload); }
static const std::vector<Bytes>& seeds() {       // valid strings of every format; corrupted below
  static std::vector<Bytes> v; if (!v.empty()) return v;
  Bytes k = ref::pattern(5, 32);
  for (int n = 0; n < 3; n += 1) {
    const Net& t = nets()[n];
    v.push_back(b58c(Bytes(1, (char)t.wif) + k)); v.push_back(b58c(Bytes(1, (char)t.wif) + k + "\x01"));
    v.push_back(b58c(Bytes(1, (char)t.pk) + ref::pattern(6, 20))); v.push_back(b58c(Bytes(1, (char)t.sc) + ref::pattern(6, 20)));
    v.push_back(b58c(ref::be32(t.xprv) + ref::pattern(5, 41) + Bytes(1, 0) + k)); v.push_back(b58c(ref::be32(t.xpub) + ref::pattern(5, 41) + ref::pub(k)));
    for (int ver : {0, 1, 16, 31}) for (size_t pl : {(size_t)2, (size_t)20, (size_t)32, (size_t)40, (size_t)41}) v.push_back(ref::bech32(t.hrp, Bytes(1, (char)ver) + ref::base32_raw(ref::pattern(5, pl))));
  }
  v.push_back("0123456789abcdefABCDEF"); v.push_back("TWFuIGlzIGRpc3Rpbmd1aXNoZWQ="); v.push_back("TWFuIGlzIGRpc3Rpbmd1aXNoZQ=="); v.push_back("mfrggzdfmztwq2lk"); v.push_back("mfrggzdfmztwq2lkmm======"); v.push_back("me======");
  v.push_back("  \t 1111111abc \n "); v.push_back(Bytes(40, '1')); v.push_back(Bytes(7, ' ')); v.push_back("\1\2\3\37\0\5\6");
  Bytes dk = Bytes("\x30\x82\x01\x13\x02\x01\x01\x04\x20", 9) + k + Bytes("\xA0\x81\xA5", 3); v.push_back(dk); v.push_back(Bytes("\x30\x81\xD3\x02\x01\x01\x04\x20", 8) + k);
  v.push_back(ref::der_sig({k, ref::pattern(6, 32)})); v.push_back(Bytes("\x30\x82\x00\x4a\x02\x82\x00\x22\x00\x00", 10) + k + Bytes("\x02\x83\x00\x00\x21\x00", 6) + k);
  v.push_back(Bytes(9, '\xff')); v.push_back(Bytes("\x80\xfe\xfe\xfe\xfe\xfe\xfe\xfe\xfe\x7f")); v.push_back(ref::pub(k)); v.push_back(ref::pub(k, false));
  return v;
}
static void all_dec(const Bytes& s) { for (auto& d : decoders()) d.f(s); }
static void define() {
  long NE = (long)encoders().size(), ND = (long)decoders().size();
  int L = pick(400, 1500);
  add("encoders", NE * 8, [NE, L](long u) { const Fn& f = encoders()[u % NE]; int part = (int)(u / NE); int n = choose(L / 8) * 8 + part; int k = choose(5); static const int pats[] = {0, 1, 2, 4, 5}; note("%s of %d bytes", f.name, n); f.f(ref::pattern(pats[k], n)); }, "every function of a byte string x all lengths to 400 (thorough 1500) x 5 contents");
  add("uniform-text", 256, [](long c) { int top = pick(160, 420); for (int n = 0; n < top; n++) { all_dec(Bytes(n, (char)c)); inner(1, 1); } }, "every decoder x strings of one repeated byte, every byte value, lengths to 160 (thorough 420)", 600);
  add("all-short", 256, [](long c) { all_dec(Bytes(1, (char)c)); for (int d = 0; d < 256; d++) { Bytes s(1, (char)c); s += (char)d; all_dec(s); } if (c == 0) all_dec(""); inner(257, 257); }, "every decoder x all strings of up to 2 bytes", 600);
  add("corrupted", (long)seeds().size(), [](long u) {
    const Bytes& s = seeds()[u]; int kind = choose(4);
    if (kind == 0) { int n = choose((int)s.size() + 1); note("truncated to %d: %s", n, quote(s).c_str()); all_dec(s.substr(0, n)); }
    else if (kind == 1) { int n = choose((int)s.size() + 1); note("without the first %d: %s", n, quote(s).c_str()); all_dec(s.substr(n)); }
    else if (kind == 2) { int p = choose((int)s.size()); static const uint8_t b[] = {0, 1, ' ', '=', '1', 'l', 'z', 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0xfe, 0xff, '\n'}; Bytes t = s; t[p] = (char)(thorough() ? choose(256) : b[choose(16)]); note("corrupted at %d: %s", p, quote(t).c_str()); all_dec(t); }
    else { static const Bytes tails[] = {Bytes(1, 0), " ", "=", "1", "a", Bytes(60, 'q'), Bytes(150, '1'), Bytes(150, ' '), Bytes(150, 'z'), Bytes(300, '=')}; int t = choose(10); bool front = choose(2); note("extended"); all_dec(front ? tails[t] + s : s + tails[t]); }
  }, "valid strings of every format, truncated at every position from either side, corrupted at every position by 16 bytes, extended: to every decoder", 600);
  add("long-valid", 33, [](long part) {          // strings with a right checksum and any payload size
    int n = (int)part + 33 * choose(pick(9, 24)); int pre = choose(7), net = choose(2); static const int P[] = {0, 1, 2, 3, 4, 5, 6}; const Net& t = nets()[net];
    Bytes h = P[pre] == 0 ? Bytes(1, (char)t.wif) : P[pre] == 1 ? ref::be32(t.xprv) : P[pre] == 2 ? ref::be32(t.xpub) : P[pre] == 3 ? Bytes(1, (char)t.pk) : P[pre] == 4 ? Bytes(1, (char)t.sc) : P[pre] == 5 ? Bytes() : Bytes(12, 0);
    int body = choose(3); Bytes s = b58c(h + (body == 0 ? Bytes(n, 0) : body == 1 ? Bytes(n, '\xff') : ref::pattern(5, n))); note("payload of %d: %s", n, quote(s, 100).c_str());
    for (auto& d : decoders()) if (strstr(d.name, "58") || strstr(d.name, "from_string") || strstr(d.name, "address")) d.f(s);
  }, "Base58Check strings with right checksums: every payload size to 300 (thorough 800), all prefixes, to every Base58 consumer", 600);
  add("long-text", 40, [ND](long i) { static const char* fill[] = {"a", "1", "z", " ", "=", "q", "\x80", "2a"}; int n = 200 + 211 * (int)i; const char* f = fill[choose(8)]; Bytes s; while ((int)s.size() < n) s += f; for (auto& d : decoders()) d.f(s); }, "strings to 8600 characters", 600);
  static Bytes K, H; 
  add("bech32-lengths", 84, [](long hl) { key_init(); all_dec(ref::bech32(Bytes(hl + 1, 'h'), Bytes(choose(96), 3))); for (int n = 0; n < 84; n++) { Bytes s = ref::bech32(Bytes(hl + 1, 'h'), Bytes(n, 7)); decoders()[7].f(s); inner(1, 1); } }, "right Bech32 checksums for every readable-part and data length", 600);
  add("keys", 40, [](long i) {
    key_init(); Bytes one(32, 0); Bytes k = i == 0 ? ref::add_int(one, 1) : i == 1 ? ref::add_int(ref::order(), -1) : ref::sha256("key" + std::to_string(i)), h = i == 2 ? Bytes(32, '\xff') : ref::sha256("h" + std::to_string(i)), c = ref::pattern(6, 32);
    Blk K(k), H(h), C(c), P(64), S(64), E(33), E65(65), D(72), id(20), ok(32), oc(32), op33(33), d279(279), d214(214), n32(32);
    op(40);
    fingera_btc_key_get_pub(K, P); fingera_btc_key_sign(K, H, S); fingera_btc_key_verify(P, H, S);
    size_t dn = fingera_btc_signature_encode(S, D); within("signature_encode", dn, 72, k);
    { Blk exact(Bytes((char*)D.base, dn)); Blk s2(64); fingera_btc_signature_decode(exact, dn, s2); }
    fingera_btc_pubkey_encode(P, E, 33); fingera_btc_pubkey_encode(P, E65, 65); fingera_btc_pubkey_decode(E, 33, P); fingera_btc_pubkey_decode(E65, 65, P);
    fingera_btc_key_keyid(K, 1, id); fingera_btc_key_keyid(K, 0, id); fingera_btc_pubkey_keyid(P, 0, id); fingera_btc_pubkey_keyid(P, 1, id); fingera_btc_key_fingerprint(K, 0); fingera_btc_key_fingerprint(K, 1); fingera_btc_pubkey_fingerprint(E);
    fingera_btc_key_encode(K, d279, 279); fingera_btc_key_encode(K, d214, 214); { Blk z(32, 0); fingera_btc_key_encode(z, d279, 279); fingera_btc_key_encode(z, d214, 214); }
    fingera_btc_key_decode(d279, 279, ok); fingera_btc_key_decode(d214, 214, ok); fingera_btc_key_new(n32);
    uint32_t ch = (uint32_t[]){0, 1, 0x7fffffff, 0x80000000, 0xffffffff}[choose(5)];
    fingera_btc_key_derive(K, C, ok, oc, ch); fingera_btc_pubkey_derive(E, C, op33, oc, ch); { Blk bad(Bytes(33, 5)); fingera_btc_pubkey_derive(bad, C, op33, oc, ch); }
    { Blk o64(64), d32(k); fingera_btc_bip32_hash(C, ch, 3, d32, o64); }
    Blk xk(sizeof(fingera_ex_key)), xd(sizeof(fingera_ex_key)), xp(sizeof(fingera_ex_pubkey)), xq(sizeof(fingera_ex_pubkey)), e74(74), t32(32), v10(10);
    memset(xk.base, 0, xk.n); memset(xp.base, 0, xp.n);
    auto X = (fingera_ex_key*)xk.base, XD = (fingera_ex_key*)xd.base; auto Q = (fingera_ex_pubkey*)xp.base, Q2 = (fingera_ex_pubkey*)xq.base;
    memcpy(X->key, k.data(), 32); fingera_exkey_get_pub(X, Q); fingera_exkey_derive(X, XD, ch, 5); fingera_expubkey_derive(Q, Q2, ch, 5);
    fingera_exkey_encode(X, e74); fingera_exkey_decode(e74, XD); fingera_expubkey_encode(Q, e74); fingera_expubkey_decode(e74, Q2);
    X->ext.depth = 255; fingera_exkey_derive(X, XD, ch, 5); Q->ext.depth = 255; fingera_expubkey_derive(Q, Q2, ch, 5);
    for (int n = 0; n < 3; n++) { auto p = nets()[n].p; Blk a(fingera_exkey_string_max_length()), b(fingera_exkey_string_max_length()), w(fingera_key_string_max_length()), w2(fingera_key_string_max_length());
      for (int pat : {0, 1}) { memset(X->ext.chain_code, pat ? 0xff : 0, 32); memset(Q->ext.chain_code, pat ? 0xff : 0, 32);
        within("exkey_to_string", fingera_exkey_to_string(X, a.c(), p), a.n, k); within("expubkey_to_string", fingera_expubkey_to_string(Q, b.c(), p), b.n, k); }
      within("key_to_string", fingera_btc_key_to_string(K, w.c(), 0, p), w.n, k); within("key_to_string", fingera_btc_key_to_string(K, w2.c(), 1, p), w2.n, k); Blk z(32, 0), f(32, 0xff); fingera_btc_key_to_string(z, w.c(), 1, p); fingera_btc_key_to_string(f, w.c(), 1, p); }
    for (int b = 0; b < 64; b++) { Blk v(10), z(10); within("encode_varint", fingera_encode_varint((1ull << b) - 1, v), 10, k); within("encode_varint", fingera_encode_varint(~0ull >> b, v), 10, k); fingera_encode_zigzag((int64_t)(1ull << b), z); fingera_encode_zigzag(-(int64_t)(1ull << (b % 63)), z); }
    note("key operations on exact-size buffers");
  }, "every key, signature and extended-key function on exact-size buffers", 600);
  static auto der = [](const Bytes& s) { key_init(); for (int kd = 0; kd < 2; kd++) { Blk i(s), o(kd ? 32 : 64); op(); if (kd) fingera_btc_key_decode(i, s.size(), o); else fingera_btc_signature_decode(i, s.size(), o); } checked(); };
  add("der-truncated", 120, [](long n) {                   // every prefix of a key or signature with lengths that agree, or nearly
    static const Bytes B[] = {Bytes("\2\1\1\4\x20", 5) + ref::pattern(5, 32) + Bytes("\xA0\x81\xA5", 3), Bytes("\2\1\1\4\0\4\1\7", 8), Bytes("\2\1\5\2\1\6", 6), "\2\x20" + ref::pattern(5, 32) + "\2\x20" + ref::pattern(6, 32), Bytes("\2\x81\1\5\2\x82\0\1\6", 9), Bytes("\2\x83\0\0\2\1\2\2\x84\0\0\0\1\7", 14), Bytes("\2\0\2\0", 4)};
    Bytes b = B[choose(7)]; if ((size_t)n > b.size()) return; b.resize(n); int form = choose(6), d = choose(7) - 3; long len = n + d; if (len < 0) len = 0;
    static const char* F[] = {"", "\x81", "\x82", "\x83", "\x84", "\x80"}; Bytes h("\x30"); h += F[form]; int nb = form == 5 ? 0 : form ? form : 1; for (int i = nb - 1; i >= 0; i--) h += (char)(len >> (8 * i));
    note("%s", hex(h + b).c_str()); der(h + b);
  }, "keys and signatures cut at every byte, the outer length in six forms and off by -3..3", 600);
  int DL = pick(6, 7);
  add("der-exhaustive", 8 * 8, [DL](long u) {
    static const Bytes E("\x30\2\0\1\x80\x81\4\x82", 8); int n = choose(DL - 1); Bytes s; s += E[u % 8]; s += E[u / 8]; if (u % 8) n = std::min(n, 2); for (int i = 0; i < n; i++) s += E[choose(8)]; der(s);
  }, "both DER decoders x all strings of 2.." + std::to_string(DL) + " bytes over 8 structural bytes", 600);
  add("der-key-exhaustive", 8 * 8, [](long u) { static const Bytes E("\x20\2\0\1\3\x1f\4\x21", 8); int n = choose(6); Bytes body; body += E[u % 8]; body += E[u / 8]; for (int i = 0; i < n; i++) body += E[i < 3 ? choose(8) : choose(3) * 2]; int d = choose(3) - 1; for (int f = 0; f < 2; f++) { Bytes s = f ? Bytes("\x30\x82\0", 3) : Bytes("\x30\x81", 2); s += (char)(body.size() + d); der(s + body); der(s + "\2\1\1\4" + body); Bytes t = f ? Bytes("\x30\x82\0", 3) : Bytes("\x30\x81", 2); t += (char)(body.size() + d + 4); der(t + "\2\1\1\4" + body); } }, "key bodies of 2..7 structural bytes under an outer length that agrees or is off by one", 600);
  add("varint-exact", 64, [](long b) { for (int d = -3; d <= 3; d++) { uint64_t v = (b == 63 ? 1ull << 63 : 1ull << b) + d; Bytes e = ref::varint(v); Blk o(10); op(); size_t n = fingera_encode_varint(v, o); within("encode_varint", n, 10, e); int64_t s = (int64_t)v; uint64_t zz = ((uint64_t)s << 1) ^ (uint64_t)(s >> 63); (void)zz; for (size_t t = 0; t <= e.size(); t++) { decoders()[decoders().size() - 5].f(e.substr(0, t)); decoders()[decoders().size() - 4].f(e.substr(0, t)); } inner(1, 1); } }, "every truncation of encodings around every power of two");
  add("hex-dump", 33, [](long part) { static int nul = -1; if (nul < 0) { nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1); } int n = (int)part + 33 * choose(pick(40, 200)); Blk b(ref::pattern(5, n)); op(); fingera_hex_dump(b, n, choose(2)); fflush(stdout); }, "sizes to 1300 (thorough 6600)", 600);
}
int main(int c, char** v) { return run(c, v, "C19", define, {"AddressSanitizer sees every access of the library's own code and of the libc functions it calls; libsecp256k1 is not instrumented", "accesses far outside every buffer that land in other live memory are not told apart"}); }
