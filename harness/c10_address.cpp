// C10: addresses of five kinds on three networks (and networks with other prefixes), both directions.
#include "api.hpp"
#include "giant.hpp"
#include "ref.hpp"
using namespace mc;

struct P { Bytes pk, sc, hrp; chain_parameters c; const chain_parameters* use; };
static void fill(P& p) {
  memset(&p.c, 0, sizeof p.c);
  p.c.prefix_pubkey_address = p.pk.data(); p.c.prefix_pubkey_address_size = p.pk.size();
  p.c.prefix_script_address = p.sc.data(); p.c.prefix_script_address_size = p.sc.size();
  p.c.prefix_secret_key = "\x80"; p.c.prefix_secret_key_size = 1;
  p.c.prefix_ext_public_key = "\4\x88\xb2\x1e"; p.c.prefix_ext_public_key_size = 4;
  p.c.prefix_ext_secret_key = "\4\x88\xad\xe4"; p.c.prefix_ext_secret_key_size = 4;
  p.c.bech32_hrp = p.hrp.data(); p.c.bech32_hrp_size = p.hrp.size(); p.use = &p.c;
}
static std::vector<P>& params() {
  static std::vector<P> v;
  if (v.empty()) {
    v.reserve(8);
    for (int i = 0; i < 3; i++) { const Net& n = nets()[i]; P p; p.pk = Bytes(1, (char)n.pk); p.sc = Bytes(1, (char)n.sc); p.hrp = n.hrp; v.push_back(p); }
    P a; a.pk = Bytes("\x1c\xb8", 2); a.sc = Bytes("\x1c\xbd", 2); a.hrp = "ltc"; v.push_back(a);            // two-byte prefixes, common first byte
    P b; b.pk = Bytes("\0\5", 2); b.sc = Bytes("\0\0\7", 3); b.hrp = "a1?x"; v.push_back(b);
    P d; d.pk = Bytes("\x30", 1); d.sc = Bytes("\x30\x01", 2); d.hrp = "abcdefghijklmno"; v.push_back(d);
    for (size_t i = 0; i < v.size(); i++) { fill(v[i]); if (i < 3) v[i].use = nets()[i].p; }
  }
  return v;
}
struct Res { int kind; Bytes out; bool loose; };
static bool program(const Bytes& data5, Bytes& out) {      // 5-bit groups to bytes, BIP173 padding rule
  std::vector<int> v; for (size_t i = 1; i < data5.size(); i++) v.push_back(data5[i]);
  size_t bits = v.size() * 5, pad = bits % 8; if (pad > 4) return false;
  if (pad && (v.back() & ((1 << pad) - 1))) return false;
  out = ref::ungroup(v, 5); return true;
}
static Res model(const Bytes& s, const P& p) {
  Bytes pay; if (ref::unbase58check(s, pay) && !pay.empty()) {
    if (pay.compare(0, p.pk.size(), p.pk) == 0 && pay.size() >= p.pk.size()) return {BTC_PUBKEY_ADDRESS, pay.substr(p.pk.size()), pay.size() - p.pk.size() != 20};
    if (pay.compare(0, p.sc.size(), p.sc) == 0 && pay.size() >= p.sc.size()) return {BTC_SCRIPT_ADDRESS, pay.substr(p.sc.size()), pay.size() - p.sc.size() != 20};
  }
  Bytes h, d, prog;
  if (!ref::unbech32(s, h, d) || h != p.hrp || d.empty() || !program(d, prog)) return {BTC_BAD_ADDRESS, "", false};
  int ver = d[0];
  if (ver > 16 || prog.size() < 2 || prog.size() > 40) return {BTC_BAD_ADDRESS, "", false};
  if (ver == 0) { if (prog.size() == 20) return {BTC_WITNESSV0_KEYHASH_ADDRESS, prog, false}; if (prog.size() == 32) return {BTC_WITNESSV0_SCRIPTHASH_ADDRESS, prog, false}; return {BTC_BAD_ADDRESS, "", false}; }
  return {BTC_WITNESS_UNKNOWN_ADDRESS, Bytes(1, (char)ver) + prog, false};
}
static void decode(const Bytes& s, const P& p, size_t cap = 300) {
  Res w = model(s, p);
  Out o(cap); Tail mem(s); size_t n = cap;
  int k = (int)call(fingera_btc_address_decode, (const char*)mem.data(), mem.size(), (void*)o.p(), &n, p.use);
  o.check("address_decode");
  if (mem != s) fail("address_decode changed its input");
  note("decode %s on %s, room %zu -> kind %d, %zu bytes", quote(s, 100).c_str(), p.hrp.c_str(), cap, k, k ? n : 0);
  checked();
  if (k == BTC_BAD_ADDRESS && (w.kind == BTC_BAD_ADDRESS || w.loose || cap < s.size())) return;
  if (w.kind == BTC_BAD_ADDRESS) fail("address_decode accepted %s on network %s as kind %d", quote(s).c_str(), p.hrp.c_str(), k);
  if (cap < w.out.size()) fail("address_decode accepted %s with room for %zu bytes only", quote(s).c_str(), cap);
  if (k != w.kind || n != w.out.size() || o.str(std::min(n, cap)) != w.out)
    fail("address_decode of %s on network %s: kind %d with %zu bytes %s, expected kind %d with %zu bytes %s", quote(s).c_str(), p.hrp.c_str(), k, n, hex(o.str(std::min(n, cap))).c_str(), w.kind, w.out.size(), hex(w.out).c_str());
}
// encode one address of a kind into `cap` bytes; returns text
static Bytes encode(int kind, const Bytes& h, const P& p, size_t cap) {
  Out o(cap, 0xE1); Tail in(h); size_t n = 0; op();
  switch (kind) {
    case BTC_PUBKEY_ADDRESS: n = fingera_to_address_pubkey(in.data(), in.size(), o.c(), cap, p.use); break;
    case BTC_SCRIPT_ADDRESS: n = fingera_to_address_script(in.data(), in.size(), o.c(), cap, p.use); break;
    case BTC_WITNESSV0_KEYHASH_ADDRESS: n = fingera_to_address_witnessv0_keyhash(in.data(), in.size(), o.c(), cap, p.use); break;
    case BTC_WITNESSV0_SCRIPTHASH_ADDRESS: n = fingera_to_address_witnessv0_scripthash(in.data(), in.size(), o.c(), cap, p.use); break;
    default: n = fingera_to_address_witness_unknown(in.data(), in.size(), o.c(), cap, p.use); break;
  }
  o.check("to_address");
  if (in != h) fail("to_address changed its input");
  if (n > cap) fail("to_address kind %d returned %zu with room for %zu", kind, n, cap);
  if (n == 0) for (size_t i = 0; i < cap; i++) if (o.p()[i] != 0xE1) fail("to_address kind %d failed but wrote into its %zu-byte output", kind, cap);
  return o.str(n);
}
static Bytes expected(int kind, const Bytes& h, const P& p) {
  switch (kind) {
    case BTC_PUBKEY_ADDRESS: return ref::base58check(p.pk + h);
    case BTC_SCRIPT_ADDRESS: return ref::base58check(p.sc + h);
    case BTC_WITNESSV0_KEYHASH_ADDRESS: case BTC_WITNESSV0_SCRIPTHASH_ADDRESS: return ref::bech32(p.hrp, Bytes(1, 0) + ref::base32_raw(h));
    default: if (h.size() < 3 || h.size() > 41 || h[0] < 1 || h[0] > 16) return ""; return ref::bech32(p.hrp, Bytes(1, h[0]) + ref::base32_raw(h.substr(1)));
  }
}
static void roundtrip(int kind, const Bytes& h, const P& p, size_t cap = 200) {
  Bytes w = expected(kind, h, p), t = encode(kind, h, p, cap);
  note("kind %d of %s on %s -> %s", kind, hex(h).c_str(), p.hrp.c_str(), t.c_str());
  expect_str("to_address", t, w, h);
  if (t.empty()) return;
  for (auto& q : params()) decode(t, q, std::max<size_t>(300, t.size() + 50));
  Bytes u = t; for (auto& c : u) if (c >= 'a' && c <= 'z') c -= 32;
  if (kind > BTC_SCRIPT_ADDRESS) decode(u, p);
}
static Bytes hash_of(int kind, int pat) {
  size_t n = kind == BTC_WITNESSV0_SCRIPTHASH_ADDRESS ? 32 : kind == BTC_WITNESS_UNKNOWN_ADDRESS ? 33 : 20;
  Bytes h = ref::pattern(pat, n); if (kind == BTC_WITNESS_UNKNOWN_ADDRESS) h[0] = 1 + pat; return h;
}
static void define() {
  int NP = (int)params().size();
  add("hashes", NP * 5 * 2, [](long u) {                   // every byte of the hash takes deviating values
    const P& p = params()[u / 10]; int kind = 1 + (int)(u / 2 % 5);
    Bytes h = hash_of(kind, u & 1 ? 0 : 5); int lo = kind == BTC_WITNESS_UNKNOWN_ADDRESS ? 1 : 0;
    h[lo + choose((int)h.size() - lo)] = (char)choose(256);
    roundtrip(kind, h, p);
  }, "5 kinds x 6 parameter sets x every byte of the hash deviating; decoded on all 6 parameter sets and in upper case");
  add("leading-zeros", NP * 2, [](long u) { Bytes h = ref::pattern(5, 20); int z = choose(21); for (int i = 0; i < z; i++) h[i] = 0; roundtrip(u & 1 ? BTC_SCRIPT_ADDRESS : BTC_PUBKEY_ADDRESS, h, params()[u / 2]); }, "0..20 leading zero bytes of the hash");
  add("witness-programs", 20, [NP](long ver) {              // all versions x all lengths
    int len = choose(46); Bytes h = Bytes(1, (char)ver) + ref::pattern(choose(3) + 4, len); roundtrip(BTC_WITNESS_UNKNOWN_ADDRESS, h, params()[choose(NP)]);
  }, "versions 0..19 x program lengths 0..45 through the encoder");
  add("any-length-hash", 60, [NP](long len) { int k = 1 + choose(2); Bytes h = ref::pattern(choose(2) + 5, len); roundtrip(k, h, params()[choose(NP)]); }, "Base58Check addresses of payloads of 0..59 bytes");
  add("long-payloads", pick(300, 600), [](long u) { size_t len = 60 + u; roundtrip(1 + (int)(u & 1), ref::pattern(choose(2) + 5, len), params()[u / 2 % 3], len * 3 + 100); }, "Base58Check addresses of payloads of 60..359 (thorough 659) bytes: sizes are not cut to a byte");
  add("size-wrap", 4, [](long u) {                            // payloads whose size is right modulo 2^8 or 2^16
    size_t more = u < 2 ? 256 : 65536; const P& p = params()[0]; int kind = 1 + (int)(u & 1);
    Bytes s = ref::base58check_long((kind == 1 ? p.pk : p.sc) + ref::pattern(6, 20 + more)); Bytes o(s.size() + 50, 0); size_t n = o.size();
    op(); int k = (int)fingera_btc_address_decode(s.data(), s.size(), &o[0], &n, p.use); checked(); note("string of %zu characters -> kind %d, %zu bytes", s.size(), k, k ? n : 0);
    if (k != BTC_BAD_ADDRESS && (k != kind || n != 20 + more)) fail("address_decode reads %zu bytes of payload as kind %d with %zu bytes", 20 + more, k, n);
  }, "payloads of 20 bytes modulo 2^8 and 2^16", 200);
  add("huge-rooms", 5 * 5, [](long u) {                       // the room is only a limit, however large
    static const size_t rooms[] = {256, 65536, 1ull << 31, 1ull << 32, (1ull << 32) + 5}; size_t room = rooms[u / 5]; int kind = 1 + (int)(u % 5); const P& p = params()[choose(3)];
    Bytes h = hash_of(kind, 5), w = expected(kind, h, p); giant::OutMap o(1 << 20, room); memset(o.b, 0xE1, 4096);
    op(2); Tail in(h); size_t n = 0; char* c = (char*)o.b;
    switch (kind) {
      case BTC_PUBKEY_ADDRESS: n = fingera_to_address_pubkey(in.data(), in.size(), c, room, p.use); break;
      case BTC_SCRIPT_ADDRESS: n = fingera_to_address_script(in.data(), in.size(), c, room, p.use); break;
      case BTC_WITNESSV0_KEYHASH_ADDRESS: n = fingera_to_address_witnessv0_keyhash(in.data(), in.size(), c, room, p.use); break;
      case BTC_WITNESSV0_SCRIPTHASH_ADDRESS: n = fingera_to_address_witnessv0_scripthash(in.data(), in.size(), c, room, p.use); break;
      default: n = fingera_to_address_witness_unknown(in.data(), in.size(), c, room, p.use); break;
    }
    checked(); note("kind %d with room %zu -> %zu", kind, room, n);
    if (Bytes(c, std::min<size_t>(n, 200)) != w) fail("to_address kind %d with room for %zu bytes gave %zu characters %s", kind, room, n, quote(Bytes(c, std::min<size_t>(n, 200))).c_str());
    memset(o.b, 0xE1, 4096); size_t m = room; int k = (int)fingera_btc_address_decode(w.data(), w.size(), o.b, &m, p.use); Res r = model(w, p);
    if (k != r.kind || m != r.out.size() || Bytes(c, std::min<size_t>(m, 200)) != r.out) fail("address_decode of %s with room for %zu bytes: kind %d with %zu bytes", quote(w).c_str(), room, k, m);
  }, "every kind with room for 256 bytes to 4 GiB");
  add("crafted-segwit", 32, [NP](long ver) {                // any version value, any number of data groups, any padding
    int groups = choose(70), padbits = choose(9), pi = choose(4); const P& p = params()[pi == 3 ? 4 : pi];
    Bytes d(1, (char)ver); for (int i = 0; i < groups; i++) d += (char)((i * 7 + 3) & 31);
    if (groups) { int pad = groups * 5 % 8; char& l = d.back(); l &= ~((1 << std::min(pad, 5)) - 1); if (padbits < 5) l |= 1 << padbits; else if (padbits == 5) l |= 31; }
    decode(ref::bech32(p.hrp, d), p);
    if (choose(2)) decode(ref::bech32(p.hrp, d, 0x2bc830a3), p);   // Bech32m constant
  }, "32 version values x 0..69 data groups x 9 paddings x 4 networks, with both known checksum constants");
  add("crafted-readable-part", 40, [](long u) {
    static const char* H[] = {"bc", "tb", "bcrt", "b", "bcr", "bcrtx", "bb", "cb", "tc", "ta", "bd", "t", "tbx", "xtb", "BC", "b1", "bc1", "bcrt1", "ltc", "a1?x", "a", "abcdefghijklmno", "abcdefghijklmnop", "abcdefghijklmn", "abcdefghijklmnopq", "tbbc", "bctb", "bcRT", "1bc", "ab"};
    if (u >= 30) { Bytes h(u - 10, 'b'); for (auto& p : params()) decode(ref::bech32(h, Bytes(1, 0) + ref::base32_raw(ref::pattern(5, 20))), p); return; }
    int l = choose(2); for (auto& p : params()) decode(ref::bech32(H[u], Bytes(1, 0) + ref::base32_raw(ref::pattern(5, l ? 20 : 32))), p);
  }, "readable parts that are prefixes, extensions and near misses of the networks'");
  add("all-prefixes", 256, [](long b) {
    int len = choose(3); Bytes pay = Bytes(1, (char)b) + ref::pattern(5, len == 0 ? 20 : len == 1 ? 21 : 19); int second = choose(4);
    if (second) pay[1] = second == 1 ? '\xb8' : second == 2 ? '\xbd' : 1;
    for (auto& p : params()) decode(ref::base58check(pay), p);
  }, "all 256 first prefix bytes x second bytes of the two-byte prefixes x 3 sizes on all networks");
  add("corruption", 5 * 3, [](long u) {                     // every single-character substitution in addresses of every kind
    const P& p = params()[u / 5]; int kind = 1 + u % 5; Bytes t = expected(kind, hash_of(kind, 5), p);
    int at = choose((int)t.size()), c = choose(95); t[at] = (char)(32 + c); decode(t, p);
  }, "every substitution by a printable character in one address per kind and network");
  add("edit", 5 * 3, [](long u) {
    const P& p = params()[u / 5]; int kind = 1 + u % 5; Bytes t = expected(kind, hash_of(kind, 6), p); int k = choose(6);
    if (k == 0) t.insert(choose((int)t.size() + 1), 1, "1qzQ "[choose(5)]); else if (k == 1) t.erase(choose((int)t.size()), 1); else if (k == 2) { int i = choose((int)t.size()), j = choose((int)t.size()); std::swap(t[i], t[j]); }
    else if (k == 3) t.resize(choose((int)t.size() + 1)); else if (k == 4) t += t; else t = " " + t + " ";
    decode(t, p);
  }, "insertions, deletions, exchanges, truncations, doubling");
  add("encode-room", 5 * 4, [](long u) {                    // every output size
    const P& p = params()[u / 5]; int kind = 1 + u % 5; Bytes h = hash_of(kind, 5), w = expected(kind, h, p); size_t cap = choose(110);
    Bytes t = encode(kind, h, p, cap);
    note("kind %d with room %zu -> %zu", kind, cap, t.size());
    checked();
    size_t sure = kind <= 2 ? fingera_to_base58_check_length(20, (kind == 1 ? p.pk : p.sc).size()) : w.size();
    if (t.empty() ? cap >= sure : t != w) fail("to_address kind %d with room for %zu bytes (the text has %zu) gave %s", kind, cap, w.size(), quote(t).c_str());
  }, "5 kinds x 4 networks x every output size 0..109: complete or untouched");
  add("decode-room", 5 * 4, [](long u) {
    const P& p = params()[u / 5]; int kind = 1 + u % 5; Bytes t = expected(kind, hash_of(kind, 5), p); decode(t, p, choose(100));
  }, "decoding with every output size 0..99");
  add("short-strings", 256, [](long a) {
    int b = choose(257); Bytes s(1, (char)a); if (b) s += (char)(b - 1); if (s.find('\0') != Bytes::npos) return; if (!a) decode("", params()[0]); decode(s, params()[0]);
  }, "all strings of 1-2 bytes");
  add("long-strings", pick(200, 400), [](long n) {
    int k = choose(3); Bytes pay = params()[1].pk + ref::pattern(5, n); decode(k == 0 ? ref::base58check(pay) : k == 1 ? ref::bech32("tb", Bytes(1, 0) + ref::base32_raw(ref::pattern(5, n))) : Bytes(n, "q1z"[choose(3)]), params()[1], 500);
  }, "strings of data to 200 bytes");
  add("junk-behind", 3 * 5, [](long u) {                     // a valid address and legal characters behind it: lengths equal modulo 2^8 or 2^16
    const P& p = params()[u / 5]; int kind = 1 + u % 5; Bytes t = expected(kind, hash_of(kind, 5 + choose(2)), p);
    static const std::vector<int> N = {1, 2, 6, 7, 8, 32, 48, 64, 90, 128, 255, 256, 257, 512, 768, 1024, 4096, 65535, 65536, 65537, 131072}; int n = choose_of(N), front = choose(2); if (n > 1024 && kind <= 2) return;
    Bytes junk(n, kind <= 2 ? "1Q"[choose(2)] : "q0p"[choose(3)]); if (kind > 2 && n > 255) junk[0] = '0'; decode(front ? junk + t : t + junk, p, n + 400);
  }, "addresses of every kind with 1..131072 legal characters in front or behind, all with room for the whole");
  add_patient("giant-zeros", 1, [](long) {                            // a Base58Check address of 2^32 + 20 zero bytes and a few others
    const uint64_t z = (1ull << 32) + 9; const Bytes tail = ref::pattern(5, 12); uint8_t h[32]; giant::In t(Bytes(1 << 20, '1'), z + 64);
    { giant::In in(Bytes(1 << 20, 0), z + 64); in.set(z, tail); SHA256(in.b, z + 12, h); SHA256(h, 32, h); }
    Bytes text = ref::base58(tail + Bytes((char*)h, 4)); t.set(z, text + Bytes(16, '~')); giant::OutMap o(1 << 20, 1ull << 33); size_t n = o.total; op();
    int k = (int)fingera_btc_address_decode((const char*)t.b, z + text.size(), o.b, &n, nets()[0].p); checked(); note("address of 2^32 + 20 bytes -> %d, %zu bytes", k, n);
    if (k != BTC_BAD_ADDRESS && (k != BTC_PUBKEY_ADDRESS || n != z + 11)) fail("address_decode reads an address of 2^32 + 20 bytes as kind %d with %zu bytes", k, n);
  }, "an address whose payload has 2^32 + 20 bytes is not one of 20");
  add_patient("giant", 2, [](long u) {                               // a valid address that goes on for 4 GiB
    Bytes s = u ? ref::bech32("bc", Bytes(1, 0) + ref::base32_raw(ref::pattern(5, 20))) : ref::base58check(Bytes(1, 0) + ref::pattern(5, 20)); uint64_t n = (1ull << 32) + s.size(); giant::In in(Bytes(1 << 20, u ? 'q' : '0'), n); in.set(0, s);
    giant::OutMap big(1 << 20, 1ull << 33); size_t wide = big.total; op();   // room for everything, so that the text itself is looked at
    int q = (int)fingera_btc_address_decode((const char*)in.b, n, big.b, &wide, nets()[0].p); checked(); note("%s and 4 GiB more, 8 GiB of room -> %d", s.c_str(), q);
    if (q != BTC_BAD_ADDRESS) fail("address_decode accepted a string of %llu characters, given room for it", (unsigned long long)n);
    uint8_t o[300]; memset(o, 0x5E, 300); size_t room = 200; op(); int r = (int)fingera_btc_address_decode((const char*)in.b, n, o, &room, nets()[0].p); checked(); note("%s and 4 GiB more -> %d", s.c_str(), r);
    if (r != BTC_BAD_ADDRESS) fail("address_decode accepted a string of %llu characters", (unsigned long long)n);
    for (int i = 200; i < 300; i++) if (o[i] != 0x5E) fail("address_decode wrote behind the room it was given");
  }, "valid addresses with 2^32 more characters behind");
}
int main(int c, char** v) { return run(c, v, "C10", define, {"Base58Check addresses whose payload is not 20 bytes may be accepted or refused; strings with embedded NUL are not explored"}); }
