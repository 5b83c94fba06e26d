// C11: private key strings: exact text, round trip, and acceptance exactly as the format says.
#include "api.hpp"
#include "giant.hpp"
#include "ref.hpp"
using namespace mc;
struct P { Bytes pre; chain_parameters c; const chain_parameters* use; };
static std::vector<P>& params() {
  static std::vector<P> v;
  if (v.empty()) {
    v.reserve(16);
    for (int i = 0; i < 3; i++) { P p; p.pre = Bytes(1, (char)nets()[i].wif); v.push_back(p); }
    for (int n = 1; n <= 8; n++) { P p; p.pre = ref::pattern(5, n); v.push_back(p); }
    P z; z.pre = Bytes("\0\0\1", 3); v.push_back(z);
    for (size_t i = 0; i < v.size(); i++) { P& p = v[i]; p.c = *nets()[0].p; p.c.prefix_secret_key = p.pre.data(); p.c.prefix_secret_key_size = p.pre.size(); p.use = i < 3 ? nets()[i].p : &p.c; }
  }
  return v;
}
static void decode(const Bytes& s, const P& p) {
  Bytes pay; bool ok = ref::unbase58check(s, pay) && pay.compare(0, p.pre.size(), p.pre) == 0; int flag = -1;
  if (ok) { Bytes rest = pay.substr(std::min(p.pre.size(), pay.size())); if (rest.size() == 32) flag = 0; else if (rest.size() == 33 && rest[32] == 1) flag = 1; else ok = false; }
  Out key(32); struct { int before, flag, after; } f = {0x1234567, 77, 0x7654321}; Tail mem(s);
  int r = call(fingera_btc_key_from_string, (const char*)mem.data(), mem.size(), (void*)key.p(), &f.flag, p.use);
  key.check("key_from_string");
  if (mem != s) fail("key_from_string changed its input");
  if (f.before != 0x1234567 || f.after != 0x7654321) fail("key_from_string wrote around the flag");
  note("decode %s with prefix %s -> %d flag %d", quote(s, 100).c_str(), hex(p.pre).c_str(), r, f.flag);
  checked();
  if (!ok) { if (r) fail("key_from_string accepted %s with prefix %s", quote(s).c_str(), hex(p.pre).c_str()); return; }
  if (!r) fail("key_from_string refused %s with prefix %s", quote(s).c_str(), hex(p.pre).c_str());
  if (!!f.flag != flag || key.str() != pay.substr(p.pre.size(), 32)) fail("key_from_string of %s: key %s flag %d, expected %s and %d", quote(s).c_str(), hex(key.str()).c_str(), f.flag, hex(pay.substr(p.pre.size(), 32)).c_str(), flag);
}
static Bytes encode(const Bytes& key, int flag, const P& p) {
  Out o(fingera_key_string_max_length()); Bytes k = key;
  size_t n = call(fingera_btc_key_to_string, (const void*)k.data(), o.c(), flag, p.use);
  o.check("key_to_string");
  if (k != key) fail("key_to_string changed the key");
  if (n > o.n) fail("key_to_string returned %zu of at most %zu", n, o.n);
  return o.str(n);
}
static void roundtrip(const Bytes& key, int flag, const P& p) {
  Bytes w = ref::base58check(p.pre + key + (flag ? Bytes(1, 1) : Bytes())), t = encode(key, flag, p);
  note("key %s flag %d -> %s", hex(key).c_str(), flag, t.c_str());
  expect_str("key_to_string", t, w, key);
  for (auto& q : params()) decode(t, q);
}
static void define() {
  int NP = (int)params().size();
  add("keys", NP, [](long u) { Bytes k = ref::pattern(choose(ref::NPAT), 32); int at = choose(32); k[at] = (char)(choose(8) * 37 - 1); roundtrip(k, choose(2), params()[u]); }, "12 prefixes x 7 keys x every byte deviating x both flags; decoded with every prefix");
  add("flag-values", NP, [](long u) { static const int F[] = {0, 1, 2, -1, 256, 1 << 30}; int f = F[choose(6)]; roundtrip(ref::pattern(5, 32), f, params()[u]); }, "the flag is a truth value");
  add("last-bytes", NP * 16, [](long u) { const P& p = params()[u / 16]; Bytes k = ref::pattern(5, 32); k[31] = (char)(u % 16 < 4 ? 1 : choose(4) * 85); Bytes t = ref::base58check(p.pre + k + (char)(choose(256))); decode(t, p); }, "all 256 bytes behind the key");
  add("payload-sizes", 120, [](long n) {                    // everything that is not prefix + 32 (+1)
    for (auto& p : params()) { Bytes tail = ref::pattern(choose(2) + 5, n); int last = choose(3); if (n && last) tail[n - 1] = last == 1 ? 1 : 0; decode(ref::base58check(p.pre + tail), p); break; }
    const P& p = params()[choose((int)params().size())]; Bytes tail = ref::pattern(5, n); if (n > 32 && choose(2)) tail[32] = 1; if (n) tail[n - 1] = (char)choose(2); decode(ref::base58check(p.pre + tail), p);
  }, "payloads of 0..119 bytes behind the prefix, ending in 0, 1 or other");
  add("prefixes", 256, [](long b) {
    int sz = choose(3); Bytes pay = Bytes(1, (char)b) + ref::pattern(5, 32) + (sz == 1 ? Bytes(1, 1) : sz == 2 ? Bytes(1, 2) : Bytes()); for (auto& p : params()) decode(ref::base58check(pay), p);
  }, "all 256 one-byte prefixes, both forms");
  add("prefix-bytes", NP - 3, [](long u) {                   // every byte of a long prefix matters
    const P& p = params()[u + 3]; Bytes pre = p.pre; pre[choose((int)pre.size())] ^= 1 << choose(8); Bytes t = ref::base58check(pre + ref::pattern(5, 32) + (choose(2) ? Bytes(1, 1) : Bytes())); decode(t, p);
  }, "every single-bit error in prefixes of 1..8 bytes");
  add("shifted-prefix", NP, [](long u) {                     // right length reached with a prefix of another size
    const P& p = params()[u]; int d = choose(5) - 2; Bytes pre = p.pre; if (d < 0) pre = pre.substr(0, (size_t)std::max(0, (int)pre.size() + d)); else pre += ref::pattern(5, d); decode(ref::base58check(pre + ref::pattern(6, 31 + choose(4)) + (choose(2) ? Bytes(1, 1) : Bytes())), p);
  }, "prefixes too short or too long by up to two bytes");
  add("corruption", 6, [](long u) {
    Bytes t = ref::base58check(params()[u / 2].pre + ref::pattern(5, 32) + (u & 1 ? Bytes(1, 1) : Bytes())); int at = choose((int)t.size()), k = choose(97);
    if (k < 95) t[at] = (char)(32 + k); else if (k == 95) t.erase(at, 1); else t.insert(at, 1, '1'); decode(t, params()[u / 2]);
  }, "every substitution, deletion and an insertion at every position of six key strings");
  add("checksum", 6 * 4, [](long u) { Bytes pay = params()[u % 3].pre + ref::pattern(5, 32) + (u / 3 & 1 ? Bytes(1, 1) : Bytes()), h = ref::hash256(pay).substr(0, 4); h[u / 6] ^= 1 + choose(255); decode(ref::base58(pay + h), params()[u % 3]); }, "every wrong value of every checksum byte");
  add("long-strings", pick(400, 1200), [](long n) {
    const P& p = params()[choose((int)params().size())]; int k = choose(3);
    decode(k == 0 ? ref::base58check(p.pre + ref::pattern(5, n)) : k == 1 ? Bytes(n, '1') : Bytes(n, 'z'), p);
  }, "valid Base58Check strings of payloads to 400 bytes, and runs of '1' and 'z'");
  add("extended", 6, [](long u) {                           // a valid string with something in front of it or behind it
    const P& p = params()[u / 2]; Bytes pay = p.pre + ref::pattern(5, 32) + (u & 1 ? Bytes(1, 1) : Bytes()); int var = choose(3); if (var) pay[5] = (char)(var * 77);
    Bytes t = ref::base58check(pay); int n = 1 + choose(pick(40, 120)), side = choose(3), c = choose(9); Bytes x(n, "1z2AlO0+ "[c]); if (c == 0 && side == 2) x = t.substr(0, std::min((size_t)n, t.size()));
    decode(side == 0 ? t + x : side == 1 ? x + t : t.substr(0, 30) + x + t.substr(30), p);
  }, "valid strings with 1..40 (thorough 120) characters of 9 kinds behind, before or inside, or part of themselves again");
  add("extended-byte", 6, [](long u) { const P& p = params()[u / 2]; Bytes t = ref::base58check(p.pre + ref::pattern(5, 32) + (u & 1 ? Bytes(1, 1) : Bytes())); Bytes x(1, (char)(1 + choose(255))); if (choose(2)) x += "11"; decode(choose(2) ? t + x : x + t, p); }, "every byte but NUL behind and before a valid string");
  add("short-strings", 256, [](long a) { int b = choose(257); Bytes s(1, (char)a); if (b) s += (char)(b - 1); if (!a) { decode("", params()[0]); return; } if (b == 1) return; decode(s, params()[0]); }, "all strings of 0-2 bytes");
  add("size-wrap", 6, [](long u) {                            // payloads whose size is right modulo 2^16
    Bytes body = ref::pattern(5, 65536 + 33); body[32] = 1; body.resize(65536 + (u & 1 ? 33 : 32)); if (u & 1) body.back() = 1;
    Bytes s = u < 2 ? ref::base58check_long("\x80" + body) : ref::base58check_long(Bytes(u < 4 ? 65536 : 131072, 0) + "\x80" + body.substr(0, u & 1 ? 33 : 32)); uint8_t k[32]; int f = 0; op();
    for (auto& p : params()) { int r = fingera_btc_key_from_string(s.data(), s.size(), k, &f, p.use); checked(); note("string of %zu characters -> %d", s.size(), r); if (r) fail("key_from_string accepted a string of %zu characters", s.size()); if (u < 2) break; }
  }, "payloads whose size is right modulo 2^16", 200);
  add_patient("giant", 1, [](long) {                                 // a valid string that goes on for 4 GiB
    Bytes s = ref::base58check("\x80" + ref::pattern(5, 32) + "\x01"); uint64_t n = (1ull << 32) + s.size(); giant::In in(Bytes(1 << 20, '0'), n); in.set(0, s); uint8_t k[32]; int f = 0; op();
    int r = fingera_btc_key_from_string((const char*)in.b, n, k, &f, nets()[0].p); checked(); note("%s and 4 GiB of '0' -> %d", s.c_str(), r);
    if (r) fail("key_from_string accepted a string of %llu characters, most of them illegal", (unsigned long long)n);
  }, "valid strings with an illegal character and 2^32 more behind");
  add_patient("giant-zeros", 2, [](long u) {                         // a payload of 2^32 + 33 (or 34) bytes is not a key
    P p; p.pre = Bytes(1, 0); p.c = *nets()[0].p; p.c.prefix_secret_key = p.pre.data(); p.c.prefix_secret_key_size = 1; key_init();
    const uint64_t z = (1ull << 32) + 9; const Bytes tail = ref::pattern(5, 23) + Bytes("\1\1", 1 + u); uint8_t h[32]; giant::In t(Bytes(1 << 20, '1'), z + 64);
    { giant::In in(Bytes(1 << 20, 0), z + 64); in.set(z, tail); SHA256(in.b, z + tail.size(), h); SHA256(h, 32, h); }
    Bytes text = ref::base58(tail + Bytes((char*)h, 4)); t.set(z, text + Bytes(16, '~')); uint8_t k[34]; memset(k, 0x5E, 34); int flag = 7; op();
    int r = fingera_btc_key_from_string((const char*)t.b, z + text.size(), k + 1, &flag, &p.c); checked(); note("payload of 2^32 + %ld bytes -> %d", 33 + u, r);
    if (r) fail("key_from_string accepted a payload of 2^32 + %ld bytes", 33 + u);
    if (k[0] != 0x5E || k[33] != 0x5E) fail("key_from_string wrote around its output");
  }, "payloads of 2^32 + 33 and 2^32 + 34 bytes behind a right checksum");
}
int main(int c, char** v) { return run(c, v, "C11", define, {"the 32 bytes of an imported key are not range checked (the property does not ask for it)"}); }
