// C06: Base58 against whole-number long division; decoding against the set of canonical texts.
#include "api.hpp"
#include "ref.hpp"
#include "giant.hpp"
using namespace mc;

static Bytes lib_enc(const Bytes& in) {
  Out o(fingera_to_base58_length(in.size())); Tail c(in);
  size_t n = call(fingera_to_base58, (const void*)c.data(), c.size(), o.c());
  o.check("to_base58");
  if (c != in) fail("to_base58 changed its input");
  if (n > o.n) fail("to_base58 of %zu bytes returned %zu, more than the %zu announced", in.size(), n, o.n);
  return o.str(n);
}
static Bytes lib_dec(const Bytes& s, const Bytes& behind = Bytes()) {
  Out o(fingera_from_base58_length(s.size())); Bytes keep = s + behind; Tail mem(keep);
  size_t n = call(fingera_from_base58, (const char*)mem.data(), s.size(), (void*)o.p());
  o.check("from_base58");
  if (mem != keep) fail("from_base58 changed its input");
  if (n > o.n) fail("from_base58 of %s returned %zu, more than the %zu announced", quote(s).c_str(), n, o.n);
  return o.str(n);
}
static void roundtrip(const Bytes& in) {
  Bytes w = ref::base58(in), t = lib_enc(in);
  note("base58(%s) = %s", hex(in, 40).c_str(), t.c_str());
  expect_str("to_base58", t, w, in);
  expect("from_base58 of its own encoding", lib_dec(t), in, t);
}
static void decode(const Bytes& s, const Bytes& behind = Bytes()) {
  Bytes w; bool ok = ref::unbase58(s, w);
  if (!ok) w.clear();
  Bytes g = lib_dec(s, behind);
  note("unbase58(%s) = %s%s", quote(s, 60).c_str(), hex(g, 40).c_str(), ok ? "" : " (illegal)");
  checked();
  if (g != w) fail("from_base58 of %s: got %zu bytes %s, the model says %zu bytes %s%s", quote(s).c_str(), g.size(), hex(g).c_str(), w.size(), hex(w).c_str(), ok ? "" : " (not a Base58 text)");
  if (ok && !g.empty()) expect_str("re-encoding", lib_enc(g), ref::trim(s), s);
}
static void define() {
  add("short-inputs", 257, [](long a) {
    if (a == 256) { roundtrip(""); return; }
    int b = choose(257); Bytes in(1, (char)a); if (b) in += (char)(b - 1);
    if (b && thorough()) for (int c = 0; c < 256; c++) { roundtrip(in + (char)c); inner(1, 1); }
    roundtrip(in);
  }, thorough() ? "all inputs of 0-3 bytes" : "all inputs of 0-2 bytes");
  int N = pick(230, 400);
  add("zeros-and-lengths", N + 1, [](long n) {
    int z = choose((int)std::min(n, 40l) + 1), p = choose(ref::NPAT);
    Bytes in = ref::pattern(p, n); for (int i = 0; i < z; i++) in[i] = 0;
    if (z < n && choose(2)) in[z] = 1;                  // smallest non-zero digit behind the zeros
    roundtrip(in);
  }, "every length 0.." + std::to_string(N) + " x 0..40 leading zeros x 7 contents (both scratch buffer switches inside)");
  add("all-zero", pick(400, 1500), [](long n) { roundtrip(Bytes(n, 0)); }, "all-zero inputs of every length");
  add("largest-number", pick(420, 900), [](long n) {    // capacity estimates 138/100 and 733/1000
    int k = choose(4);
    if (k == 0) roundtrip(Bytes(n, '\xff'));
    else if (k == 1) decode(Bytes(n, 'z'));
    else if (k == 2) decode(Bytes(1 + n / 3, '1') + Bytes(n, 'z'));
    else decode(Bytes(n, '2'));
  }, "the largest numbers of every length, both directions");
  static const std::vector<long> BIG = {421, 600, 999, 1000, 1001, 2047, 2048, 3000, 4095, 4097, 5000, 8191, 8193, 10000, 16385};
  add("long-numbers", (long)BIG.size() * 4, [](long u) {   // capacity estimates that are only just large enough
    long n = BIG[u / 4]; int k = (int)(u % 4); if (n > 9000 && k == 3) return;
    if (k == 0) roundtrip(Bytes(n, '\xff'));
    else if (k == 1) decode(Bytes(n, 'z'));
    else if (k == 2) { Bytes b = ref::pattern(5, n); roundtrip(Bytes(7, 0) + b); }
    else { Bytes s = ref::base58(ref::pattern(6, n)); decode(s); s[s.size() - 2] = 'l'; decode(s); }
  }, "numbers of 421..16385 bytes / characters", 400);
  static const std::vector<long> ZB = {41, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 131072};
  add("many-zeros", (long)ZB.size(), [](long u) {          // long runs of leading zeros in front of a number
    long z = ZB[u]; int n = choose(12); Bytes b = Bytes(z, 0) + ref::pattern(5, n * 3);
    roundtrip(b);
    decode(Bytes(z, '1') + ref::base58(ref::pattern(5, n)) + (choose(2) ? "" : " "));
  }, "41..131072 leading zeros x numbers of 0..33 bytes", 200);
  add("very-long-numbers", pick(4, 8), [](long u) {         // more bytes / digits than 16 bits count
    static const size_t N[] = {65537, 48003, 65536, 90001}; Bytes b = Bytes(u / 2 % 2, 0) + ref::pattern(5, N[u / 2]); b[1] |= 1; Bytes t = ref::base58_long(b); op(); note("%zu bytes, %zu characters", b.size(), t.size()); checked();
    if (u & 1) { Bytes o(fingera_to_base58_length(b.size()) + 8, 0x5A); size_t n = fingera_to_base58(b.data(), b.size(), &o[0]); if (n != t.size() || o.compare(0, n, t) || o.substr(o.size() - 8) != Bytes(8, 0x5A)) fail("to_base58 of %zu bytes: %zu characters, wrong", b.size(), n); }
    else { Bytes o(fingera_from_base58_length(t.size()) + 8, 0x5A); size_t n = fingera_from_base58(t.data(), t.size(), &o[0]); if (n != b.size() || o.compare(0, n, b) || o.substr(o.size() - 8) != Bytes(8, 0x5A)) fail("from_base58 of %zu characters: %zu bytes, wrong", t.size(), n); }
  }, "numbers of more than 65536 bytes or digits, both directions", 400);
  // strings and data of more than 2^31 and 2^32 bytes, in the shapes that take linear time
  add_patient("giant", 4, [](long u) {
    uint64_t z = (u & 1 ? 1ull << 32 : 1ull << 31) + 9; Bytes tail = u & 2 ? ref::pattern(5, 5) : ref::base58(ref::pattern(5, 5)), want = u & 2 ? ref::base58(tail) : ref::pattern(5, 5);
    bool enc = u & 2; Bytes period(1 << 20, enc ? 0 : '1');
    giant::In in(period, z + 64); in.set(z, tail + Bytes(16, '~'));
    size_t cap = enc ? fingera_to_base58_length(z + tail.size()) : fingera_from_base58_length(z + tail.size());
    giant::OutMap o(1 << 20, cap); op();
    size_t n = enc ? fingera_to_base58(in.b, z + tail.size(), (char*)o.b) : fingera_from_base58((const char*)in.b, z + tail.size(), o.b);
    checked(); note("%llu zeros and a short number %s -> %zu", (unsigned long long)z, enc ? "encoded" : "decoded", n);
    if (n != z + want.size()) fail("%s of %llu zeros and a number of %zu %s returned %zu", enc ? "to_base58" : "from_base58", (unsigned long long)z, tail.size(), enc ? "bytes" : "characters", n);
    for (uint64_t i = 0; i < want.size(); i++) if (o.b[z + i] != (uint8_t)want[i]) fail("behind %llu zeros: byte %llu is %02x, should be %02x", (unsigned long long)z, (unsigned long long)i, o.b[z + i], (uint8_t)want[i]);
    for (auto& w : o.win) for (uint64_t i = w.first; i < w.second && i < z; i++) if (o.b[i] != (enc ? '1' : 0)) fail("%llu zeros: output %llu is %02x", (unsigned long long)z, (unsigned long long)i, o.b[i]);
    if (!o.clean_behind()) fail("base58 wrote behind its output");
  }, "more than 2^31 and 2^32 leading zeros in front of a number, both directions");
  add_patient("giant-refused", pick(2, 3), [](long u) {
    uint64_t len = u == 2 ? 5900000000ull : 3000000000ull; Bytes period(1 << 20, u == 1 ? '2' : '0');
    giant::In in(period, len); if (u == 1) in.set(3, " 2");   // a space inside: refused right away
    uint8_t o[64]; op(); size_t n = fingera_from_base58((const char*)in.b, len, o);
    checked(); note("%llu characters, not a Base58 text -> %zu", (unsigned long long)len, n);
    if (n) fail("from_base58 of %llu characters that are no Base58 text returned %zu", (unsigned long long)len, n);
  }, "more than 2^31 characters that are refused");
  add("power-edges", pick(140, 300), [](long n) {        // 58^k and 256^k and their neighbours
    int k = choose(6);
    if (k < 3) { Bytes b(n + 1, 0); b[0] = 1; if (k == 1) b = Bytes(n + 1, '\xff'); if (k == 2) b.back() = 1; roundtrip(b); }
    else { Bytes s(n + 1, '1'); s[0] = '2'; if (k == 4) s = Bytes(n + 1, 'z'); if (k == 5) s.back() = '2'; decode(s); }
  }, "256^k, 58^k and their neighbours");
  add("byte-at-position", 256, [](long v) {
    int n = 1 + choose(pick(30, 60)), at = choose(n);
    Bytes s = ref::base58(ref::pattern(5, n)); s.resize(n, 'x'); s[at] = (char)v;
    if (s.find('\0') != Bytes::npos) return;              // a NUL ends the string: not specified further
    decode(s, choose(2) ? Bytes(9, '2') : Bytes(9, ' '));
  }, "every byte value at every position of strings of 1..30 characters, two contents behind the string");
  add("short-strings", 256, [](long a) {
    int b = choose(257); Bytes s(1, (char)a); if (b) s += (char)(b - 1);
    if (s.find('\0') != Bytes::npos) return;
    decode(s, "2");
    static const Bytes T = "1289ABCHIJNOPZaklmoz0 \t\n\v\f\r+/-\x80\xa0\xff";
    if (b) for (char c : T) { decode(s + c, "z"); inner(1, 1); }
  }, "all strings of 1-2 bytes, with every third character from the edges of the alphabet");
  static const Bytes W = "1z \n0";
  add("spaces", 5 * 5, [](long u) {
    int n = choose(pick(6, 8)); Bytes s; s += W[u / 5]; s += W[u % 5];
    for (int i = 0; i < n; i++) s += W[choose(5)];
    decode(s, choose(2) ? "z" : " ");
  }, "all strings of 2.." + std::to_string(pick(7, 9)) + " characters over {1, z, space, newline, illegal}");
  add("outer-spaces", 200, [](long n) {
    Bytes body = ref::base58(ref::pattern(5, n)); static const char* SP[] = {"", " ", "\t\n\v\f\r ", "      "};
    int a = choose(4), b = choose(4), hole = choose(4);
    if (hole && body.size() > 2) body.insert(hole == 1 ? 1 : hole == 2 ? body.size() / 2 : body.size() - 1, " ");
    decode(SP[a] + body + SP[b], "zz");
  }, "spaces around and inside texts of 0..199 bytes of data");
  add("illegal-anywhere", pick(190, 300), [](long n) {   // the failure exits on both sides of the heap switch
    Bytes s = ref::base58(ref::pattern(6, n + 1)); int at = choose((int)s.size());
    s[at] = "0OIl+\xff"[choose(6)]; decode(s);
  }, "an illegal character at every position of texts of 1..190 bytes of data");
}
int main(int c, char** v) { return run(c, v, "C06", define, {"strings with an embedded NUL are outside the explored space (the decoder takes NUL as the end)"}); }
