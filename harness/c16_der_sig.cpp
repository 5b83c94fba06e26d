// C16: lax DER decoding of signatures against a grammar-level model; strict encoding.
#include "api.hpp"
#include "giant.hpp"
#include "ref.hpp"
using namespace mc;
using ref::Sig;
// Bitcoin's lax grammar: 30 <length, ignored> 02 <len> R 02 <len> S <anything>
static bool model(const Bytes& in, Sig& out) {
  size_t at = 0;
  auto left = [&] { return in.size() - at; };
  auto byte = [&](int& v) { if (!left()) return false; v = (uint8_t)in[at++]; return true; };
  int b;
  if (!byte(b) || b != 0x30) return false;
  if (!byte(b)) return false;
  if (b & 0x80) { size_t k = b & 0x7f; if (k > left()) return false; at += k; }
  Bytes v[2];
  for (int i = 0; i < 2; i++) {
    if (!byte(b) || b != 2) return false;
    if (!byte(b)) return false;
    size_t len = b;
    if (b & 0x80) {
      size_t k = b & 0x7f; if (k > left()) return false;
      Bytes l = in.substr(at, k); at += k;
      size_t z = 0; while (z < l.size() && l[z] == 0) z++;
      l = l.substr(z); if (l.size() >= 4) return false;
      len = 0; for (unsigned char c : l) len = len << 8 | c;
    }
    if (len > left()) return false;
    v[i] = in.substr(at, len); at += len;
  }
  bool over = false;
  for (auto& x : v) { size_t z = 0; while (z < x.size() && x[z] == 0) z++; x = x.substr(z); if (x.size() > 32) over = true; else x = Bytes(32 - x.size(), 0) + x; }
  if (!over) for (auto& x : v) { ref::BN n(x); if (BN_cmp(n, ref::C().n) >= 0) over = true; }
  if (over) v[0] = v[1] = Bytes(32, 0);
  out = {v[0], v[1]}; return true;
}
static void check(const Bytes& s) {
  key_init();
  Sig w; bool ok = model(s, w);
  Out o(64, 0x42); Tail heap(s);
  int r = call(fingera_btc_signature_decode, (const void*)heap.data(), s.size(), (void*)o.p());
  bool same = heap == s;
  o.check("signature_decode"); if (!same) fail("signature_decode changed its input");
  note("decode %s -> %d", hex(s, 90).c_str(), r);
  checked();
  if (!!r != ok) fail("signature_decode of %s returned %d, the lax grammar %s it", hex(s, 400).c_str(), r, ok ? "accepts" : "refuses");
  if (!ok) return;
  Out e(72); size_t n = call(fingera_btc_signature_encode, (const void*)o.p(), (void*)e.p()); e.check("signature_encode");
  Bytes d = ref::der_sig(w);
  if (n > 72 || e.str(n) != d) fail("signature_decode of %s gives the signature %s, expected %s", hex(s, 400).c_str(), hex(e.str(std::min(n, (size_t)72))).c_str(), hex(d).c_str());
  if (w.r == Bytes(32, 0) || w.s == Bytes(32, 0)) {
    static Bytes pk; static uint8_t pub[64]; if (pk.empty()) { pk = ref::pattern(5, 32); fingera_btc_key_get_pub(pk.data(), pub); }
    static int skip = 0; if (skip++ % 16 == 0) { Bytes h = ref::pattern(6, 32); if (call(fingera_btc_key_verify, (const void*)pub, (const void*)h.data(), (const void*)o.p())) fail("the out-of-range signature %s verifies", hex(s).c_str()); }
  }
}
static Bytes len_form(int form, size_t n) {                // ways to write a length
  auto be = [&](int k) { Bytes r; for (int i = k - 1; i >= 0; i--) r += (char)(i < 8 ? n >> (8 * i) : 0); return r; };
  switch (form) {
    case 0: return Bytes(1, (char)(n & 0x7f)); case 1: return "\x81" + be(1); case 2: return "\x82" + be(2); case 3: return "\x83" + be(3); case 4: return "\x84" + be(4);
    case 5: return Bytes(1, '\x80'); case 6: return "\x89" + be(9); case 7: return Bytes(1, '\xff') + be(127); default: return Bytes(1, '\x85') + Bytes(1, 1) + be(4);
  }
}
static Bytes tagged(int form, const Bytes& v, long delta = 0) { size_t n = (size_t)((long)v.size() + delta); if ((long)v.size() + delta < 0) n = 0; return "\x02" + len_form(form, n) + v; }
static const std::vector<Bytes>& ints() { static std::vector<Bytes> v; if (v.empty()) { Bytes n = ref::order(), one(32, 0); one[31] = 1;
  v = {"", Bytes(1, 0), Bytes(1, 1), Bytes(1, '\x80'), Bytes(2, 0), Bytes("\0\x80", 2), ref::pattern(5, 32), Bytes(1, 0) + ref::pattern(6, 32), ref::add_int(n, -1), Bytes(1, 0) + ref::add_int(n, -1), n, ref::add_int(n, 1), Bytes(32, '\xff'), Bytes(33, '\xff'), Bytes(1, 1) + Bytes(32, 0), Bytes(40, 0) + ref::pattern(5, 31), Bytes(300, 0), Bytes(33, 0), Bytes(90, 0) + n, Bytes(1, 1) + Bytes(130, 0)}; } return v; }
static void define() {
  int N = (int)ints().size();
  add("built", N * N, [N](long u) {
    int rf = choose(9), sf = choose(9), qf = choose(4); Bytes body = tagged(rf, ints()[u % N]) + tagged(sf, ints()[u / N]); static const int Q[] = {0, 1, 6, 7};
    check("\x30" + len_form(Q[qf], body.size()) + body + Bytes(choose(2) * 3, 'T'));
  }, "20 x 20 integers x 9 x 9 length forms x 4 sequence length forms x trailing bytes");
  add("wrong-lengths", N, [N](long u) {
    int rf = choose(9), sf = choose(9), rd = choose(5) - 2, sd = choose(5) - 2; Bytes s = "\x30" + len_form(choose(5), 70) + tagged(rf, ints()[u], rd) + tagged(sf, ints()[(u + 6) % N], sd); check(s);
  }, "declared integer lengths off by -2..2 in every form");
  add("sequence-length", 256, [](long v) { Bytes body = tagged(0, ref::pattern(5, 32)) + tagged(0, ref::pattern(6, 32)); int pad = choose(140); check("\x30" + Bytes(1, (char)v) + Bytes(pad, (char)choose(2)) + body); }, "every sequence length byte x 0..139 bytes behind it");
  add("length-bytes", 256, [](long v) {                     // every length byte of R / S with room of every kind
    int which = choose(2), follow = choose(140), fill = choose(3); Bytes f(follow, (char)(fill == 0 ? 0 : fill == 1 ? 2 : 0xff)); Bytes s("\x30\x06", 2); if (which) s += Bytes("\x02\x01\x05", 3); s += '\x02'; s += (char)v; check(s + f + (fill == 2 ? Bytes() : Bytes("\x02\x01\x07", 3)));
  }, "every length byte of R and S followed by 0..139 bytes of 3 kinds");
  add("long-length", 4 * 256, [](long u) {                  // long-form lengths with every byte value
    int k = 1 + u % 4, z = choose(4), which = choose(2); Bytes l(z, 0); for (int i = 0; i < k; i++) l += (char)(i == 0 ? u / 4 : choose(3)); Bytes s("\x30\x80", 2); s[1] = 5; if (which) s += Bytes("\x02\x01\x05", 3); s += '\x02'; s += (char)(0x80 + l.size()); s += l; check(s + ref::pattern(2, choose(3) * 130) + Bytes("\2\1\7", 3));
  }, "1..4 significant length bytes behind 0..3 zeros");
  static const Bytes T = ref::der_sig({ref::pattern(4, 32), ref::pattern(6, 32)});
  add("any-byte", (long)T.size(), [](long at) { Bytes s = T; s[at] = (char)choose(256); check(s); int cut = choose(4); if (cut) check(s.substr(0, s.size() - cut)); }, "every value of every byte of a strict encoding, also cut short");
  add("two-bytes", 8 * 8, [](long u) { Bytes s = T; size_t p = 4 + (uint8_t)s[3]; size_t at[8] = {0, 1, 2, 3, 4, p, p + 1, p + 2}; static const std::vector<int> E = {0, 1, 2, 0x1f, 0x20, 0x21, 0x22, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0xff}; s[at[u % 8]] = (char)choose_of(E); s[at[u / 8]] = (char)choose_of(E); check(s); }, "pairs of structural bytes");
  add("truncation", (long)T.size() + 1, [](long n) { check(T.substr(0, n)); check(T.substr(0, n) + Bytes(choose(5), 0)); Bytes s = "\x30" + len_form(choose(9), T.size() - 2) + T.substr(2); check(s.substr(0, std::min((size_t)n, s.size()))); }, "every truncation, with 9 forms of the sequence length");
  int L = pick(6, 7);
  add("short-exhaustive", 8 * 8, [L](long u) {              // all short strings over structural bytes
    static const Bytes E("\x30\x02\x00\x01\x80\x81\x03\xff", 8); int n = choose(L - 1); Bytes s; s += E[u % 8]; s += E[u / 8]; if (u % 8) n = std::min(n, 2); for (int i = 0; i < n; i++) s += E[choose(8)]; check(s);
  }, "all strings of 2.." + std::to_string(L) + " bytes over 8 structural bytes (starting with 30)");
  add("after-header", 256, [](long a) { for (int b = 0; b < 256; b++) { check(Bytes("\x30\x06\x02", 3) + (char)a + (char)b + Bytes("\x02\x01\x01\x02\x01\x01", 6)); inner(1, 1); } check(Bytes(1, (char)a)); check(""); }, "every pair of bytes behind 30 06 02; every 1-byte string");
  add("strict-encoding", N * N, [N](long u) { Bytes r = ints()[u % N], s = ints()[u / N]; check("\x30" + len_form(2, 9) + tagged(2, r) + tagged(2, s)); }, "the decoded value encodes to strict DER");
  add("integer-sizes", 40, [](long n) { int m = choose(40), z = choose(3), hi = choose(4); Bytes r = ref::pattern(5, n), s = ref::pattern(6, m); if (n) r[0] = "\x01\x7f\x80\xff"[hi]; if (m) s[0] = "\x01\x7f\x80\xff"[hi]; check("\x30\x40" + tagged(0, Bytes(z, 0) + r) + tagged(0, Bytes(z, 0) + s)); }, "integers of 0..39 x 0..39 bytes x 0..2 leading zeros x 4 leading bytes");
  static const std::vector<int> BIG = {128, 200, 255, 256, 257, 300, 4095, 32767, 32768, 65535, 65536, 65537, 65664, 131072, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 5};
  add("large-integers", 2 * (long)BIG.size(), [](long u) {   // lengths of 1..4 significant bytes that the string really has
    size_t n = BIG[u / 2]; bool huge = n >= 1 << 20; int kind = huge ? choose(2) * 2 : choose(4), z = huge ? 1 : choose(3), k = 1; while (n >> (8 * k)) k++;
    if (choose(2)) k = 1 + (k == 1);                          // a length that is cut (or one byte longer than needed)
    Bytes v = kind == 0 ? ref::pattern(5, 32) : kind == 1 ? ref::order() : kind == 2 ? Bytes(1, 1) : Bytes(n, 1); v = Bytes(n - v.size(), 0) + v;
    long m = (long)n + choose(3) - 1; Bytes l(z, 0); for (int i = k - 1; i >= 0; i--) l += (char)(m >> (8 * i));
    Bytes big = "\x02" + Bytes(1, (char)(0x80 + l.size())) + l + v, small = tagged(0, ref::pattern(6, 32)); if (!huge && choose(2)) small = tagged(2, small.substr(2));
    check("\x30\x84\x01\x01\x01\x01" + (u & 1 ? small + big : big + small) + Bytes(huge ? 0 : choose(2), 'T'));
  }, "integers of 128 bytes to 16 MiB with lengths of 1..4 significant bytes, right, cut, or off by one");
  add_patient("giant", 10, [](long u) {                              // 2^32 bytes: behind the signature, or inside its first integer
    static const uint64_t N[] = {1ull << 32, (1ull << 32) + 1, (1ull << 32) + 40, (1ull << 32) + 71, 1ull << 31}; uint64_t n = N[u / 2];
    key_init(); giant::In in(Bytes(1 << 20, 0), n); in.set(0, u & 1 ? "\x30\x84\x01\x01\x01\x01" + tagged(2, Bytes(300, 0) + ref::pattern(4, 32)) + tagged(0, ref::pattern(6, 32)) : T); uint8_t o[66]; memset(o, 0x3C, 66); op();
    int r = fingera_btc_signature_decode(in.b, n, o + 1); checked(); note("signature in %llu bytes -> %d", (unsigned long long)n, r);
    if (!r || o[0] != 0x3C || o[65] != 0x3C) fail("signature_decode of a signature at the front of %llu bytes returned %d", (unsigned long long)n, r);
    uint8_t e[80]; size_t m = fingera_btc_signature_encode(o + 1, e); if (Bytes((char*)e, m) != T) fail("signature_decode of a signature at the front of %llu bytes gives %s", (unsigned long long)n, hex(e, m).c_str());
  }, "a signature at the front of 2^31..2^32 bytes");
}
int main(int c, char** v) { return run(c, v, "C16", define, {"reads outside the string are detected in C19 (address sanitizer) and through exact-size heap copies here"}); }
