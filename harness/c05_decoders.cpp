// C05: the decoders against a reference that stops at the first illegal symbol.
#include "api.hpp"
#include "ref.hpp"
#include "giant.hpp"
using namespace mc;
enum { HEX, B64, B64U, B32, B32R, KINDS };
static const char* KN[] = {"from_hex", "from_base64", "from_base64_urlsafe", "from_base32", "from_base32_raw"};
static const int BITS[] = {4, 6, 6, 5, 5}, GROUP[] = {2, 4, 4, 8, 8};
static int value(int k, unsigned char c) {
  switch (k) { case HEX: return ref::v16(c); case B64: return ref::v64(c, false); case B64U: return ref::v64(c, true); case B32: return ref::v32(c); default: return c < 32 ? c : -1; }
}
static size_t decode(int k, const char* s, size_t n, void* o) {
  op();
  switch (k) { case HEX: return fingera_from_hex(s, n, o); case B64: return fingera_from_base64(s, n, o); case B64U: return fingera_from_base64_urlsafe(s, n, o); case B32: return fingera_from_base32(s, n, o); default: return fingera_from_base32_raw(s, n, o); }
}
static size_t announced(int k, const char* s, size_t n) {
  switch (k) { case HEX: return fingera_from_hex_length(n); case B64: return fingera_from_base64_length(s, n); case B64U: return fingera_from_base64_urlsafe_length(n); case B32: return fingera_from_base32_length(s, n); default: return fingera_from_base32_raw_length(n); }
}
// decode s placed in front of `behind`; compare with the model
static Bytes one(int k, const Bytes& s, const Bytes& behind) {
  Bytes body = s;
  if (k == B64) { for (int i = 0; i < 2 && !body.empty() && body.back() == '='; i++) body.pop_back(); }
  if (k == B32) body = body.substr(0, body.find('='));
  std::vector<int> legal; bool all = true;
  for (unsigned char c : body) { int v = value(k, c); if (v < 0) { all = false; break; } legal.push_back(v); }
  Bytes full = ref::ungroup(legal, BITS[k]);                          // every whole byte the legal prefix carries
  size_t groups = legal.size() / GROUP[k] * GROUP[k] * BITS[k] / 8;   // bytes of whole legal groups
  Bytes mem = s + behind;
  Tail guarded(mem); const char* copy = guarded.data();
  size_t ann = announced(k, copy, s.size());
  size_t cap = s.size() + 8;
  Out o(cap);
  size_t n = decode(k, copy, s.size(), o.p());
  bool same = guarded == mem;
  o.check(KN[k]);
  checked();
  const char* q = nullptr;
  if (!same) fail("%s changed its input %s", KN[k], quote(s).c_str());
  if (n > full.size() || n < groups || o.str(n) != full.substr(0, n))
    fail("%s of %s returned %zu bytes %s; the %zu legal symbols carry %s", KN[k], quote(s).c_str(), n, hex(o.str(std::min(n, cap))).c_str(), legal.size(), hex(full).c_str());
  if (n > ann) fail("%s of %s returned %zu bytes, only %zu announced", KN[k], quote(s).c_str(), n, ann);
  int tail = (int)(legal.size() % GROUP[k]);
  bool canonical_len = k == HEX ? tail == 0 : (k == B64 || k == B64U) ? tail != 1 : (tail == 0 || tail == 2 || tail == 4 || tail == 5 || tail == 7);
  if (all && canonical_len && (n != full.size() || ann != n)) fail("%s of the legal %s returned %zu bytes of %zu (announced %zu)", KN[k], quote(s).c_str(), n, full.size(), ann);
  if (all && k != HEX && n != ann) fail("%s of the legal %s returned %zu bytes, %zu announced", KN[k], quote(s).c_str(), n, ann);
  // an illegal symbol among those that carry announced bytes must show in the size
  size_t needed = (ann * 8 + BITS[k] - 1) / BITS[k];
  if (!all && legal.size() < needed && n >= ann) fail("%s of %s returned the full announced size %zu although symbol %zu is illegal", KN[k], quote(s).c_str(), ann, legal.size());
  note("%s(%s) -> %zu bytes (announced %zu)", KN[k], quote(s, 60).c_str(), n, ann);
  (void)q;
  return o.str(n);
}
static Bytes legal_text(int k, int pat, size_t n) {   // n legal symbols
  Bytes r = ref::pattern(pat, n);
  for (auto& c : r) { int v = (uint8_t)c % (1 << BITS[k]);
    c = k == HEX ? "0123456789abcdefABCDEF"[(uint8_t)c % 22] : k == B64 ? ref::B64[v] : k == B64U ? ref::B64U[v] : k == B32 ? ((uint8_t)c & 128 && v < 26 ? ref::B32[v] - 32 : ref::B32[v]) : (char)v; }
  return r;
}
static const std::vector<Bytes>& behinds() {
  static std::vector<Bytes> v = {Bytes(16, 0), Bytes(16, 'A'), Bytes(16, '='), Bytes(16, '\xff'), "a=23456712345678", Bytes(16, 5)};
  return v;
}
static void compare_behind(int k, const Bytes& s) {
  Bytes first = one(k, s, behinds()[0]);
  for (size_t i = 1; i < behinds().size(); i++) {
    Bytes r = one(k, s, behinds()[i]);
    if (r != first) fail("%s of %s depends on the bytes behind it: %s or %s", KN[k], quote(s).c_str(), hex(first).c_str(), hex(r).c_str());
  }
}
static void define() {
  int L = pick(26, 50);
  add("one-byte", 256, [L](long v) {                    // every byte value at every position
    int k = choose(KINDS), n = 1 + choose(L), at = choose(n);
    Bytes s = legal_text(k, choose(2) + 4, n); s[at] = (char)v;
    one(k, s, behinds()[choose(2)]);
  }, "5 decoders x every length 1.." + std::to_string(L) + " x every position x every byte value");
  static const Bytes BAD("\0=-+/_ \n.:@[`{018lIO\x7f\x80\xff\x20\x1f\x40 gGzZ9", 38);
  add("two-bytes", (long)BAD.size(), [](long b) {
    int k = choose(KINDS), n = 2 + choose(pick(17, 25)), i = choose(n), j = choose(n);
    Bytes s = legal_text(k, 4, n); s[i] = BAD[b]; s[j] = BAD[choose((int)BAD.size())];
    one(k, s, behinds()[1]);
  }, "two deviating symbols at every pair of positions, 38 x 38 symbols around the alphabet edges");
  add("short-exhaustive", 256, [](long a) {
    int k = choose(KINDS), b = choose(257);
    Bytes s(1, (char)a); if (b) s += (char)(b - 1);
    if (b) for (int c = 0; c < 256; c += thorough() ? 1 : 5) { one(k, s + (char)c, behinds()[3]); inner(1, 1); }
    one(k, s, behinds()[3]);
  }, "all strings of 1-2 bytes (third byte: every value in the thorough tier, every fifth in quick)");
  static const Bytes SY("A=a2/_*\0\xff" "1", 10);
  add("mixed-exhaustive", 10, [](long a) {               // all short strings over a mixed alphabet with '='
    int k = choose(KINDS), n = 1 + choose(pick(5, 7)); Bytes s(1, SY[a]);
    for (int i = 1; i < n; i++) s += SY[choose(10)];
    one(k, s, behinds()[2]);
  }, "all strings of 1.." + std::to_string(pick(5, 7)) + " symbols over 10 symbols (legal, '=', illegal)");
  add("padding", 70, [](long n) {                        // runs of '=' of every size behind / inside legal text
    int k = choose(KINDS), p = choose(12), at = choose(3);
    Bytes s = legal_text(k, 5, n), pad(p, '=');
    s = at == 0 ? s + pad : at == 1 ? pad + s : s.substr(0, n / 2) + pad + s.substr(n / 2);
    compare_behind(k, s);
  }, "0..69 legal symbols with 0..11 '=' before, inside and behind; 6 contents behind the string");
  add("beside-padding", 256, [](long v) {                 // any byte in front of, between or behind the padding
    int k = choose(KINDS), n = choose(26), p = choose(7), at = choose(p + 4);
    Bytes s = legal_text(k, 5, n) + Bytes(p, '='); long pos = n - 2 + at; if (pos < 0 || (size_t)pos > s.size()) return;
    if ((size_t)pos < s.size() && choose(2)) s[pos] = (char)v; else s.insert((size_t)pos, 1, (char)v);
    one(k, s, behinds()[2 + choose(2)]);
  }, "texts of 0..25 symbols and 0..6 '=': every byte value put in or inserted around every '='");
  add("bounded", 90, [](long n) {
    int k = choose(KINDS), p = choose(3); Bytes s = legal_text(k, 4 + p, n);
    int cut = choose(3); if (cut == 1 && n) s[n - 1] = '*'; if (cut == 2 && n) s[n / 2] = '\x80';
    compare_behind(k, s);
  }, "lengths 0..89: the result does not depend on what follows the string");
  add("long", 400, [](long n) {
    int k = choose(KINDS); Bytes s = legal_text(k, 5, n * 3 + 1); int at = choose(4);
    if (at) s[at == 1 ? 0 : at == 2 ? s.size() / 2 : s.size() - 1] = "*=\x80"[choose(3)];
    one(k, s, behinds()[0]);
  }, "strings to 1200 symbols, clean or with one deviation");
  static const std::vector<long> BIG = {4096, 65528, 65535, 65536, 65537, 65544, 131071, 131072, 196608, 262144, 327680, 524287, 524288, 524296, 1 << 20};
  add("very-long", (long)BIG.size() * KINDS, [](long u) {
    int k = (int)(u % KINDS); Bytes s = legal_text(k, 5, BIG[u / KINDS]); int at = choose(6);
    if (at) s[at == 1 ? 0 : at == 2 ? s.size() / 2 : at == 3 ? std::min<size_t>(65536, s.size() - 1) : at == 4 ? s.size() - 9 : s.size() - 1] = '\x80';
    if (k == B64 || k == B32) { int p = choose(3); s += Bytes(p, '='); }
    one(k, s, behinds()[0]);
  }, "strings to 2^20 symbols around multiples of 2^16, clean or with one deviation", 200);
  add_patient("giant-deviation", KINDS, [](long k) {              // the only illegal symbol lies behind 4 GiB of legal ones
    Bytes period = legal_text((int)k, 5, 120 * 4096); uint64_t at = (1ull << 32) + 11, len = (1ull << 32) + 51200;
    giant::In in(period, len); in.set(at, Bytes(1, '\x80'));
    uint64_t groups = at / GROUP[k] * GROUP[k] * BITS[k] / 8, full = at * BITS[k] / 8;
    giant::OutMap o((size_t)(120 * 4096 / 8 * BITS[k]), len * BITS[k] / 8 + 4096);
    size_t ann = announced((int)k, (const char*)in.b, len), n = decode((int)k, (const char*)in.b, len, o.b);
    checked(); note("%s of %llu symbols -> %zu of %zu", KN[k], (unsigned long long)len, n, ann);
    if (ann != len * BITS[k] / 8) fail("%s of %llu symbols: announced %zu bytes", KN[k], (unsigned long long)len, ann);
    if (n < groups || n > full) fail("%s returned %zu; symbol %llu is the only illegal one, so %llu..%llu bytes are legal", KN[k], n, (unsigned long long)at, (unsigned long long)groups, (unsigned long long)full);
  }, "the first illegal symbol behind 4 GiB of legal ones");
}
int main(int c, char** v) { return run(c, v, "C05", define, {"a decoder may stop at the start of the group that holds the illegal symbol, or use the whole bytes before it"}); }
