// C08: Bech32 against BIP173, and its detection of up to four errors.
#include "api.hpp"
#include "giant.hpp"
#include "ref.hpp"
using namespace mc;

static Bytes lib_enc(const Bytes& hrp, const Bytes& data) {
  Out o(fingera_bech32_encode_length(hrp.size(), data.size())); Bytes h = hrp, d = data;
  call(fingera_bech32_encode, (const char*)h.data(), h.size(), (const uint8_t*)d.data(), d.size(), o.c());
  o.check("bech32_encode");
  if (h != hrp || d != data) fail("bech32_encode changed its input");
  return o.str();
}
static void decode(const Bytes& s, size_t hrp_cap = 90, const Bytes& behind = Bytes(), size_t announced = 0) {
  Bytes h, d; bool ok = ref::unbech32(s, h, d);
  if (ok && h.size() > hrp_cap) ok = false;
  Bytes keep = s + behind; Tail mem(keep);
  Out hb(hrp_cap), db(s.size() > 7 ? s.size() - 7 : 0); size_t hs = announced ? announced : hrp_cap;
  int r = call(fingera_bech32_decode, (const char*)mem.data(), s.size(), hb.c(), &hs, (void*)db.p());
  hb.check("bech32_decode (readable part)"); db.check("bech32_decode (data)");
  if (mem != keep) fail("bech32_decode changed its input");
  note("decode %s -> %d (%s)", quote(s, 100).c_str(), r, ok ? "valid" : "invalid");
  checked();
  if (!ok) { if (r >= 0) fail("bech32_decode accepted %s (readable part room %zu), which BIP173 calls invalid", quote(s).c_str(), hrp_cap); return; }
  if (r < 0) fail("bech32_decode refused the valid %s with %d (readable part room %zu)", quote(s).c_str(), r, hrp_cap);
  if ((size_t)r != d.size() || db.str(d.size()) != d || hs != h.size() || hb.str(h.size()) != h)
    fail("bech32_decode of %s: got readable part %s and %d data values %s, BIP173 says %s and %s", quote(s).c_str(), quote(hb.str(std::min(hs, hb.n))).c_str(), r, hex(db.str(std::min((size_t)r, db.n))).c_str(), quote(h).c_str(), hex(d).c_str());
}
static bool accepts(const char* s, size_t n) {
  char h[96]; uint8_t d[100]; size_t hs = 90;
  return fingera_bech32_decode(s, n, h, &hs, d) >= 0;
}
static Bytes data5(int pat, size_t n) { Bytes d = ref::pattern(pat, n); for (auto& c : d) c &= 31; return d; }
static Bytes hrp_of(int n) {                              // readable parts over the whole legal range, no upper case
  Bytes r; for (int i = 0; i < n; i++) { char c = (char)(33 + (i * 37 + n * 11) % 94); if (c >= 'A' && c <= 'Z') c += 32; r += c; } return r;
}
static Bytes upper(Bytes s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }

static void define() {
  add("encode", 84, [](long hl) {
    int n = choose(pick(130, 200)); Bytes h = hrp_of((int)hl + 1), d = data5(choose(4) + 3, n);
    Bytes t = lib_enc(h, d);
    note("%s / %s -> %s", quote(h).c_str(), hex(d, 40).c_str(), t.c_str());
    expect_str("bech32_encode", t, ref::bech32(h, d), h + "|" + d);
    decode(t);                                            // longer than 90: must be refused
    if (choose(2)) decode(upper(t));
  }, "readable parts of 1..84 characters x data of 0..129 values x contents; decoded again (refused above 90), also in upper case");
  add("encode-values", 94, [](long u) {
    Bytes h(1 + choose(3), 'b'); h[choose((int)h.size())] = (char)(33 + u); int at = choose(12), v = choose(32);
    if (33 + u >= 'A' && 33 + u <= 'Z') return;
    Bytes d = data5(5, 12); d[at] = (char)v;
    expect_str("bech32_encode", lib_enc(h, d), ref::bech32(h, d), h + "|" + d); decode(ref::bech32(h, d));
  }, "every readable character x every data value at every position of 12");
  int L = pick(40, 84);
  add("substitute-any-byte", 256, [L](long v) {
    int n = choose(L); static const char* H[] = {"bc", "a", "tb1x", "bcrt"}; Bytes s = ref::bech32(H[choose(4)], data5(5, n));
    if (s.size() > 90) return;
    s[choose((int)s.size())] = (char)v; decode(s, 90, choose(2) ? "1qqqqqqqq" : "");
  }, "every byte value at every position of valid strings");
  add("lengths", 100, [](long n) {                        // around the 90 limit, every split
    int hl = choose((int)n + 1); if (n < 7 || hl + 7 > n || hl == 0) { Bytes s = ref::pattern(5, n); for (auto& c : s) c = ref::B32C[(uint8_t)c & 31]; if (hl < n) s[hl] = '1'; decode(s); return; }
    Bytes s = ref::bech32(hrp_of(hl), data5(6, n - 7 - hl)); decode(s);
    decode(upper(s));
    decode(s, hl); if (hl) decode(s, hl - 1); decode(s, 83); decode(s, 16);
    static const size_t ROOM[] = {127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 1u << 31, 0xFFFFFFFFu, 1ull << 32, (1ull << 32) + 1, 1ull << 63, SIZE_MAX};
    for (size_t room : ROOM) decode(s, 90, "", room);
  }, "every total length 0..99 x every position of the separator; room for the readable part exact, one short, 16, 83, and 15 announced rooms from 127 to SIZE_MAX");
  add("separators", 12, [](long hl) {                     // '1' inside readable part, data, checksum; none at all
    Bytes h = hrp_of((int)hl + 1); int at = choose(14); if (at <= hl) h[at] = '1';
    Bytes s = ref::bech32(h, data5(5, choose(10)));
    int k = choose(4); if (k == 1) s[s.size() - 1 - choose(8)] = '1'; if (k == 2) { size_t p; while ((p = s.find('1')) != Bytes::npos) s[p] = 'q'; } if (k == 3) s.erase(s.rfind('1'), 1);
    decode(s, 90, choose(2) ? "1" : "");
  }, "'1' in every place, or nowhere, or right behind the string");
  add("case", 4, [](long u) {                             // every choice of case per character
    static const char* H[] = {"bc", "a1b", "x", "?b"}; Bytes s = ref::bech32(H[u], data5(5, 3)); std::vector<int> letters;
    for (size_t i = 0; i < s.size(); i++) if (s[i] >= 'a' && s[i] <= 'z') letters.push_back((int)i);
    int n = (int)letters.size();
    int mask = choose(1 << std::min(n, 12)); for (int i = 0; i < n && i < 12; i++) if (mask >> i & 1) s[letters[i]] -= 32;
    if (choose(2)) for (int i = 12; i < n; i++) s[letters[i]] -= 32;
    decode(s);
  }, "every mixture of upper and lower case");
  add("case-anywhere", 83, [](long u) {                   // one deviating character's case, in strings of every length
    int hl = 1 + (int)u, extra = choose(7); int n = extra == 6 ? 90 - 7 - hl : extra * 6; if (n < 0 || hl + 7 + n > 90) return;
    Bytes s = ref::bech32(hrp_of(hl), data5(5, n)); bool up = choose(2); if (up) s = upper(s);
    int at = choose((int)s.size() + 3);
    if (at < (int)s.size()) { char& c = s[at]; if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; else return; }
    else { size_t from = at == (int)s.size() ? 0 : at == (int)s.size() + 1 ? hl : s.size() - 6, to = at == (int)s.size() ? hl : s.size();   // a whole part in the other case
      for (size_t i = from; i < to; i++) { char& c = s[i]; if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } }
    decode(s);
  }, "readable parts of 1..83 characters, strings to the full 90: every single character (or the readable part, the data, the checksum) in the other case");
  add("checksum", 64, [](long n) {                        // other final constants; every checksum value flipped
    Bytes h = hrp_of(3), d = data5(5, n); static const std::vector<uint32_t> C = {0, 2, 3, 0x2bc830a3, 0x3fffffff, 1u << 29, 31, 33, 0x10000001};
    int k = choose((int)C.size() + 30); decode(ref::bech32(h, d, k < (int)C.size() ? C[k] : 1 ^ (1u << (k - C.size()))));
  }, "checksums with the wrong constant: 8 known ones and every single bit");
  add("structure", L, [](long n) {                        // insert / delete / swap / truncate
    Bytes s = ref::bech32("bc", data5(5, n)); if (s.size() > 89) return; int k = choose(5);
    if (k == 0) s.insert(choose((int)s.size() + 1), 1, ref::B32C[choose(32)]);
    else if (k == 1) s.erase(choose((int)s.size()), 1);
    else if (k == 2) { int i = choose((int)s.size()), j = choose((int)s.size()); std::swap(s[i], s[j]); }
    else if (k == 3) s.resize(choose((int)s.size() + 1));
    else s = s.substr(choose((int)s.size() + 1));
    decode(s);
  }, "every insertion, deletion, exchange, truncation at either end");
  // error detection: at most 4 changed characters in the data part are always noticed
  auto errors = [](const Bytes& s, size_t from, int first, int k) {   // first: index of the first wrong character
    Bytes t = s; size_t n = s.size(); uint64_t cnt = 0;
    std::function<void(size_t, int)> rec = [&](size_t at, int left) {
      for (int v = 0; v < 32; v++) {
        if (ref::B32C[v] == s[at]) continue;
        t[at] = ref::B32C[v];
        if (left == 1) { cnt++; if (accepts(t.data(), n)) fail("bech32_decode accepts %s, which differs from the valid %s in %d characters", t.c_str(), s.c_str(), k); }
        else for (size_t b = at + 1; b < n; b++) rec(b, left - 1);
      }
      t[at] = s[at];
    };
    rec(from + first, k); op(cnt); inner(cnt, cnt); checked();
  };
  static Bytes full = ref::bech32("bc", data5(5, 81)), addr = ref::bech32("bc", data5(6, 33)), mid = ref::bech32("tb", data5(5, pick(8, 20))), small = ref::bech32("a", data5(5, pick(1, 4)));
  add("errors-1-2-of-90", 87, [errors](long u) { errors(full, 3, (int)u, 1); if (u < 86) errors(full, 3, (int)u, 2); }, "every 1 and 2 wrong characters in the data part of a 90-character string");
  add("errors-1-2-address", 39, [errors](long u) { errors(addr, 3, (int)u, 1); if (u < 38) errors(addr, 3, (int)u, 2); }, "every 1 and 2 wrong characters of a witness address");
  add("errors-3", (long)mid.size() - 3 - 2, [errors](long u) { errors(mid, 3, (int)u, 3); }, "every 3 wrong characters of a string with " + std::to_string(mid.size() - 3) + " data characters");
  add("errors-4", ((long)small.size() - 2 - 3), [errors](long u) { errors(small, 2, (int)u, 4); }, "every 4 wrong characters of a string with " + std::to_string(small.size() - 2) + " data characters");
  if (thorough()) add("errors-3-of-90", 85, [errors](long u) { errors(full, 3, (int)u, 3); }, "every 3 wrong characters in the data part of a 90-character string", 600);
  // All patterns of up to 4 errors in 90 characters, on a model: the code is linear, a pattern goes unseen if its syndromes cancel out.
  // The syndromes come from the library's encoder; that they add up is checked on it, and what the model says goes unseen is put to the decoder.
  static Bytes D = data5(5, 81);
  static auto sum_of = [](const Bytes& d) { Bytes t = lib_enc("bc", d); uint32_t r = 0; for (int i = 84; i < 90; i++) r = r << 5 | (uint32_t)(strchr(ref::B32C, t[i]) - ref::B32C); return r; };
  static auto syndrome = [](int i, int v) { if (i >= 81) return (uint32_t)v << 5 * (86 - i); Bytes d = D; d[i] ^= (char)v; return sum_of(d) ^ sum_of(D); };
  add("syndromes-add", 80, [](long i) {
    static uint32_t S[81][32]; static bool done; if (!done) { for (int k = 0; k < 81; k++) for (int v = 1; v < 32; v++) S[k][v] = syndrome(k, v); done = true; }
    uint32_t base = sum_of(D); uint64_t n = 0;
    for (int j = (int)i + 1; j < 81; j++) for (int v = 1; v < 32; v++) for (int w = 1; w < 32; w++, n++) { Bytes d = D; d[i] ^= (char)v; d[j] ^= (char)w; uint32_t got = sum_of(d) ^ base; if (got != (S[i][v] ^ S[j][w])) fail("bech32_encode: changing data values %ld and %d by %d and %d changes the checksum by %08x, one at a time by %08x and %08x", i, j, v, w, got, S[i][v], S[j][w]); }
    inner(n, n); checked(); note("%llu pairs", (unsigned long long)n);
  }, "the checksums of every pair of changed data values of a 90-character string are the sums of their parts", 200);
  add("errors-4-of-90-model", 1, [](long) {
    struct Pair { uint32_t s; uint8_t i, v, j, w; }; std::vector<Pair> P; P.reserve(3700000); std::vector<uint32_t> S(87 * 32);
    for (int i = 0; i < 87; i++) for (int v = 1; v < 32; v++) S[i * 32 + v] = syndrome(i, v);
    auto text = [](std::initializer_list<std::pair<int, int>> e) { Bytes t = ref::bech32("bc", D); for (auto& x : e) { int c = (int)(strchr(ref::B32C, t[3 + x.first]) - ref::B32C); t[3 + x.first] = ref::B32C[c ^ x.second]; } return t; };
    for (int i = 0; i < 87; i++) for (int v = 1; v < 32; v++) { if (!S[i * 32 + v]) fail("the checksum does not see a change of data value %d by %d", i, v); P.push_back({S[i * 32 + v], (uint8_t)i, (uint8_t)v, (uint8_t)i, 0}); for (int j = i + 1; j < 87; j++) for (int w = 1; w < 32; w++) P.push_back({S[i * 32 + v] ^ S[j * 32 + w], (uint8_t)i, (uint8_t)v, (uint8_t)j, (uint8_t)w}); }
    std::sort(P.begin(), P.end(), [](const Pair& a, const Pair& b) { return a.s < b.s; });
    for (size_t k = 0; k + 1 < P.size(); k++) if (P[k].s == P[k + 1].s || !P[k].s) { auto &a = P[k], &b = P[k + (P[k].s != 0)]; Bytes t = text({{a.i, a.v}, {a.j, a.w}, {b.i, b.v}, {b.j, b.w}}); fail("bech32_decode %s %s, which differs from a valid string in at most 4 characters", accepts(t.data(), 90) ? "accepts" : "may accept", quote(t).c_str()); }
    inner(P.size(), 0); uint64_t five = 0;
    for (int a = 0; a < 85 && five < 2000; a += 7) for (int b = a + 1; b < 86; b += 9) for (int c = b + 1; c < 87; c += 11) for (int v = 1; v < 32; v += 3) for (int w = 1; w < 32; w += 2) for (int x = 1; x < 32; x += 2) {
      uint32_t s = S[a * 32 + v] ^ S[b * 32 + w] ^ S[c * 32 + x]; auto q = std::lower_bound(P.begin(), P.end(), s, [](const Pair& p, uint32_t k) { return p.s < k; });
      if (q == P.end() || q->s != s || q->i == a || q->i == b || q->i == c || q->j == a || q->j == b || q->j == c) continue;
      Bytes t = text({{a, v}, {b, w}, {c, x}, {q->i, q->v}, {q->j, q->w}}); five++; decode(t); if (!accepts(t.data(), 90)) fail("bech32_decode refuses %s, five characters from a valid string and valid itself", quote(t).c_str());
    }
    checked(); note("%zu pairs of errors, no two alike; %llu strings five errors away are valid and accepted", P.size(), (unsigned long long)five); if (five < 500) fail("only %llu valid strings five errors away", (unsigned long long)five);
  }, "all patterns of up to 4 wrong characters among 87 (2.1e12, as pairs of 3.6 million pairs), on a linear model taken from the encoder; strings 5 errors away which it calls valid put to the decoder", 200);
  static const std::vector<int> BIG = {250, 255, 256, 257, 511, 512, 1000, 4095, 4096, 32768, 65530, 65535, 65536, 65537, 70000, 131072, 1000003};
  add("encode-large", (long)BIG.size(), [](long u) {         // far more than a decoder takes: the encoder promises no limit
    int hn[] = {1, 83, 255, 256, 300, 65535, 65537}; Bytes h = hrp_of(84), d = data5(5, BIG[u] - choose(8)); int n = hn[choose(7)]; while ((int)h.size() < n) h += h; h.resize(n);
    Bytes t = lib_enc(h, d), w = ref::bech32(h, d); note("readable part of %d, %zu values", n, d.size()); checked(); if (t != w) fail("bech32_encode of a readable part of %d characters and %zu values: %s..., BIP173 says %s...", n, d.size(), quote(t, 100).c_str(), quote(w, 100).c_str());
    if (u < 8) decode(w);
  }, "readable parts to 65537 characters x data to 1000003 values");
  add_patient("giant", 3, [](long u) {                               // a valid string that goes on for 4 GiB
    Bytes s = u == 0 ? ref::bech32("bc", data5(5, 33)) : ref::bech32("a", ""); uint64_t n = (1ull << 32) + s.size();
    giant::In in(Bytes(1 << 20, u == 1 ? '1' : 'q'), n); in.set(0, s); char h[96]; uint8_t d[100]; size_t hs = 90; op();
    int r = fingera_bech32_decode((const char*)in.b, n, h, &hs, d); checked(); note("%s and 4 GiB of '%c' -> %d", s.c_str(), u == 1 ? '1' : 'q', r);
    if (r >= 0) fail("bech32_decode accepted a string of %llu characters", (unsigned long long)n);
  }, "valid strings that go on for 2^32 characters");
}
int main(int c, char** v) { return run(c, v, "C08", define, {"three- and four-character errors are exhausted on short strings only; the code is linear, and its syndrome table is covered by the encode and two-error scenarios"}); }
