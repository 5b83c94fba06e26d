// C04: hex / base64 / base64url / base32 / raw base32 encode as RFC 4648, announce the right length, round-trip.
#include "api.hpp"
#include "ref.hpp"
#include "giant.hpp"
using namespace mc;

static void enc(const char* name, const Bytes& in, const Bytes& want, size_t announced, std::function<void(const void*, size_t, char*)> f) {
  if (announced != want.size()) { checked(); fail("%s: the length function announces %zu for %zu bytes, RFC 4648 text has %zu", name, announced, in.size(), want.size()); }
  Out o(announced); Tail c(in);
  op(); f(c.data(), c.size(), o.c());
  o.check(name);
  if (c != in) fail("%s changed its input", name);
  expect_str(name, o.str(), want, in);
}
static void dec(const char* name, const Bytes& text, const Bytes& want, size_t announced, std::function<size_t(const char*, size_t, void*)> f) {
  if (announced != want.size()) { checked(); fail("%s: the length function announces %zu for %s, the data has %zu bytes", name, announced, quote(text).c_str(), want.size()); }
  Out o(announced); Tail c(text);
  op(); size_t n = f(c.data(), c.size(), o.p());
  o.check(name);
  if (c != text) fail("%s changed its input", name);
  expect_n(name, (long long)n, (long long)want.size(), text);
  expect(name, o.str(), want, text);
}
enum { HEXL, HEXU, B64, B64U, B32, B32U, B32R, KINDS };
static const char* KN[] = {"hex lower", "hex upper", "base64", "base64 urlsafe", "base32", "base32 read upper-case", "base32 raw"};
static void both(int kind, const Bytes& in) {
  switch (kind) {
    case HEXL: case HEXU: {
      Bytes t = ref::hexs(in, kind == HEXU);
      enc("to_hex", in, t, fingera_to_hex_length(in.size()), [&](const void* b, size_t n, char* s) { fingera_to_hex(b, n, s, kind == HEXU); });
      dec("from_hex", t, in, fingera_from_hex_length(t.size()), fingera_from_hex);
      break; }
    case B64: {
      Bytes t = ref::base64(in, false);
      enc("to_base64", in, t, fingera_to_base64_length(in.size()), fingera_to_base64);
      dec("from_base64", t, in, fingera_from_base64_length(t.data(), t.size()), fingera_from_base64);
      break; }
    case B64U: {
      Bytes t = ref::base64(in, true);
      enc("to_base64_urlsafe", in, t, fingera_to_base64_urlsafe_length(in.size()), fingera_to_base64_urlsafe);
      dec("from_base64_urlsafe", t, in, fingera_from_base64_urlsafe_length(t.size()), fingera_from_base64_urlsafe);
      break; }
    case B32: {
      Bytes t = ref::base32(in);
      enc("to_base32", in, t, fingera_to_base32_length(in.size()), fingera_to_base32);
      dec("from_base32", t, in, fingera_from_base32_length(t.data(), t.size()), fingera_from_base32);
      break; }
    case B32U: {
      Bytes t = ref::base32(in); for (auto& ch : t) if (ch >= 'a' && ch <= 'z') ch -= 32;
      dec("from_base32 of upper case", t, in, fingera_from_base32_length(t.data(), t.size()), fingera_from_base32);
      break; }
    case B32R: {
      Bytes t = ref::base32_raw(in);
      size_t ret = 0;
      enc("to_base32_raw", in, t, t.size(), [&](const void* b, size_t n, char* s) { ret = fingera_to_base32_raw(b, n, s); });
      expect_n("to_base32_raw return value", (long long)ret, (long long)t.size(), in);
      dec("from_base32_raw", t, in, fingera_from_base32_raw_length(t.size()), [](const char* s, size_t n, void* o) { return fingera_from_base32_raw(s, n, o); });
      break; }
  }
  note("%s of %s", KN[kind], hex(in, 24).c_str());
}
static void define() {
  int N = pick(700, 3000);
  add("lengths", N + 1, [](long n) { int k = choose(KINDS); both(k, ref::pattern(choose(ref::NPAT), n)); }, "every length 0.." + std::to_string(N) + " x 7 contents x 7 codecs");
  add("bytes-at-positions", 256, [](long v) {
    int n = 1 + choose(pick(24, 60)), at = choose(n), k = choose(KINDS), p = choose(3);
    Bytes in = ref::pattern(p == 0 ? 0 : p == 1 ? 1 : 5, n); in[at] = (char)v; both(k, in);
  }, "every byte value at every position of inputs of 1..24 bytes, 3 backgrounds, 7 codecs");
  add("two-byte-inputs", 256, [](long a) {
    int b = choose(256); both(choose(KINDS), Bytes(1, (char)a) + (char)b);
  }, "all 2-byte inputs, 7 codecs");
  add("base64-groups", 65536, [](long u) {              // every 24-bit group (the alphabet and every bit boundary)
    char in[4]; in[0] = (char)(u >> 8); in[1] = (char)u;
    for (int c = 0; c < 256; c++) {
      in[2] = (char)c; char t[2][4]; uint8_t o[2][3];
      fingera_to_base64(in, 3, t[0]); fingera_to_base64_urlsafe(in, 3, t[1]);
      uint32_t v = (uint32_t)(uint8_t)in[0] << 16 | (uint8_t)in[1] << 8 | c;
      for (int i = 0; i < 4; i++) { int d = v >> (18 - 6 * i) & 63;
        if (t[0][i] != ref::B64[d] || t[1][i] != ref::B64U[d]) fail("base64 of %s: symbol %d is wrong (%.4s / %.4s)", hex(in, 3).c_str(), i, t[0], t[1]); }
      size_t a = fingera_from_base64(t[0], 4, o[0]), b = fingera_from_base64_urlsafe(t[1], 4, o[1]);
      if (a != 3 || b != 3 || memcmp(o[0], in, 3) || memcmp(o[1], in, 3)) fail("base64 decoding of %.4s / %.4s does not give %s", t[0], t[1], hex(in, 3).c_str());
    }
    op(1024); inner(256, 256);
  }, "all 2^24 groups, standard and url-safe, both directions");
  add("base32-adjacent", 256, [](long a) {
    int at = choose(4), bg = choose(3), b = choose(256), len = 5 + choose(5);
    Bytes in = ref::pattern(bg == 0 ? 0 : bg == 1 ? 1 : 5, len); in[at] = (char)a; in[at + 1] = (char)b;
    both(choose(2) ? B32 : B32R, in);
  }, "every pair of adjacent byte values at the 4 positions of a 5-byte group, lengths 5..9, 3 backgrounds");
  add("non-zero-upper-flag", 6, [](long u) {            // 'upper' is a truth value
    static const int F[6] = {0, 1, 2, -1, 256, 0x40000000};
    Bytes in = ref::pattern(2, 256); Out o(512);
    op(); fingera_to_hex(in.data(), in.size(), o.c(), F[u]);
    o.check("to_hex");
    expect_str("to_hex with upper flag", o.str(), ref::hexs(in, F[u] != 0), in);
  }, "6 truth values");
  static const std::vector<long> L = [] {
    std::vector<long> v = {4095, 4096, 4097, 98304, 199999, 300001};
    for (long k : {65536l, 131072l, 3 * 65536l, 262144l, 5 * 65536l, 8 * 65536l, 1l << 20, 5l << 20, 1l << 24})
      for (long d = -1; d <= 1; d++) v.push_back(k + d);
    if (thorough()) for (long k : {10 * 65536l, 3l << 20, 1l << 22, 3l << 24, 5l << 24}) for (long d = -6; d <= 6; d++) v.push_back(k + d);
    return v;
  }();
  add("large", (long)L.size() * KINDS, [](long u) { both((int)(u % KINDS), ref::pattern(5, (size_t)L[u / KINDS])); }, "sizes around multiples of 2^16 to 16 MiB x 7 codecs", 200);
  add("announced-lengths", 64, [](long bit) {              // the length functions over the whole range of sizes
    for (int d = -40; d <= 40; d++) {
      unsigned __int128 n = ((unsigned __int128)1 << bit) + d;
      if (d < 0 && (1ull << bit) < (uint64_t)-d) continue;
      if (n >> 61) continue;
      size_t z = (size_t)n;
      auto want = [&](const char* f, size_t got, unsigned __int128 w) { op(); checked(); inner(1, 1); if (got != (size_t)w) fail("%s(%zu) = %zu, should be %zu", f, z, got, (size_t)w); };
      want("to_hex_length", fingera_to_hex_length(z), n * 2);
      want("to_base64_length", fingera_to_base64_length(z), (n + 2) / 3 * 4);
      want("to_base64_urlsafe_length", fingera_to_base64_urlsafe_length(z), (n * 8 + 5) / 6);
      want("to_base32_length", fingera_to_base32_length(z), (n + 4) / 5 * 8);
      if (z % 2 == 0) want("from_hex_length", fingera_from_hex_length(z), n / 2);
      if (z % 4 != 1) want("from_base64_urlsafe_length", fingera_from_base64_urlsafe_length(z), n * 6 / 8);
      if (z % 8 == 0 || z % 8 == 2 || z % 8 == 4 || z % 8 == 5 || z % 8 == 7) want("from_base32_raw_length", fingera_from_base32_raw_length(z), n * 5 / 8);
    }
  }, "sizes 2^k - 40 .. 2^k + 40 for every k up to 60");
  // texts and data longer than 4 GiB
  static const std::vector<uint64_t> G = thorough() ? std::vector<uint64_t>{(1ull << 32) + 77, (1ull << 31) + 19, (1ull << 29) + 41, (1ull << 32) + 3 * 5 * 4096} : std::vector<uint64_t>{(1ull << 32) + 77};
  add_patient("giant", (long)G.size() * 12, [](long u) {
    int k = (int)(u % 12) / 2; bool decode = u & 1; static const int KK[6] = {HEXL, HEXU, B64, B64U, B32, B32R}; k = KK[k];
    uint64_t want = G[u / 12];                              // size of what the call reads
    static const Bytes data = ref::pattern(5, 15 * 4096 * 64);
    Bytes text = k == HEXL || k == HEXU ? ref::hexs(data, k == HEXU) : k == B64 || k == B64U ? ref::base64(data, k == B64U) : k == B32 ? ref::base32(data) : ref::base32_raw(data);
    auto part = [&](const Bytes& period, uint64_t at, size_t n) { Bytes r; r.reserve(n); while (n) { size_t o = at % period.size(), m = std::min(n, period.size() - o); r.append(period, o, m); at += m; n -= m; } return r; };
    uint64_t dlen = want, tlen;
    if (decode) dlen = want / text.size() * data.size() + (want % text.size()) * 15 / (k <= HEXU ? 30 : k <= B64U ? 20 : 24);
    // the last incomplete group, as the codec writes it
    uint64_t whole = dlen / 15 * 15; Bytes lastd = part(data, whole, dlen - whole), lastt = k <= HEXU ? ref::hexs(lastd, k == HEXU) : k <= B64U ? ref::base64(lastd, k == B64U) : k == B32 ? ref::base32(lastd) : ref::base32_raw(lastd);
    uint64_t wholet = whole / data.size() * text.size() + (whole % data.size()) * text.size() / data.size(); tlen = wholet + lastt.size();
    auto windows = [&](giant::OutMap& o, const Bytes& period, uint64_t wh, const Bytes& last) {
      checked();
      for (auto& w : o.win) {
        Bytes exp; uint64_t lo = w.first, hi = w.second;
        if (lo < wh) exp = part(period, lo, std::min(hi, wh) - lo);
        if (hi > wh) exp += last.substr(lo > wh ? lo - wh : 0, hi - std::max(lo, wh));
        if (memcmp(o.b + lo, exp.data(), exp.size())) { size_t i = 0; while (o.b[lo + i] == (uint8_t)exp[i]) i++; fail("%s %s of %llu bytes: output byte %llu is %02x, should be %02x", KN[k], decode ? "decoding" : "encoding", (unsigned long long)(decode ? tlen : dlen), (unsigned long long)(lo + i), o.b[lo + i], (uint8_t)exp[i]); }
      }
      if (!o.clean_behind()) fail("%s wrote behind its output of %zu bytes", KN[k], o.total);
    };
    note("%s %s, %llu bytes of data, %llu characters", KN[k], decode ? "decoding" : "encoding", (unsigned long long)dlen, (unsigned long long)tlen);
    op(); size_t ret;
    if (!decode) {
      giant::In in(data, dlen); giant::OutMap o(text.size(), tlen); size_t ann = tlen; ret = tlen;
      switch (k) {
        case HEXL: case HEXU: ann = fingera_to_hex_length(dlen); fingera_to_hex(in.b, dlen, (char*)o.b, k == HEXU); break;
        case B64: ann = fingera_to_base64_length(dlen); fingera_to_base64(in.b, dlen, (char*)o.b); break;
        case B64U: ann = fingera_to_base64_urlsafe_length(dlen); fingera_to_base64_urlsafe(in.b, dlen, (char*)o.b); break;
        case B32: ann = fingera_to_base32_length(dlen); fingera_to_base32(in.b, dlen, (char*)o.b); break;
        default: ret = fingera_to_base32_raw(in.b, dlen, (char*)o.b);
      }
      if (ann != tlen || ret != tlen) fail("%s encoding of %llu bytes: announced %zu, returned %zu, should be %llu", KN[k], (unsigned long long)dlen, ann, ret, (unsigned long long)tlen);
      windows(o, text, wholet, lastt);
    } else {
      giant::In in(text, tlen); in.set(wholet, lastt + "~"); giant::OutMap o(data.size(), dlen); const char* t = (const char*)in.b; size_t ann;
      switch (k) {
        case HEXL: case HEXU: ann = fingera_from_hex_length(tlen); ret = fingera_from_hex(t, tlen, o.b); break;
        case B64: ann = fingera_from_base64_length(t, tlen); ret = fingera_from_base64(t, tlen, o.b); break;
        case B64U: ann = fingera_from_base64_urlsafe_length(tlen); ret = fingera_from_base64_urlsafe(t, tlen, o.b); break;
        case B32: ann = fingera_from_base32_length(t, tlen); ret = fingera_from_base32(t, tlen, o.b); break;
        default: ann = fingera_from_base32_raw_length(tlen); ret = fingera_from_base32_raw(t, tlen, o.b);
      }
      if (ann != dlen || ret != dlen) fail("%s decoding of %llu characters: announced %zu, returned %zu, should be %llu", KN[k], (unsigned long long)tlen, ann, ret, (unsigned long long)dlen);
      windows(o, data, whole, lastd);
    }
  }, "more than 4 GiB read by each encoder and decoder (output checked at both ends and around 2^29..2^33)");
}
int main(int c, char** v) { return run(c, v, "C04", define, {"texts of inputs longer than a few groups are covered through group-wise exhaustion and length sweeps"}); }
