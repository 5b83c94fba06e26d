// Reference models: written from the standards, independent of the library under test.
#pragma once
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/obj_mac.h>
#include <openssl/ripemd.h>
#include <openssl/sha.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

namespace ref {
using Bytes = std::string;

inline Bytes sha1(const Bytes& m) { Bytes r(20, 0); SHA1((const uint8_t*)m.data(), m.size(), (uint8_t*)&r[0]); return r; }
inline Bytes sha256(const Bytes& m) { Bytes r(32, 0); SHA256((const uint8_t*)m.data(), m.size(), (uint8_t*)&r[0]); return r; }
inline Bytes sha512(const Bytes& m) { Bytes r(64, 0); SHA512((const uint8_t*)m.data(), m.size(), (uint8_t*)&r[0]); return r; }
inline Bytes ripemd160(const Bytes& m) { Bytes r(20, 0); RIPEMD160((const uint8_t*)m.data(), m.size(), (uint8_t*)&r[0]); return r; }
inline Bytes hash160(const Bytes& m) { return ripemd160(sha256(m)); }
inline Bytes hash256(const Bytes& m) { return sha256(sha256(m)); }

// RFC 2104: H((K ^ opad) || H((K ^ ipad) || m))
template <class H> inline Bytes hmac(H h, size_t block, Bytes key, const Bytes& m) {
  if (key.size() > block) key = h(key);
  key.resize(block, 0);
  Bytes i = key, o = key;
  for (auto& c : i) c ^= 0x36;
  for (auto& c : o) c ^= 0x5c;
  return h(o + h(i + m));
}
inline Bytes hmac256(const Bytes& k, const Bytes& m) { return hmac(sha256, 64, k, m); }
inline Bytes hmac512(const Bytes& k, const Bytes& m) { return hmac(sha512, 128, k, m); }

inline Bytes be32(uint32_t v) { Bytes r; for (int i = 3; i >= 0; i--) r += (char)(v >> (8 * i)); return r; }
inline Bytes le32(uint32_t v) { Bytes r; for (int i = 0; i < 4; i++) r += (char)(v >> (8 * i)); return r; }

// ---- RFC 4648: regroup bits, most significant first ----
inline std::vector<int> regroup(const Bytes& in, int bits) {     // pads the last group with zero bits
  std::vector<int> r; uint32_t acc = 0; int n = 0;
  for (unsigned char c : in) for (int b = 7; b >= 0; b--) {
    acc = acc << 1 | ((c >> b) & 1);
    if (++n == bits) { r.push_back((int)acc); acc = 0; n = 0; }
  }
  if (n) r.push_back((int)(acc << (bits - n)));
  return r;
}
inline Bytes ungroup(const std::vector<int>& in, int bits) {     // drops an incomplete last byte
  Bytes r; uint32_t acc = 0; int n = 0;
  for (int v : in) for (int b = bits - 1; b >= 0; b--) {
    acc = acc << 1 | ((v >> b) & 1);
    if (++n == 8) { r += (char)acc; acc = 0; n = 0; }
  }
  return r;
}
static const char* const B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char* const B64U = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static const char* const B32 = "abcdefghijklmnopqrstuvwxyz234567";
inline Bytes base64(const Bytes& in, bool url) {
  Bytes r; for (int v : regroup(in, 6)) r += (url ? B64U : B64)[v];
  if (!url) while (r.size() % 4) r += '=';
  return r;
}
inline Bytes base32(const Bytes& in) { Bytes r; for (int v : regroup(in, 5)) r += B32[v]; while (r.size() % 8) r += '='; return r; }
inline Bytes base32_raw(const Bytes& in) { Bytes r; for (int v : regroup(in, 5)) r += (char)v; return r; }
inline Bytes hexs(const Bytes& in, bool upper) {
  Bytes r; const char* d = upper ? "0123456789ABCDEF" : "0123456789abcdef";
  for (unsigned char c : in) { r += d[c / 16]; r += d[c % 16]; } return r;
}
inline int v64(unsigned char c, bool url) { if (!c) return -1; const char* a = url ? B64U : B64; const char* p = strchr(a, c); return p ? (int)(p - a) : -1; }
inline int v32(unsigned char c) {
  if (c >= 'A' && c <= 'Z') c = c - 'A' + 'a';     // upper case is read as lower case
  if (!c) return -1;
  const char* p = strchr(B32, c); return p ? (int)(p - B32) : -1;
}
inline int v16(unsigned char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}

// ---- Base58: repeated division of the whole number ----
static const char* const B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
inline std::vector<uint8_t> convert_base(std::vector<uint8_t> num, int from, int to) {  // big-endian digits, no leading zeros in result
  std::vector<uint8_t> out; size_t start = 0;
  while (start < num.size() && num[start] == 0) start++;
  while (start < num.size()) {
    int rem = 0;
    for (size_t i = start; i < num.size(); i++) { int cur = rem * from + num[i]; num[i] = (uint8_t)(cur / to); rem = cur % to; }
    out.push_back((uint8_t)rem);
    while (start < num.size() && num[start] == 0) start++;
  }
  return std::vector<uint8_t>(out.rbegin(), out.rend());
}
inline Bytes base58(const Bytes& in) {
  size_t z = 0; while (z < in.size() && in[z] == 0) z++;
  Bytes r(z, '1');
  for (uint8_t d : convert_base(std::vector<uint8_t>(in.begin(), in.end()), 256, 58)) r += B58[d];
  return r;
}
inline bool is_space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline Bytes trim(const Bytes& s) {
  size_t a = 0, b = s.size(); while (a < b && is_space(s[a])) a++; while (b > a && is_space(s[b - 1])) b--;
  return s.substr(a, b - a);
}
inline bool unbase58(const Bytes& str, Bytes& out) {
  Bytes s = trim(str); std::vector<uint8_t> d; size_t z = 0; out.clear();
  for (unsigned char c : s) { const char* p = c ? strchr(B58, c) : nullptr; if (!p) return false; d.push_back((uint8_t)(p - B58)); }
  while (z < d.size() && d[z] == 0) z++;
  out.assign(z, 0);
  for (uint8_t b : convert_base(d, 58, 256)) out += (char)b;
  return true;
}
inline Bytes base58check(const Bytes& payload) { return base58(payload + hash256(payload).substr(0, 4)); }
inline Bytes base58_long(const Bytes& in) {                // the same for tens of thousands of bytes
  Bytes r; size_t z = 0; while (z < in.size() && in[z] == 0) z++;
  BIGNUM* n = BN_bin2bn((const uint8_t*)in.data(), in.size(), 0);
  while (!BN_is_zero(n)) { BN_ULONG d = BN_div_word(n, 430804206899405824ull); for (int i = 0; i < 10 && (d || !BN_is_zero(n)); i++, d /= 58) r.insert(r.end(), B58[d % 58]); }
  BN_free(n); return Bytes(z, '1') + Bytes(r.rbegin(), r.rend());
}
inline Bytes base58check_long(const Bytes& payload) { return base58_long(payload + hash256(payload).substr(0, 4)); }
inline bool unbase58check(const Bytes& s, Bytes& out) {
  Bytes r; if (!unbase58(s, r) || r.size() < 4) return false;
  out = r.substr(0, r.size() - 4);
  return hash256(out).substr(0, 4) == r.substr(r.size() - 4);
}

// ---- BIP173 ----
static const char* const B32C = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
inline uint32_t polymod(const std::vector<int>& v) {
  static const uint32_t G[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
  uint32_t c = 1;
  for (int x : v) { uint32_t b = c >> 25; c = (c & 0x1ffffff) << 5 ^ x; for (int i = 0; i < 5; i++) if (b >> i & 1) c ^= G[i]; }
  return c;
}
inline std::vector<int> hrp_expand(const Bytes& h) {
  std::vector<int> r; for (unsigned char c : h) r.push_back(c >> 5); r.push_back(0); for (unsigned char c : h) r.push_back(c & 31); return r;
}
inline Bytes bech32(const Bytes& hrp, const Bytes& data, uint32_t constant = 1) {
  std::vector<int> v = hrp_expand(hrp); for (char c : data) v.push_back(c);
  for (int i = 0; i < 6; i++) v.push_back(0);
  uint32_t p = polymod(v) ^ constant; Bytes r = hrp + "1";
  for (char c : data) r += B32C[(int)c];
  for (int i = 0; i < 6; i++) r += B32C[p >> (5 * (5 - i)) & 31];
  return r;
}
inline bool unbech32(const Bytes& str, Bytes& hrp, Bytes& data) {
  bool lo = false, up = false; Bytes s = str;
  for (auto& c : s) { unsigned char u = c; if (u < 33 || u > 126) return false; if (u >= 'a' && u <= 'z') lo = true; if (u >= 'A' && u <= 'Z') { up = true; c = (char)(u - 'A' + 'a'); } }
  if (lo && up) return false;
  if (s.size() > 90) return false;
  size_t p = s.rfind('1');
  if (p == Bytes::npos || p == 0 || p + 7 > s.size()) return false;
  hrp = s.substr(0, p); data.clear(); std::vector<int> v = hrp_expand(hrp);
  for (size_t i = p + 1; i < s.size(); i++) { const char* q = strchr(B32C, s[i]); if (!q) return false; v.push_back((int)(q - B32C)); if (i + 6 < s.size()) data += (char)(q - B32C); }
  return polymod(v) == 1;
}

// ---- varint: numbers of k+1 bytes start right after the last number of k bytes ----
inline Bytes varint(uint64_t v) {
  unsigned __int128 base = 0, size = 128; int k = 1;           // k-byte strings encode [base, base+size)
  while (v >= base + size) { base += size; size *= 128; k++; }
  unsigned __int128 off = v - base; Bytes r(k, 0);
  for (int i = k - 1; i >= 0; i--) { r[i] = (char)((int)(off % 128) | (i == k - 1 ? 0 : 0x80)); off /= 128; }
  return r;
}
// value and length of the encoding at the start of b; 0 if there is none or it exceeds 64 bits
inline size_t unvarint(const Bytes& b, uint64_t& out) {
  unsigned __int128 base = 0, size = 128, off = 0;
  for (size_t i = 0; i < b.size() && i < 10; i++) {
    off = off * 128 + ((uint8_t)b[i] & 127);
    if (!((uint8_t)b[i] & 128)) {
      unsigned __int128 v = base + off;
      if (v >> 64) return 0;
      out = (uint64_t)v; return i + 1;
    }
    base += size; size *= 128;
  }
  return 0;
}

// ---- secp256k1 through OpenSSL ----
struct Curve {
  EC_GROUP* g; BN_CTX* ctx; BIGNUM *n, *p, *half;
  Curve() {
    g = EC_GROUP_new_by_curve_name(NID_secp256k1); ctx = BN_CTX_new(); n = BN_new(); p = BN_new(); half = BN_new();
    EC_GROUP_get_order(g, n, ctx); EC_GROUP_get_curve(g, p, nullptr, nullptr, ctx); BN_rshift1(half, n);
  }
};
inline Curve& C() { static Curve c; return c; }
struct BN { BIGNUM* b; BN() : b(BN_new()) {} explicit BN(const Bytes& s) : b(BN_bin2bn((const uint8_t*)s.data(), (int)s.size(), nullptr)) {} BN(const BN& o) : b(BN_dup(o.b)) {} BN& operator=(const BN& o) { BN_copy(b, o.b); return *this; } ~BN() { BN_free(b); } operator BIGNUM*() const { return b; } };
inline Bytes be(const BIGNUM* b, int len = 32) { Bytes r(len, 0); BN_bn2binpad(b, (uint8_t*)&r[0], len); return r; }
inline Bytes order() { return be(C().n); }
inline Bytes add_mod_n(const Bytes& a, const Bytes& b) { BN x(a), y(b), r; BN_mod_add(r, x, y, C().n, C().ctx); return be(r); }
inline bool valid_key(const Bytes& k) { BN x(k); return !BN_is_zero(x) && BN_cmp(x, C().n) < 0; }
inline Bytes add_int(const Bytes& a, long d) { BN x(a); if (d >= 0) BN_add_word(x, d); else BN_sub_word(x, -d); return be(x); }
struct Point { EC_POINT* p; Point() : p(EC_POINT_new(C().g)) {} Point(const Point& o) : p(EC_POINT_dup(o.p, C().g)) {} Point& operator=(const Point& o) { EC_POINT_copy(p, o.p); return *this; } ~Point() { EC_POINT_free(p); } };
inline Bytes ser(const Point& q, bool comp) {
  Bytes r(comp ? 33 : 65, 0);
  size_t n = EC_POINT_point2oct(C().g, q.p, comp ? POINT_CONVERSION_COMPRESSED : POINT_CONVERSION_UNCOMPRESSED, (uint8_t*)&r[0], r.size(), C().ctx);
  r.resize(n); return r;
}
inline Point mulG(const Bytes& k) { Point r; BN x(k); EC_POINT_mul(C().g, r.p, x, nullptr, nullptr, C().ctx); return r; }
inline Bytes pub(const Bytes& k, bool comp = true) { return ser(mulG(k), comp); }
inline bool parse_point(const Bytes& s, Point& out) {
  if (s.size() != 33 && s.size() != 65) return false;
  return EC_POINT_oct2point(C().g, out.p, (const uint8_t*)s.data(), s.size(), C().ctx) == 1 && !EC_POINT_is_at_infinity(C().g, out.p);
}
// parent point + tweak*G, compressed; empty if infinity or tweak out of range
inline Bytes tweak_pub(const Bytes& pub33, const Bytes& tweak) {
  Point P; if (!parse_point(pub33, P)) return "";
  BN t(tweak); if (BN_cmp(t, C().n) >= 0) return "";
  Point r; BN one; BN_one(one); EC_POINT_mul(C().g, r.p, t, P.p, one, C().ctx);
  if (EC_POINT_is_at_infinity(C().g, r.p)) return "";
  return ser(r, true);
}

// ---- BIP32 ----
struct XKey { bool priv; int depth; uint32_t child; Bytes fp, chain, key; };   // fp: 4 bytes, key: 32 or 33 bytes
inline XKey master(const Bytes& seed) { Bytes i = hmac512("Bitcoin seed", seed); return {true, 0, 0, Bytes(4, 0), i.substr(32), i.substr(0, 32)}; }
inline Bytes fingerprint(const XKey& k) { return hash160(k.priv ? pub(k.key) : k.key).substr(0, 4); }
inline bool ckd(const XKey& k, uint32_t child, XKey& r) {
  if (k.depth >= 255) return false;
  Bytes i;
  if (k.priv) i = hmac512(k.chain, ((child >> 31) ? Bytes(1, 0) + k.key : pub(k.key)) + be32(child));
  else { if (child >> 31) return false; i = hmac512(k.chain, k.key + be32(child)); }
  r.priv = k.priv; r.depth = k.depth + 1; r.child = child; r.chain = i.substr(32);
  Bytes il = i.substr(0, 32); BN t(il); if (BN_cmp(t, C().n) >= 0) return false;
  if (k.priv) { r.key = add_mod_n(il, k.key); return valid_key(r.key); }
  r.key = tweak_pub(k.key, il); return !r.key.empty();
}
inline XKey neuter(const XKey& k) { XKey r = k; r.priv = false; r.key = pub(k.key); return r; }
inline Bytes ser74(const XKey& k) { return Bytes(1, (char)k.depth) + k.fp + be32(k.child) + k.chain + (k.priv ? Bytes(1, 0) : Bytes()) + k.key; }

// ---- ECDSA, RFC 6979 (HMAC-SHA256), with libsecp256k1's extra entropy convention ----
struct Sig { Bytes r, s; };
inline Bytes rfc6979(const Bytes& key, const Bytes& h, const Bytes& extra, int attempt) {
  BN hn(h); BN_nnmod(hn, hn, C().n, C().ctx);                   // RFC 6979 bits2octets: the hash modulo n
  Bytes v(32, 1), k(32, 0), data = key + be(hn) + extra;
  k = hmac256(k, v + Bytes(1, 0) + data); v = hmac256(k, v);
  k = hmac256(k, v + Bytes(1, 1) + data); v = hmac256(k, v);
  for (int i = 0;; i++) {
    v = hmac256(k, v);
    if (i == attempt) return v;
    k = hmac256(k, v + Bytes(1, 0)); v = hmac256(k, v);
  }
}
inline Sig sign_once(const Bytes& key, const Bytes& h, const Bytes& extra) {
  Curve& c = C();
  for (int a = 0;; a++) {
    Bytes kb = rfc6979(key, h, extra, a); if (!valid_key(kb)) continue;
    Bytes R = pub(kb, false); BN x(R.substr(1, 32)), r, s, e(h), d(key), kk(kb), inv;
    BN_nnmod(r, x, c.n, c.ctx); if (BN_is_zero(r)) continue;
    BN_mod_mul(s, r, d, c.n, c.ctx); BN_mod_add(s, s, e, c.n, c.ctx);
    BN_mod_inverse(inv, kk, c.n, c.ctx); BN_mod_mul(s, s, inv, c.n, c.ctx);
    if (BN_is_zero(s)) continue;
    if (BN_cmp(s, c.half) > 0) BN_sub(s, c.n, s);
    return {be(r), be(s)};
  }
}
inline Sig sign_low_r(const Bytes& key, const Bytes& h, uint32_t* counter = nullptr) {
  Sig s = sign_once(key, h, ""); uint32_t n = 0;
  while ((uint8_t)s.r[0] >= 0x80) { n++; s = sign_once(key, h, le32(n) + Bytes(28, 0)); }
  if (counter) *counter = n;
  return s;
}
inline bool verify(const Bytes& pubkey, const Bytes& h, const Sig& sig) {   // plain ECDSA, any S
  Curve& c = C(); BN r(sig.r), s(sig.s), e(h), w, u1, u2, x; Point P, R;
  if (BN_is_zero(r) || BN_is_zero(s) || BN_cmp(r, c.n) >= 0 || BN_cmp(s, c.n) >= 0 || !parse_point(pubkey, P)) return false;
  BN_mod_inverse(w, s, c.n, c.ctx); BN_mod_mul(u1, e, w, c.n, c.ctx); BN_mod_mul(u2, r, w, c.n, c.ctx);
  EC_POINT_mul(c.g, R.p, u1, P.p, u2, c.ctx);
  if (EC_POINT_is_at_infinity(c.g, R.p)) return false;
  EC_POINT_get_affine_coordinates(c.g, R.p, x, nullptr, c.ctx); BN_nnmod(x, x, c.n, c.ctx);
  return BN_cmp(x, r) == 0;
}
inline Bytes der_int(Bytes v) { size_t z = 0; while (z + 1 < v.size() && v[z] == 0) z++; v = v.substr(z); if ((uint8_t)v[0] & 0x80) v = Bytes(1, 0) + v; return Bytes("\x02") + (char)v.size() + v; }
inline Bytes der_sig(const Sig& s) { Bytes b = der_int(s.r) + der_int(s.s); return Bytes("\x30") + (char)b.size() + b; }

// ---- patterns: deterministic contents ----
inline Bytes pattern(int kind, size_t n) {
  Bytes r(n, 0); uint64_t x = 0x9E3779B97F4A7C15ull * (uint64_t)(kind + 1) + n;
  for (size_t i = 0; i < n; i++) switch (kind) {
    case 0: r[i] = 0; break;
    case 1: r[i] = (char)0xFF; break;
    case 2: r[i] = (char)i; break;
    case 3: r[i] = (char)0x80; break;
    case 4: r[i] = (char)(0xA5 ^ (i * 7)); break;
    default: x ^= x << 13; x ^= x >> 7; x ^= x << 17; r[i] = (char)(x >> 32); break;
  }
  return r;
}
static const int NPAT = 7;   // 5 and 6 are pseudo-random streams
}  // namespace ref
