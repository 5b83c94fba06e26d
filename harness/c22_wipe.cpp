// C22: no copy of a secret is left in freed heap blocks or in the stack area a call used; cleanse overwrites exactly its range.
// LINK: -Wl,-z,now -Wl,--export-dynamic-symbol=read,--export-dynamic-symbol=malloc,--export-dynamic-symbol=free
#include "heap.hpp"
#include "giant.hpp"
#include "libs.hpp"
#include "ref.hpp"
#include <sys/syscall.h>
#include <ucontext.h>
#include <unordered_map>
using namespace mc;
static char drawn_buf[4096]; static size_t ndrawn;                                    // what the operating system's random source delivered
static bool tap = false;
extern "C" ssize_t read(int fd, void* b, size_t n) { ssize_t r = syscall(SYS_read, fd, b, n); if (tap && r > 0 && ndrawn + r <= sizeof drawn_buf) memcpy(drawn_buf + ndrawn, b, r), ndrawn += r; return r; }
// ---- the secrets looked for, as 8-byte windows: as they are, and as a MAC masks its key
struct Needle { const char* what; };
static std::unordered_map<uint64_t, const char*> windows;
static uint8_t pre[65536];
static void secret(const char* what, const Bytes& s) {
  for (size_t i = 0; i + 8 <= s.size(); i++) {
    uint64_t w; memcpy(&w, s.data() + i, 8);
    bool seen[256] = {0}; int d = 0; for (int k = 0; k < 8; k++) if (!seen[(uint8_t)s[i + k]]) seen[(uint8_t)s[i + k]] = true, d++;
    if (d < 6) continue;                                // runs of equal bytes say nothing
    for (uint64_t m : {0x0ull, 0x3636363636363636ull, 0x5c5c5c5c5c5c5c5cull}) { uint64_t v = w ^ m; windows.emplace(v, what); pre[v & 0xffff] = 1; }
  }
}
// a digest also as the hash functions keep it: in words of w bytes of the machine's order
static void digest(const char* what, const Bytes& d, int w) { secret(what, d); Bytes r = d; for (size_t i = 0; i + w <= d.size(); i += w) for (int k = 0; k < w; k++) r[i + k] = d[i + w - 1 - k]; secret(what, r); }
static void forget() { windows.clear(); memset(pre, 0, sizeof pre); }
// the longest run of secret bytes in [p, p+n) (0 if no window of a secret is there)
static const char* look(const uint8_t* p, size_t n, size_t* at, size_t* len) {
  const char* best = nullptr; *len = 0;
  for (size_t i = 0; i + 8 <= n; i++) {
    size_t j = i; const char* what = nullptr;
    for (; j + 8 <= n; j++) {
      uint16_t k; memcpy(&k, p + j, 2); if (!pre[k]) break;
      uint64_t w; memcpy(&w, p + j, 8); auto it = windows.find(w); if (it == windows.end()) break;
      what = it->second;
    }
    if (j > i) { if (j - i + 7 > *len) *len = j - i + 7, *at = i, best = what; i = j; }
  }
  return best;
}
// ---- a call on a stack of its own
static const size_t STK = 1 << 18;
static uint8_t* stk; static ucontext_t back, there; static const std::function<void()>* todo;
static void entry() { (*todo)(); }
static char freed_msg[300];
static void at_free(void* p, size_t n) { size_t at, len; const char* w = look((uint8_t*)p, n, &at, &len); if (w && !freed_msg[0]) snprintf(freed_msg, sizeof freed_msg, "%s (%zu bytes of it) is still in a heap block of %zu bytes when it is freed", w, len, n); }
struct Left { Bytes heap, stack; size_t n = 0; };      // n: longest run of secret bytes in the dead stack
static Left residue(const std::function<void()>& f, const std::function<void()>& after) {
  if (!stk) stk = (uint8_t*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  static size_t low = 0;                                // lowest byte that differed after the previous call
  memset(stk + low, 0xB7, STK - low);
  getcontext(&there); there.uc_stack.ss_sp = stk; there.uc_stack.ss_size = STK; there.uc_link = &back; makecontext(&there, entry, 0);
  todo = &f; freed_msg[0] = 0;
  heap::H& H = heap::h(); H.on_free = at_free; H.fill = 0; H.nlive = 0; H.in_lib = true;
  swapcontext(&back, &there);
  H.in_lib = false; H.on_free = nullptr; checked();
  low = 0; while (low < STK && *(uint64_t*)(stk + low) == 0xB7B7B7B7B7B7B7B7ull) low += 8;
  if (after) after();                                   // secrets known only now (drawn keys)
  Left r; r.heap = freed_msg; size_t at, len;
  for (int i = 0; i < H.nlive && r.heap.empty(); i++) if (const char* w = look((uint8_t*)H.live[i].p, H.live[i].n, &at, &len)) r.heap = Bytes(w) + " stays in a heap block that is never freed";
  H.nlive = 0;
  if (const char* w = look(stk + low, STK - low, &at, &len)) { r.n = len; r.stack = std::to_string(len) + " bytes of " + w + " are left in the dead stack, " + std::to_string(STK - low - at) + " bytes below its top"; }
  return r;
}
// ---- buffers the calls use (not on that stack)
static uint8_t in1[4096], in2[4096], o1[8192], o2[8192]; static fingera_ex_key X, Y; static fingera_ex_pubkey Q; static int flag;
static const Lib* L;
static Bytes rnd(const Bytes& tag, size_t n) { Bytes r; for (int i = 0; r.size() < n; i++) r += ref::sha256(tag + std::to_string(i)); return r.substr(0, n); }
// Runs f in every build. A secret in a released heap block is a violation in any build. On the stack, compilers spill
// registers: 16 or more secret bytes in a row count in the unoptimised build, where no spill makes them, and 24 or more
// (words: the source itself keeps the message in sixteen word variables, which only that build keeps in memory: RIPEMD-160)
// when at least four of the optimised builds, or all whole-program-optimised ones, leave them (a wipe that the optimiser drops).
static void claim(const char* what, const std::function<void()>& f, const std::function<void()>& after = nullptr, const std::function<void()>& before = nullptr, bool words = false) {
  int many = 0, lto = 0, ltos = 0; Bytes first;
  for (auto& l : libs()) {
    L = &l; if (before) before();
    bool is_lto = l.name.find("lto") != Bytes::npos; ltos += is_lto;
    op(); Left r = residue(f, after);
    if (!r.heap.empty()) fail("%s (%s build): %s", what, l.name.c_str(), r.heap.c_str());
    if (r.n >= 16 && l.name == "so_O0" && !words) fail("%s (%s build): %s", what, l.name.c_str(), r.stack.c_str());
    if (r.n < (words ? 16 : 24)) continue;
    lto += is_lto; if (++many == 1) first = "(" + l.name + " build): " + r.stack;
  }
  note("%s: clean in %zu builds", what, libs().size() - many);
  if (many >= 4 || (ltos >= 3 && lto == ltos)) fail("%s, in %d builds, first %s", what, many, first.c_str());
}
static Bytes digits(const Bytes& b58) { static const Bytes A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"; Bytes r; for (char c : b58) { size_t p = A.find(c); r += (char)(p == Bytes::npos ? 0 : p); } return r; }
static void put(uint8_t* d, const Bytes& s) { memcpy(d, s.data(), s.size()); }

// what a text of a secret looks like inside
static void text_secrets(const Bytes& payload, const Bytes& text) { secret("the secret", payload); secret("the secret's base58 digits", digits(text)); secret("the secret's text", text); }
static Bytes mangle(const Bytes& t, int how) {
  Bytes s = t;
  switch (how) {
    case 1: s[s.size() / 2] = s[s.size() / 2] == 'a' ? 'b' : 'a'; break;    // checksum
    case 2: s[s.size() - 1] = '0'; break;                                    // bad character at the end
    case 3: s += " x"; break;                                                // garbage after a space
    case 4: s = " " + s + " "; break;                                        // still valid
    case 5: s[s.size() / 2] = 'l'; break;                                    // bad character in the middle
    case 6: s += '\x80'; break;
  }
  return s;
}
static void base58_ops(long unit) {
  size_t n = 8 + unit; int zeros = choose(2) * 3;
  Bytes pay = Bytes(zeros, 0) + rnd("p", n); Bytes text = ref::base58(pay); forget(); text_secrets(pay, text);
  switch (choose(4)) {
    case 0: put(in1, pay); claim("to_base58", [&] { L->fingera_to_base58(in1, pay.size(), (char*)o1); }); break;
    case 1: { size_t k = choose(2) ? 4 : 1; put(in1, pay); Bytes t = ref::base58check("\1\2\3\4" + pay); secret("the secret's base58 digits", digits(t)); claim("to_base58_check", [&] { L->fingera_to_base58_check(in1, pay.size(), "\1\2\3\4", k, (char*)o1); }); break; }
    case 2: { Bytes s = mangle(text, choose(7)); put(in1, s); claim("from_base58", [&] { L->fingera_from_base58((char*)in1, s.size(), o1); }); break; }
    case 3: { Bytes t = ref::base58check(pay); forget(); text_secrets(pay, t); Bytes s = mangle(t, choose(7)); put(in1, s); claim("from_base58_check", [&] { L->fingera_from_base58_check((char*)in1, s.size(), o1); }); break; }
  }
}
static void wif_ops(long unit) {
  int kind = unit % 3; int net = choose(3); bool comp = choose(2);
  static const char* names[3] = {"\x80", "\xEF", "\xEF"}; Bytes key = rnd("wif" + std::to_string(net), 32);
  forget();
  if (kind == 0) { put(in1, key); Bytes t = ref::base58check(Bytes(names[net]) + key + (comp ? Bytes("\1") : "")); text_secrets(key, t); claim("key_to_string", [&] { L->fingera_btc_key_to_string(in1, (char*)o1, comp, L->net[net]); }); return; }
  // lengths of the payload around and beyond the right one: long ones use the heap
  static const int extra[] = {0, -1, 1, 2, -8, 20, 50, 61, 62, 63, 64, 65, 66, 80, 100, 200};
  int e = extra[choose(16)]; Bytes pay = Bytes(names[net]) + rnd("wif" + std::to_string(net), 32 + e) + (comp ? Bytes("\1") : ""); Bytes t = ref::base58check(pay);
  text_secrets(pay, t); Bytes s = mangle(t, choose(7)); put(in1, s); int as = choose(2) ? (net + 1) % 3 : net;
  claim("key_from_string", [&] { L->fingera_btc_key_from_string((char*)in1, s.size(), o1, &flag, L->net[as]); });
}
static void xprv_ops(long unit) {
  int kind = unit % 2; int net = choose(2);
  ref::XKey x{true, 3, 7, Bytes("\1\2\3\4"), rnd("cc", 32), rnd("xk", 32)}; Bytes ver = ref::be32(net ? 0x04358394 : 0x0488ADE4);
  Bytes e74 = ref::ser74(x); forget();
  if (kind == 0) { Bytes t = ref::base58check(ver + e74); text_secrets(e74.substr(42), t); secret("the chain code", x.chain); put(in1, e74); fingera_exkey_decode(in1, &X); claim("exkey_to_string", [&] { L->fingera_exkey_to_string(&X, (char*)o1, L->net[net]); }); return; }
  static const int extra[] = {0, -1, 1, 4, -20, 20, 21, 22, 23, 24, 25, 40, 100, 170};
  int e = extra[choose(14)]; Bytes pay = e <= 0 ? e74.substr(0, 74 + e) : e74 + rnd("more", e); int bad = choose(2); if (bad) pay[41] = 1; Bytes t = ref::base58check(ver + pay); text_secrets(pay.substr(9), t);
  Bytes s = mangle(t, choose(7)); put(in1, s); int as = choose(2) ? 1 - net : net;
  claim("exkey_from_string", [&] { L->fingera_exkey_from_string((char*)in1, s.size(), &Y, L->net[as]); });
}
static void mac_ops(long unit) {
  size_t kl = 8 + unit; static const int ml[] = {0, 1, 16, 55, 56, 63, 64, 65, 111, 112, 127, 128, 200, 300}; size_t m = ml[choose(14)];
  Bytes key = rnd("mac", kl), msg = rnd("msg", m); forget(); secret("the MAC key", key); secret("the message", msg); digest("the hashed MAC key", kl > 64 ? ref::sha256(key) : "", 4); digest("the hashed MAC key", kl > 128 ? ref::sha512(key) : "", 8);
  put(in1, key); put(in2, msg);
  if (choose(2)) { digest("the MAC", ref::hmac256(key, msg), 4); digest("the inner digest", ref::sha256([&] { Bytes k = kl > 64 ? ref::sha256(key) : key; k.resize(64, 0); for (auto& c : k) c ^= 0x36; return k; }() + msg), 4); claim("hmac_sha256", [&] { L->fingera_hmac_sha256(in1, kl, in2, m, o1); }); }
  else { digest("the MAC", ref::hmac512(key, msg), 8); digest("the inner digest", ref::sha512([&] { Bytes k = kl > 128 ? ref::sha512(key) : key; k.resize(128, 0); for (auto& c : k) c ^= 0x36; return k; }() + msg), 8); claim("hmac_sha512", [&] { L->fingera_hmac_sha512(in1, kl, in2, m, o1); }); }
}
static void hash_ops(long unit) {
  size_t n = 8 + unit; Bytes msg = rnd("h", n); forget(); secret("the message", msg); put(in1, msg);
  auto also = [](const Bytes& d, int w) { digest("the digest", d, w); };
  switch (choose(6)) {
    case 0: also(ref::sha1(msg), 4); claim("sha1", [&] { L->fingera_sha1(in1, n, o1); }); break;
    case 1: also(ref::sha256(msg), 4); claim("sha2_256", [&] { L->fingera_sha2_256(in1, n, o1); }); break;
    case 2: also(ref::sha512(msg), 8); claim("sha2_512", [&] { L->fingera_sha2_512(in1, n, o1); }); break;
    case 3: also(ref::sha256(msg), 4); claim("hash256", [&] { L->fingera_btc_hash256(in1, n, o1); }); break;
    case 4: also(ref::ripemd160(msg), 4); claim("ripemd160", [&] { L->fingera_ripemd160(in1, n, o1); }, nullptr, nullptr, true); break;
    case 5: also(ref::sha256(msg), 4); claim("hash160", [&] { L->fingera_btc_hash160(in1, n, o1); }, nullptr, nullptr, true); break;
  }
}
static void key_ops(long unit) {
  libs_key_init(); int kind = unit; int v = choose(4);
  Bytes key = rnd("k" + std::to_string(v), 32), cc = rnd("c", 32); forget(); secret("the private key", key); put(in1, key); put(in2, cc);
  static const uint32_t ch[4] = {0, 5, 0x80000000u, 0xffffffffu};
  switch (kind) {
    case 0: { uint32_t c = ch[choose(4)]; Bytes k2, c2; secret("the chain code", cc); ref::XKey x{true, 0, 0, Bytes(4, 0), cc, key}, y; if (ref::ckd(x, c, y)) { secret("the derived key", y.key); secret("the derived chain code", y.chain); Bytes I = ref::hmac512(cc, (c >> 31 ? Bytes(1, 0) + key : ref::pub(key)) + ref::be32(c)); digest("the tweak", I, 8); }
      claim(c >> 31 ? "key_derive hardened" : "key_derive", [&] { L->fingera_btc_key_derive(in1, in2, o1, o2, c); }); break; }
    case 1: { uint32_t c = ch[choose(4)]; int deep = choose(2); secret("the chain code", cc); memcpy(X.key, in1, 32); memcpy(X.ext.chain_code, in2, 32); X.ext.depth = deep ? 255 : 3; claim("exkey_derive", [&] { L->fingera_exkey_derive(&X, &Y, c, 1); }); break; }
    case 2: { size_t n = 8 + 8 * choose(24); Bytes seed = rnd("seed", n), I = ref::hmac512("Bitcoin seed", seed); secret("the seed", seed); digest("the master key", I, 8); put(in1, seed); claim("exkey_init", [&] { L->fingera_exkey_init(&Y, in1, n); }); break; }
    case 3: { secret("the chain code", cc); static const int hd[] = {2, 3, 0, 255}; int h = hd[choose(4)]; uint32_t c = ch[choose(4)]; Bytes I = ref::hmac512(cc, Bytes(1, (char)h) + key + ref::be32(c)); digest("the output", I, 8); claim("bip32_hash", [&] { L->fingera_btc_bip32_hash(in2, c, h, in1, o1); }); break; }
    case 4: { int n = choose(2) ? 279 : 214; claim("key_encode", [&] { L->fingera_btc_key_encode(in1, o1, n); }); break; }
    case 5: { int bad = choose(4); Bytes d = Bytes("\x30\x81\xD3\x02\x01\x01\x04\x20", 8) + key + Bytes(171, 0); if (bad == 1) d = d.substr(0, 100); if (bad == 2) d[7] = 31; if (bad == 3) d[4] = 2; put(in1, d); claim("key_decode", [&] { L->fingera_btc_key_decode(in1, d.size(), o1); }); break; }
    case 6: claim("key_get_pub", [&] { L->fingera_btc_key_get_pub(in1, o1); }); break;
    case 7: { put(in2, rnd("h" + std::to_string(choose(4)), 32)); claim("key_sign", [&] { L->fingera_btc_key_sign(in1, in2, o1); }); break; }
    case 8: claim("key_keyid", [&] { L->fingera_btc_key_keyid(in1, v & 1, o1); }); break;
    case 9: forget(); tap = true; claim("key_new", [&] { L->fingera_btc_key_new(o1); }, [&] { secret("the new key", Bytes((char*)o1, 32)); secret("the drawn bytes", Bytes(drawn_buf, ndrawn)); }, [] { forget(); ndrawn = 0; }); tap = false; break;
    case 10: forget(); tap = true; claim("key_init", [&] { L->fingera_btc_key_uninit(); L->fingera_btc_key_init(); }, [&] { secret("the random blinding seed", Bytes(drawn_buf, ndrawn)); }, [] { forget(); ndrawn = 0; }); tap = false; break;
    case 11: { memcpy(X.key, in1, 32); claim("exkey_get_pub", [&] { L->fingera_exkey_get_pub(&X, &Q); }); break; }
    case 12: { memcpy(X.key, in1, 32); claim("exkey_encode", [&] { L->fingera_exkey_encode(&X, o1); L->fingera_exkey_decode(o1, &Y); }); break; }
    case 13: { forget(); Bytes blk = rnd("d64", 128); secret("the input", blk); put(in1, blk); claim("hash256_d64", [&] { L->fingera_btc_hash256_d64(o1, in1, 2); }); break; }
    case 14: { forget(); tap = true; claim("os_rand_bytes", [&] { L->fingera_os_rand_bytes(o1, 64); }, [&] { secret("the random bytes", Bytes(drawn_buf, ndrawn)); }, [] { forget(); ndrawn = 0; }); tap = false; break; }
  }
}
// cleanse: exactly its range, whatever was there
static void cleanse_ops(long unit) {
  size_t n = unit; int al = choose(16), li = choose((int)libs().size()); const Lib& l = libs()[li];
  Bytes seen;
  for (int pat = 0; pat < 4; pat++) {
    static uint8_t b[8192]; for (size_t i = 0; i < n + 64 + al; i++) b[i] = pat == 0 ? 0 : pat == 1 ? 0xCC : pat == 2 ? 0xFF : (uint8_t)(i * 37 + 11); Bytes old((char*)b, n + 64 + al);
    op(); l.fingera_cleanse(b + 32 + al, n); checked();
    for (size_t i = 0; i < 32 + al; i++) if (b[i] != (uint8_t)old[i]) fail("cleanse(%zu) at offset %d (%s build) changes a byte before its range", n, al, l.name.c_str());
    for (size_t i = 32 + al + n; i < n + 64 + al; i++) if (b[i] != (uint8_t)old[i]) fail("cleanse(%zu) at offset %d (%s build) changes a byte after its range", n, al, l.name.c_str());
    Bytes now((char*)b + 32 + al, n);
    if (pat && now != seen) fail("cleanse(%zu) at offset %d (%s build) leaves something of the old contents: %s after %s, %s after zeros", n, al, l.name.c_str(), hex(now, 60).c_str(), hex(old.substr(32 + al, n), 60).c_str(), hex(seen, 60).c_str());
    seen = now;
  }
}
// large ranges: 64 KiB to more than 4 GiB
static void cleanse_large(long unit) {
  const Lib& l = libs()[unit % libs().size()]; static const size_t N[] = {4096, 65535, 65536, 65537, 1 << 20, (1 << 24) + 3, (1ull << 31) + 5, (1ull << 32) + 7}; size_t n = N[unit / libs().size()]; bool big = n > 1 << 30;
  giant::OutMap o(64 << 20, n + 96); if (!big) memset(o.b, 0xE1, n + 96);
  op(); l.fingera_cleanse(o.b + 48, n); checked(); note("cleanse %zu bytes (%s build)", n, l.name.c_str());
  for (auto& w : o.win) {
    size_t left = 0, in = 0;
    for (size_t i = w.first; i < w.second; i++) { bool inside = i >= 48 && i < 48 + n; if (!inside && o.b[i] != 0xE1) fail("cleanse(%zu) (%s build) changes byte %ld of its range", n, l.name.c_str(), (long)i - 48); if (inside) in++, left += o.b[i] == 0xE1; }
    if (in >= 16 && left * 8 > in) fail("cleanse(%zu) (%s build) leaves %zu of the %zu bytes around offset %zu as they were", n, l.name.c_str(), left, in, w.first);
  }
}
static void define() {
  Bytes nb = std::to_string(libs().size()) + " builds of the library"; int B = pick(290, 1200), M = pick(260, 700), H = pick(260, 1200), C = pick(600, 4000);
  add("cleanse", C, cleanse_ops, "every size up to " + std::to_string(C - 1) + ", 16 offsets, 4 contents, " + nb);
  add("cleanse-large", 8 * (long)libs().size(), cleanse_large, "ranges of 4 KiB to more than 4 GiB, " + nb, 200);
  add("base58", B, base58_ops, "payloads of 8 to " + std::to_string(8 + B - 1) + " bytes, both directions, with and without checksum, 6 defects, " + nb);
  add("wif", 3, wif_ops, "private keys to and from text: 3 networks, compressed or not, 16 payload lengths on both sides of the heap switch, 6 defects, right and wrong network, " + nb);
  add("xprv", 2, xprv_ops, "extended private keys to and from text: 14 payload lengths, 6 defects, bad padding, right and wrong network, " + nb);
  add("mac", M, mac_ops, "HMAC keys of 8 to " + std::to_string(8 + M - 1) + " bytes, 14 message sizes, " + nb);
  add("hash", H, hash_ops, "messages of the four digests, hash160 and hash256 of 8 to " + std::to_string(8 + H - 1) + " bytes, " + nb);
  add("key", 15, key_ops, "derivation, master keys, generation, DER, signing and public keys: 4 keys, plain, hardened and refused derivations, bad DER, " + nb);
}
int main(int c, char** v) { load_libs(c, v); return run(c, v, "C22", define, {"the machine registers, and copies in byte order other than the secret's own, are not looked at", "runs of fewer than 16 (optimised builds: 24) secret bytes on the stack are taken for register spills of the compiler"}); }
