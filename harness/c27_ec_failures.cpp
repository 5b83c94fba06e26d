// C27: every placement of a failure among the elliptic-curve operations beneath a call.
// LINK: -Wl,--wrap=secp256k1_ecdsa_signature_parse_compact -Wl,--wrap=secp256k1_ec_seckey_verify
// LINK: -Wl,--wrap=secp256k1_ec_privkey_tweak_add -Wl,--wrap=secp256k1_ec_seckey_tweak_add -Wl,--wrap=secp256k1_ec_pubkey_create
// LINK: -Wl,--wrap=secp256k1_ec_pubkey_parse -Wl,--wrap=secp256k1_ec_pubkey_tweak_add -Wl,--wrap=secp256k1_ec_pubkey_serialize
// LINK: -Wl,--wrap=secp256k1_ecdsa_sign -Wl,--wrap=secp256k1_ecdsa_signature_serialize_der -Wl,--wrap=secp256k1_ecdsa_verify
// LINK: -Wl,--wrap=secp256k1_ecdsa_signature_parse_der -Wl,--wrap=secp256k1_ec_pubkey_negate -Wl,--wrap=secp256k1_ec_pubkey_combine
#include "ossim.hpp"
#include "ref.hpp"
#include <secp256k1.h>
using namespace mc;
static int budget = -1, injected = 0, calls = 0; static bool keep = false;   // a failing call leaves its output as it was
 static std::string trace;
static bool inject(const char* name) {
  if (budget < 0) return false;
  calls++;
  if (calls > 2000) { fail_later("calls %s without end", name); ossim::stop(1); }
  if (budget > 0 && choose(2)) { budget--; injected++; trace += std::string(name) + "(call " + std::to_string(calls) + ") fails; "; return true; }
  return false;
}
template <class F> static int fails_clean(const char* name, F clear) { if (!inject(name)) return 0; clear(); return 1; }
extern "C" {
#define WRAP(ret, name, params, args, onfail) \
  ret __real_##name params; \
  ret __wrap_##name params { if (inject(#name)) { if (!keep) { onfail; } return 0; } return __real_##name args; }
typedef const secp256k1_context C_; typedef secp256k1_pubkey P_; typedef secp256k1_ecdsa_signature S_; typedef unsigned char U_;
// (parsing 64 zero bytes is how the lax decoder makes the signature that never verifies: it cannot fail)
int __real_secp256k1_ecdsa_signature_parse_compact(C_* c, S_* s, const U_* i);
int __wrap_secp256k1_ecdsa_signature_parse_compact(C_* c, S_* s, const U_* i) { static const U_ z[64] = {0}; if (memcmp(i, z, 64) && inject("secp256k1_ecdsa_signature_parse_compact")) { if (!keep) memset(s, 0, sizeof *s); return 0; } return __real_secp256k1_ecdsa_signature_parse_compact(c, s, i); }
WRAP(int, secp256k1_ecdsa_signature_parse_der, (C_* c, S_* s, const U_* i, size_t n), (c, s, i, n), memset(s, 0, sizeof *s))
WRAP(int, secp256k1_ec_seckey_verify, (C_* c, const U_* k), (c, k), )
WRAP(int, secp256k1_ec_privkey_tweak_add, (C_* c, U_* k, const U_* t), (c, k, t), memset(k, 0, 32))
WRAP(int, secp256k1_ec_seckey_tweak_add, (C_* c, U_* k, const U_* t), (c, k, t), memset(k, 0, 32))
WRAP(int, secp256k1_ec_pubkey_parse, (C_* c, P_* p, const U_* i, size_t n), (c, p, i, n), memset(p, 0, sizeof *p))
WRAP(int, secp256k1_ec_pubkey_tweak_add, (C_* c, P_* p, const U_* t), (c, p, t), memset(p, 0, sizeof *p))
WRAP(int, secp256k1_ec_pubkey_negate, (C_* c, P_* p), (c, p), memset(p, 0, sizeof *p))
WRAP(int, secp256k1_ec_pubkey_combine, (C_* c, P_* p, const P_* const* i, size_t n), (c, p, i, n), memset(p, 0, sizeof *p))
// (these always clear their result)
int __real_secp256k1_ec_pubkey_create(C_* c, P_* p, const U_* k);
int __wrap_secp256k1_ec_pubkey_create(C_* c, P_* p, const U_* k) { if (fails_clean("secp256k1_ec_pubkey_create", [&] { memset(p, 0, sizeof *p); })) return 0; return __real_secp256k1_ec_pubkey_create(c, p, k); }
int __real_secp256k1_ec_pubkey_serialize(C_* c, U_* o, size_t* n, const P_* p, unsigned f);
int __wrap_secp256k1_ec_pubkey_serialize(C_* c, U_* o, size_t* n, const P_* p, unsigned f) { if (fails_clean("secp256k1_ec_pubkey_serialize", [&] { memset(o, 0, *n); *n = 0; })) return 0; return __real_secp256k1_ec_pubkey_serialize(c, o, n, p, f); }
int __real_secp256k1_ecdsa_sign(C_* c, S_* s, const U_* m, const U_* k, secp256k1_nonce_function f, const void* d);
int __wrap_secp256k1_ecdsa_sign(C_* c, S_* s, const U_* m, const U_* k, secp256k1_nonce_function f, const void* d) { if (fails_clean("secp256k1_ecdsa_sign", [&] { memset(s, 0, sizeof *s); })) return 0; return __real_secp256k1_ecdsa_sign(c, s, m, k, f, d); }
int __real_secp256k1_ecdsa_signature_serialize_der(C_* c, U_* o, size_t* n, const S_* s);
int __wrap_secp256k1_ecdsa_signature_serialize_der(C_* c, U_* o, size_t* n, const S_* s) { if (fails_clean("secp256k1_ecdsa_signature_serialize_der", [&] { *n = 0; })) return 0; return __real_secp256k1_ecdsa_signature_serialize_der(c, o, n, s); }
WRAP(int, secp256k1_ecdsa_verify, (C_* c, const S_* s, const U_* m, const P_* p), (c, s, m, p), )
}
struct Fix { Bytes key, hash, pub33, pub65, chain, sig; uint8_t pub64[64], sig64[64]; };
static Fix fix(int i) {
  Fix f; f.key = i == 0 ? ref::pattern(5, 32) : i == 1 ? ref::add_int(Bytes(32, 0), 1) : i == 2 ? ref::add_int(ref::order(), -1) : ref::sha256("k" + std::to_string(i));
  f.hash = ref::sha256("h" + std::to_string(i)); f.chain = ref::pattern(6, 32); f.pub33 = ref::pub(f.key); f.pub65 = ref::pub(f.key, false);
  fingera_btc_key_get_pub(f.key.data(), f.pub64); fingera_btc_key_sign(f.key.data(), f.hash.data(), f.sig64); f.sig = ref::der_sig(ref::sign_low_r(f.key, f.hash));
  return f;
}
static uint8_t out[512], out2[512];
struct Op { const char* name; std::function<long(Fix&)> f; };
static const std::vector<Op>& ops() {
  static std::vector<Op> v; if (!v.empty()) return v;
  for (uint32_t ch : {0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) {
    v.push_back({ch >> 31 ? "key_derive hardened" : "key_derive", [ch](Fix& f) -> long { return fingera_btc_key_derive(f.key.data(), f.chain.data(), out, out2, ch); }});
    v.push_back({ch >> 31 ? "exkey_derive hardened" : "exkey_derive", [ch](Fix& f) -> long { fingera_ex_key k, d; memset(&k, 0, sizeof k); memcpy(k.key, f.key.data(), 32); memcpy(k.ext.chain_code, f.chain.data(), 32); return fingera_exkey_derive(&k, &d, ch, 7); }});
    if (ch >> 31) continue;
    v.push_back({"pubkey_derive", [ch](Fix& f) -> long { return fingera_btc_pubkey_derive(f.pub33.data(), f.chain.data(), out, out2, ch); }});
    v.push_back({"expubkey_derive", [ch](Fix& f) -> long { fingera_ex_pubkey k, d; memset(&k, 0, sizeof k); memcpy(k.c_pubkey, f.pub33.data(), 33); memcpy(k.ext.chain_code, f.chain.data(), 32); return fingera_expubkey_derive(&k, &d, ch, 7); }});
  }
  v.push_back({"key_encode 279", [](Fix& f) -> long { return fingera_btc_key_encode(f.key.data(), out, 279); }});
  v.push_back({"key_encode 214", [](Fix& f) -> long { return fingera_btc_key_encode(f.key.data(), out, 214); }});
  for (bool c : {true, false}) v.push_back({"key_decode", [c](Fix& f) -> long { uint8_t d[279]; size_t n = c ? 214 : 279; int save = budget; budget = -1; fingera_btc_key_encode(f.key.data(), d, n); budget = save; memset(out, 0x77, 32); int r = fingera_btc_key_decode(d, n, out); if (!r && memcmp(out, f.key.data(), 32) == 0) fail_later("key_decode failed but left the key in its output"); return r; }});
  v.push_back({"pubkey_encode 33", [](Fix& f) -> long { return fingera_btc_pubkey_encode(f.pub64, out, 33); }});
  v.push_back({"pubkey_encode 65", [](Fix& f) -> long { return fingera_btc_pubkey_encode(f.pub64, out, 65); }});
  v.push_back({"pubkey_decode 33", [](Fix& f) -> long { return fingera_btc_pubkey_decode(f.pub33.data(), 33, out); }});
  v.push_back({"pubkey_decode 65", [](Fix& f) -> long { return fingera_btc_pubkey_decode(f.pub65.data(), 65, out); }});
  v.push_back({"signature_encode", [](Fix& f) -> long { return (long)fingera_btc_signature_encode(f.sig64, out); }});
  v.push_back({"key_verify", [](Fix& f) -> long { return fingera_btc_key_verify(f.pub64, f.hash.data(), f.sig64); }});
  // The last three report through what they produce: a signature that does not verify.
  v.push_back({"signature_decode", [](Fix& f) -> long { memcpy(out, f.sig64, 64); int r = fingera_btc_signature_decode(f.sig.data(), f.sig.size(), out); int b = budget; budget = -1; if (r) r = fingera_btc_key_verify(f.pub64, f.hash.data(), out); budget = b; return r; }});
  v.push_back({"key_sign", [](Fix& f) -> long { memset(out, 0x11, 64); if (keep) memcpy(out, f.sig64, 64); fingera_btc_key_sign(f.key.data(), f.hash.data(), out); int b = budget; budget = -1; int r = fingera_btc_key_verify(f.pub64, f.hash.data(), out); budget = b; return r; }});
  return v;
}
static void define() {
  static int K = pick(24, 200);
  add("failures", (long)ops().size() * K, [](long u) {
    keep = choose(2);
    key_init(); budget = -1; Fix f = fix((int)(u / ops().size())); const Op& o = ops()[u % ops().size()];
    ossim::reset(0); injected = calls = 0; trace.clear(); budget = 3; long r = -1; op();
    bool returned = ossim::run([&] { r = o.f(f); });
    budget = -1; checked(); extra(calls);
    note("%s: %s(outputs %s) -> %s", o.name, trace.c_str(), keep ? "untouched" : "cleared", returned ? std::to_string(r).c_str() : "process stopped");
    if (injected && returned && r) fail("%s returned %ld (success) for key %s although: %s", o.name, r, hex(f.key).c_str(), trace.c_str());
    if (!injected && !returned) fail("%s stopped the process although nothing failed", o.name);
    if (!injected && !r) fail("%s failed although nothing beneath it failed, key %s", o.name, hex(f.key).c_str());
    if (!returned && ossim::W().status == 0) fail("%s ended the process with status 0", o.name);
  }, std::to_string(ops().size()) + " operations x " + std::to_string(K) + " keys: every set of up to 3 failing elliptic-curve calls, on a build without assertions");
  int M = pick(3000, 60000);
  add("mismatches", M, [](long u) {                 // verification that fails by itself
    key_init(); budget = -1; Fix f = fix(100 + (int)(u / 3)); Bytes h = f.hash; uint8_t s[64], p[64]; memcpy(s, f.sig64, 64); memcpy(p, f.pub64, 64);
    if (u % 3 == 0) { Bytes k = f.key; k[31] ^= 1; fingera_btc_key_get_pub(k.data(), p); } else if (u % 3 == 1) h[u % 32] ^= (char)(1 << u / 3 % 8); else s[u % 64] ^= (uint8_t)(1 << u / 3 % 8);
    int neg = choose(2); op(); checked();
    if (neg) { Bytes c(64, 0); const C_* x = secp256k1_context_no_precomp; secp256k1_ecdsa_signature_serialize_compact(x, (U_*)&c[0], (S_*)s); ref::BN t(c.substr(32)), r; BN_sub(r, ref::C().n, t); c = c.substr(0, 32) + ref::be(r); if (!secp256k1_ecdsa_signature_parse_compact(x, (S_*)s, (const U_*)c.data())) return; }
    note("verify with the wrong %s, %s S", u % 3 == 0 ? "key" : u % 3 == 1 ? "hash" : "signature", neg ? "negated" : "the same");
    if (fingera_btc_key_verify(p, h.data(), s)) fail("key_verify accepts signature %s for hash %s although it does not verify", hex(s, 64).c_str(), hex(h).c_str());
  }, "verification with one bit of the hash or the signature, or the key, changed; both forms of S");
}
int main(int c, char** v) { return run(c, v, "C27", define, {"a failing libsecp256k1 call returns 0 and leaves its output as libsecp256k1 0.2.0 does", "stopping the process (libsecp256k1's illegal-argument handler) is not passing a failure off as success"}); }
