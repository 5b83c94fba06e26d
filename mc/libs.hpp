// Several builds of the library, loaded side by side.
#pragma once
#include "api.hpp"
#include <dlfcn.h>
#define MC_API(X) \
  X(fingera_to_base32) X(fingera_to_base32_raw) X(fingera_from_base32_length) X(fingera_from_base32_raw_length) X(fingera_from_base32) X(fingera_from_base32_raw) \
  X(fingera_to_base58) X(fingera_from_base58) X(fingera_to_base64) X(fingera_to_base64_urlsafe) X(fingera_from_base64) X(fingera_from_base64_urlsafe) \
  X(fingera_cleanse) X(fingera_encode_varint) X(fingera_decode_varint) X(fingera_encode_zigzag) X(fingera_decode_zigzag) \
  X(fingera_to_hex) X(fingera_from_hex) X(fingera_hex_dump) X(fingera_os_rand_bytes) \
  X(fingera_to_address_pubkey) X(fingera_to_address_script) X(fingera_to_address_witnessv0_keyhash) X(fingera_to_address_witnessv0_scripthash) X(fingera_to_address_witness_unknown) X(fingera_btc_address_decode) \
  X(fingera_to_base58_check) X(fingera_from_base58_check) X(fingera_bech32_encode) X(fingera_bech32_decode) \
  X(fingera_exkey_init) X(fingera_exkey_derive) X(fingera_exkey_get_pub) X(fingera_expubkey_derive) X(fingera_exkey_encode) X(fingera_exkey_decode) X(fingera_exkey_to_string) X(fingera_exkey_from_string) \
  X(fingera_expubkey_encode) X(fingera_expubkey_decode) X(fingera_expubkey_to_string) X(fingera_expubkey_from_string) \
  X(fingera_btc_hash160) X(fingera_btc_hash256) X(fingera_btc_hash256_d64) X(fingera_btc_bip32_hash) \
  X(fingera_btc_key_init) X(fingera_btc_key_uninit) X(fingera_btc_key_new) X(fingera_btc_key_to_string) X(fingera_btc_key_from_string) X(fingera_btc_key_derive) X(fingera_btc_key_encode) X(fingera_btc_key_decode) X(fingera_btc_key_get_pub) \
  X(fingera_btc_pubkey_derive) X(fingera_btc_pubkey_encode) X(fingera_btc_pubkey_decode) X(fingera_btc_key_sign) X(fingera_btc_signature_encode) X(fingera_btc_signature_decode) X(fingera_btc_key_verify) \
  X(fingera_btc_key_keyid) X(fingera_btc_pubkey_keyid) X(fingera_btc_key_fingerprint) X(fingera_btc_pubkey_fingerprint) \
  X(fingera_ripemd160) X(fingera_sha1) X(fingera_sha2_256) X(fingera_sha2_512) X(fingera_hmac_sha256) X(fingera_hmac_sha512)
namespace mc {
struct Lib {
  std::string name;
#define X(f) decltype(&::f) f;
  MC_API(X)
#undef X
  const chain_parameters* net[3];
};
// the statically linked build first, then every --lib given on the command line
inline std::vector<Lib>& libs() { static std::vector<Lib> v; return v; }
inline void load_libs(int argc, char** argv) {
  Lib s; s.name = "linked";
#define X(f) s.f = &::f;
  MC_API(X)
#undef X
  s.net[0] = &g_mainnet_chain_parameters; s.net[1] = &g_testnet_chain_parameters; s.net[2] = &g_regnet_chain_parameters;
  libs().push_back(s);
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--lib")) {
    const char* p = argv[i + 1]; void* h = dlopen(p, RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "cannot load %s: %s\n", p, dlerror()); exit(2); }
    Lib l; l.name = p; size_t a = l.name.find("so_"); if (a != Bytes::npos) { l.name = l.name.substr(a); l.name = l.name.substr(0, l.name.find('/')); }
#define X(f) l.f = (decltype(l.f))dlsym(h, #f); if (!l.f) { fprintf(stderr, "%s: no %s\n", p, #f); exit(2); }
    MC_API(X)
#undef X
    l.net[0] = (const chain_parameters*)dlsym(h, "g_mainnet_chain_parameters"); l.net[1] = (const chain_parameters*)dlsym(h, "g_testnet_chain_parameters"); l.net[2] = (const chain_parameters*)dlsym(h, "g_regnet_chain_parameters");
    if (!l.net[0] || !l.net[1] || !l.net[2]) { fprintf(stderr, "%s: no chain parameters\n", p); exit(2); }
    libs().push_back(l);
  }
}
inline void libs_key_init() { static pid_t done = 0; if (done != getpid()) { for (auto& l : libs()) l.fingera_btc_key_init(); done = getpid(); } }
}  // namespace mc
