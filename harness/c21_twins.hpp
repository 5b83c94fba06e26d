// Histories of one function and near twins of its arguments: the second call must not be answered from the first one.
#pragma once
namespace twins {
struct Arg { const uint8_t* p; size_t n; };
struct Kind { int grow; std::vector<Bytes> more; };           // grow: the length may change; further values
struct Family { const char* name; bool init; std::vector<Bytes> base; std::vector<Kind> kind; std::function<void(R&, const Arg*, uint8_t*)> f; };
typedef std::vector<Bytes> Values;
static Par net(const Arg& a) { return a.p[0] % 3 == 0 ? MAIN : a.p[0] % 3 == 1 ? TEST : REG; }
static uint32_t num(const Arg& a) { return a.p[0] | a.p[1] << 8 | a.p[2] << 16 | (uint32_t)a.p[3] << 24; }
#define S(i) a[i].p, a[i].n
#define C(i) (const char*)a[i].p, a[i].n
#define FAM(name, init, base, kind, ...) v.push_back({name, init, Values base, std::vector<Kind> kind, [](R& r, const Arg* a, uint8_t* z) { (void)a; (void)z; __VA_ARGS__ }});
static std::vector<Family> make() {
  std::vector<Family> v; static const Kind fixed{0, {}}, any{1, {}};
  static Bytes net0(1, 0), child("\5\0\0\0", 4), flag(1, 1), K = I.key, H = I.hash, CH = I.chain, M = ref::pattern(6, 40), L = ref::pattern(6, 200);
  static const Kind nets{0, {Bytes(1, 1), Bytes(1, 2)}}, flags{0, {Bytes(1, 0)}}, childs{0, {Bytes("\5\0\0\x80", 4), Bytes("\4\0\0\0", 4), Bytes("\xff\xff\xff\x7f", 4)}};
  auto pub = [](const Bytes& k, bool c = true) { return ref::pub(k, c); };
  static Bytes P33 = pub(K), P65 = pub(K, false), N33 = P33; N33[0] ^= 1;      // the negated point: same X
  static Values pubs{N33, pub(I.key2), pub(CH)}; Bytes h65 = P65; h65[0] = 6 + (P65[64] & 1); static Values pubs65{pub(I.key2, false), h65};
  static Kind pk{0, pubs}, pk65{0, pubs65};
  for (const Bytes* m : {&M, &L}) {
    FAM("sha1", false, ({*m}), ({any}), fingera_sha1(S(0), z); r.put(z, 20);)
    FAM("sha256", false, ({*m}), ({any}), fingera_sha2_256(S(0), z); r.put(z, 32);)
    FAM("sha512", false, ({*m}), ({any}), fingera_sha2_512(S(0), z); r.put(z, 64);)
    FAM("ripemd160", false, ({*m}), ({any}), fingera_ripemd160(S(0), z); r.put(z, 20);)
    FAM("hash160", false, ({*m}), ({any}), fingera_btc_hash160(S(0), z); r.put(z, 20);)
    FAM("hash256", false, ({*m}), ({any}), fingera_btc_hash256(S(0), z); r.put(z, 32);)
  }
  FAM("d64", false, ({ref::pattern(5, 192)}), ({fixed}), fingera_btc_hash256_d64(z, a[0].p, 3); r.put(z, 96);)
  FAM("hmac256", false, ({K, M}), ({any, any}), fingera_hmac_sha256(S(0), S(1), z); r.put(z, 32);)
  FAM("hmac512", false, ({K, M}), ({any, any}), fingera_hmac_sha512(S(0), S(1), z); r.put(z, 64);)
  FAM("hmac256 long key", false, ({L, K}), ({any, any}), fingera_hmac_sha256(S(0), S(1), z); r.put(z, 32);)
  FAM("hmac512 long key", false, ({L, K}), ({any, any}), fingera_hmac_sha512(S(0), S(1), z); r.put(z, 64);)
  FAM("bip32_hash", false, ({CH, child, flag, K}), ({fixed, childs, flags, fixed}), fingera_btc_bip32_hash(a[0].p, num(a[1]), a[2].p[0], a[3].p, z); r.put(z, 64);)
  FAM("to_hex", false, ({M, flag}), ({any, flags}), fingera_to_hex(S(0), (char*)z, a[1].p[0] & 1); r.put(z, 2 * a[0].n);)
  FAM("from_hex", false, ({ref::hexs(M, false)}), ({any}), ask_str(r, fingera_from_hex(C(0), z)); r.put(z, 0);)
  FAM("to_base64", false, ({M}), ({any}), fingera_to_base64(S(0), (char*)z); r.put(z, (a[0].n + 2) / 3 * 4); fingera_to_base64_urlsafe(S(0), (char*)z); r.put(z, a[0].n * 4 / 3);)
  FAM("from_base64", false, ({ref::base64(M, false)}), ({any}), size_t n = fingera_from_base64(C(0), z); r.num(n); r.put(z, n); n = fingera_from_base64_urlsafe(C(0), z); r.num(n); r.put(z, n);)
  FAM("to_base32", false, ({M}), ({any}), fingera_to_base32(S(0), (char*)z); r.put(z, (a[0].n + 4) / 5 * 8); size_t n = fingera_to_base32_raw(S(0), z); r.num(n); r.put(z, n);)
  FAM("from_base32", false, ({ref::base32(M)}), ({any}), size_t n = fingera_from_base32(C(0), z); r.num(n); r.put(z, n);)
  FAM("to_base58", false, ({M}), ({any}), size_t n = fingera_to_base58(S(0), (char*)z); r.num(n); r.put(z, n);)
  FAM("to_base58 long", false, ({L}), ({any}), size_t n = fingera_to_base58(S(0), (char*)z); r.num(n); r.put(z, n);)
  FAM("from_base58", false, ({I.b58}), ({any}), size_t n = fingera_from_base58(C(0), z); r.num(n); r.put(z, n);)
  FAM("from_base58 long", false, ({I.b58long}), ({any}), size_t n = fingera_from_base58(C(0), z); r.num(n); r.put(z, n);)
  FAM("to_base58_check", false, ({M, Bytes("\4\x88", 2)}), ({any, any}), size_t n = fingera_to_base58_check(S(0), S(1), (char*)z); r.num(n); r.put(z, n);)
  static Kind checks{1, {}}; for (int i = 0; i < 40; i++) { Bytes m = M; m[i] ^= 1; checks.more.push_back(ref::base58check(m)); }
  FAM("from_base58_check", false, ({ref::base58check(M)}), ({checks}), size_t n = fingera_from_base58_check(C(0), z); r.num(n); r.put(z, n);)
  FAM("to_wif", false, ({K, flag, net0}), ({fixed, flags, nets}), size_t n = fingera_btc_key_to_string(a[0].p, (char*)z, a[1].p[0] & 1, net(a[2])); r.num(n); r.put(z, n);)
  static Kind wifs{1, {}}; for (int i = 0; i < 32; i++) { Bytes k = K; k[i] ^= 1; for (const char* p : {"\x80", "\xef"}) for (const char* q : {"", "\1"}) wifs.more.push_back(ref::base58check(p + k + q)); } wifs.more.push_back(ref::base58check("\x80" + K)); wifs.more.push_back(ref::base58check("\xef" + K + "\1"));
  FAM("from_wif", false, ({I.wif, net0}), ({wifs, nets}), int c = -5, k = fingera_btc_key_from_string(C(0), z, &c, net(a[1])); r.num(k); if (k) { r.num(c); r.put(z, 32); })
  FAM("to_xprv", false, ({I.e74, net0}), ({fixed, nets}), fingera_ex_key k; memset(&k, 0, sizeof k); fingera_exkey_decode(a[0].p, &k); size_t n = fingera_exkey_to_string(&k, (char*)z, net(a[1])); r.num(n); r.put(z, n); fingera_exkey_encode(&k, z); r.put(z, 74);)
  static Bytes x74 = I.e74.substr(0, 41) + P33;
  FAM("to_xpub", false, ({x74, net0}), ({fixed, nets}), fingera_ex_pubkey k; memset(&k, 0, sizeof k); fingera_expubkey_decode(a[0].p, &k); size_t n = fingera_expubkey_to_string(&k, (char*)z, net(a[1])); r.num(n); r.put(z, n); fingera_expubkey_encode(&k, z); r.put(z, 74);)
  static Kind xprvs{1, {}}, xpubs{1, {}}; for (int i = 0; i < 74; i++) { Bytes e = I.e74, q = x74; e[i] ^= 1; q[i] ^= 1; for (uint32_t p : {0x0488ADE4u, 0x04358394u}) xprvs.more.push_back(ref::base58check(ref::be32(p) + e)); for (uint32_t p : {0x0488B21Eu, 0x043587CFu}) xpubs.more.push_back(ref::base58check(ref::be32(p) + q)); }
  FAM("from_xprv", false, ({I.xprv, net0}), ({xprvs, nets}), fingera_ex_key k; int c = fingera_exkey_from_string(C(0), &k, net(a[1])); r.num(c); if (c) { r.num(k.ext.depth); r.num(k.ext.child); r.num(k.ext.fingerprint); r.put(k.ext.chain_code, 32); r.put(k.key, 32); })
  FAM("from_xpub", false, ({I.xpub, net0}), ({xpubs, nets}), fingera_ex_pubkey k; int c = fingera_expubkey_from_string(C(0), &k, net(a[1])); r.num(c); if (c) { r.num(k.ext.depth); r.num(k.ext.child); r.num(k.ext.fingerprint); r.put(k.ext.chain_code, 32); r.put(k.c_pubkey, 33); })
  FAM("to_address", false, ({ref::pattern(5, 20), net0}), ({fixed, nets}), size_t n = fingera_to_address_pubkey(a[0].p, 20, (char*)z, 99, net(a[1])); r.num(n); r.put(z, n); n = fingera_to_address_script(a[0].p, 20, (char*)z, 99, net(a[1])); r.num(n); r.put(z, n); n = fingera_to_address_witnessv0_keyhash(a[0].p, 20, (char*)z, 99, net(a[1])); r.num(n); r.put(z, n);)
  FAM("to_address script", false, ({ref::pattern(5, 32), net0}), ({fixed, nets}), size_t n = fingera_to_address_witnessv0_scripthash(a[0].p, 32, (char*)z, 99, net(a[1])); r.num(n); r.put(z, n);)
  FAM("to_address unknown", false, ({Bytes(1, 3) + ref::pattern(5, 20), net0}), ({any, nets}), size_t n = fingera_to_address_witness_unknown(S(0), (char*)z, 99, net(a[1])); r.num(n); r.put(z, n);)
  static Kind addrs{1, {}}; for (int i = 0; i < 20; i++) { Bytes m = ref::pattern(5, 20); m[i] ^= 1; for (int p : {0, 5, 111, 196}) addrs.more.push_back(ref::base58check(Bytes(1, (char)p) + m)); for (const char* h : {"bc", "tb", "bcrt"}) for (int ver : {0, 1}) addrs.more.push_back(ref::bech32(h, Bytes(1, (char)ver) + ref::base32_raw(m))); }
  FAM("from_address", false, ({I.addr, net0}), ({addrs, nets}), size_t n = 400; int k = fingera_btc_address_decode(C(0), z, &n, net(a[1])); r.num(k); if (k != BTC_BAD_ADDRESS) { r.num(n); r.put(z, n); })
  FAM("from_address segwit", false, ({I.seg, net0}), ({addrs, nets}), size_t n = 400; int k = fingera_btc_address_decode(C(0), z, &n, net(a[1])); r.num(k); if (k != BTC_BAD_ADDRESS) { r.num(n); r.put(z, n); })
  FAM("bech32_encode", false, ({Bytes("abcd"), ref::base32_raw(ref::pattern(5, 20))}), ({fixed, fixed}), static uint8_t d[64]; for (size_t i = 0; i < a[1].n; i++) d[i] = a[1].p[i] & 31; fingera_bech32_encode(C(0), d, a[1].n, (char*)z); r.put(z, fingera_bech32_encode_length(a[0].n, a[1].n));)
  static Kind becs{1, {}}; for (int i = 0; i < 32; i++) { Bytes d = ref::base32_raw(ref::pattern(5, 20)); d[i] ^= 1; becs.more.push_back(ref::bech32("abcd", d)); } for (const char* h : {"abce", "bbcd", "abc", "abcde"}) becs.more.push_back(ref::bech32(h, ref::base32_raw(ref::pattern(5, 20))));
  FAM("bech32_decode", false, ({ref::bech32("abcd", ref::base32_raw(ref::pattern(5, 20)))}), ({becs}), size_t h = 80; int n = fingera_bech32_decode(C(0), (char*)o2, &h, z); r.num(n); if (n >= 0) { r.num(h); r.put(o2, h); r.put(z, n); })
  FAM("varint", false, ({Bytes(8, 0x35)}), ({fixed}), uint64_t x; memcpy(&x, a[0].p, 8); size_t n = fingera_encode_varint(x, z); r.put(z, n); r.num(fingera_decode_varint(z, n, &x)); r.num(x); n = fingera_encode_zigzag((int64_t)x, z); r.put(z, n); int64_t y; r.num(fingera_decode_zigzag(z, n, &y)); r.num(y); n = fingera_decode_varint(S(0), &x); r.num(n); if (n) r.num(x);)
  FAM("get_pub", true, ({K}), ({fixed}), fingera_btc_key_get_pub(a[0].p, z); r.num(fingera_btc_pubkey_encode(z, o2, 65)); r.put(o2, 65);)
  FAM("pubkey_codec", true, ({P33}), ({pk}), int c = fingera_btc_pubkey_decode(a[0].p, 33, z); r.num(c); if (c) { r.num(fingera_btc_pubkey_encode(z, o2, 65)); r.put(o2, 65); r.num(fingera_btc_pubkey_encode(z, o2, 33)); r.put(o2, 33); })
  FAM("pubkey_codec 65", true, ({P65}), ({pk65}), int c = fingera_btc_pubkey_decode(a[0].p, 65, z); r.num(c); if (c) { r.num(fingera_btc_pubkey_encode(z, o2, 33)); r.put(o2, 33); })
  FAM("sign", true, ({K, H}), ({fixed, fixed}), fingera_btc_key_sign(a[0].p, a[1].p, z); size_t n = fingera_btc_signature_encode(z, o2); r.num(n); r.put(o2, n);)
  static Kind ders{1, {}}; for (int i = 0; i < 8; i++) { Bytes h = H; h[i * 4] ^= 1; ders.more.push_back(ref::der_sig(ref::sign_low_r(K, h))); }
  FAM("verify", true, ({P33, H, I.der}), ({pk, fixed, ders}), if (!fingera_btc_pubkey_decode(a[0].p, 33, z)) { r.num(-1); return; } static uint8_t sg[64]; int c = fingera_btc_signature_decode(S(2), sg); r.num(c); if (c) { r.num(fingera_btc_key_verify(z, a[1].p, sg)); size_t n = fingera_btc_signature_encode(sg, o2); r.num(n); r.put(o2, n); })
  FAM("derive", true, ({K, CH, child}), ({fixed, fixed, childs}), int c = fingera_btc_key_derive(a[0].p, a[1].p, z, z + 64, num(a[2])); r.num(c); if (c) { r.put(z, 32); r.put(z + 64, 32); })
  FAM("derive hardened", true, ({K, CH, Bytes("\5\0\0\x80", 4)}), ({fixed, fixed, childs}), int c = fingera_btc_key_derive(a[0].p, a[1].p, z, z + 64, num(a[2])); r.num(c); if (c) { r.put(z, 32); r.put(z + 64, 32); })
  FAM("pubkey_derive", true, ({P33, CH, child}), ({pk, fixed, childs}), int c = fingera_btc_pubkey_derive(a[0].p, a[1].p, z, z + 64, num(a[2])); r.num(c); if (c) { r.put(z, 33); r.put(z + 64, 32); })
  FAM("exkey_derive", true, ({I.e74, child, Bytes("\1\2\3\4")}), ({fixed, childs, fixed}), fingera_ex_key k; static fingera_ex_key d; fingera_exkey_decode(a[0].p, &k); int c = fingera_exkey_derive(&k, &d, num(a[1]), num(a[2])); r.num(c); if (c) { fingera_exkey_encode(&d, z); r.put(z, 74); })
  FAM("expubkey_derive", true, ({x74, child, Bytes("\1\2\3\4")}), ({fixed, childs, fixed}), fingera_ex_pubkey k; static fingera_ex_pubkey d; fingera_expubkey_decode(a[0].p, &k); int c = fingera_expubkey_derive(&k, &d, num(a[1]), num(a[2])); r.num(c); if (c) { fingera_expubkey_encode(&d, z); r.put(z, 74); })
  FAM("exkey_get_pub", true, ({I.e74}), ({fixed}), fingera_ex_key k; static fingera_ex_pubkey d; fingera_exkey_decode(a[0].p, &k); fingera_exkey_get_pub(&k, &d); fingera_expubkey_encode(&d, z); r.put(z, 74);)
  FAM("master", false, ({I.seed}), ({any}), static fingera_ex_key d; fingera_exkey_init(&d, S(0)); fingera_exkey_encode(&d, z); r.put(z, 74);)
  FAM("key_encode", true, ({K, flag}), ({fixed, flags}), size_t n = a[1].p[0] & 1 ? 214 : 279; r.num(fingera_btc_key_encode(a[0].p, z, n)); r.put(z, n);)
  FAM("key_decode", true, ({I.dkey}), ({any}), int c = fingera_btc_key_decode(S(0), z); r.num(c); if (c) r.put(z, 32);)
  FAM("keyid", true, ({K, flag}), ({fixed, flags}), fingera_btc_key_keyid(a[0].p, a[1].p[0] & 1, z); r.put(z, 20); r.num(fingera_btc_key_fingerprint(a[0].p, a[1].p[0] & 1));)
  FAM("fingerprint", true, ({P33}), ({pk}), r.num(fingera_btc_pubkey_fingerprint(a[0].p)); if (fingera_btc_pubkey_decode(a[0].p, 33, z)) { fingera_btc_pubkey_keyid(z, 0, o2); r.put(o2, 20); fingera_btc_pubkey_keyid(z, 1, o2); r.put(o2, 20); })
  return v;
}
#undef S
#undef C
struct Variant { Values a; std::string what; int base; };
static std::vector<Variant> variants(const Family& f) {
  std::vector<Variant> v; std::vector<Values> bases{f.base};     // also with every small argument (flag, network, child number) replaced
  for (size_t k = 0; k < f.base.size(); k++) if (f.base[k].size() <= 4) for (auto& m : f.kind[k].more) { Values t = f.base; t[k] = m; bases.push_back(t); }
  for (const Values& B : bases) { size_t at = v.size(); std::string tag = at ? " (base " + std::to_string(&B - &bases[0]) + ")" : ""; v.push_back({B, "base" + tag, (int)at});
  for (size_t k = 0; k < f.base.size(); k++) {
    const Bytes& b = B[k]; auto put = [&](const Bytes& x, const std::string& w) { if (x == b) return; Variant t{B, "argument " + std::to_string(k) + " " + w + tag, (int)at}; t.a[k] = x; v.push_back(t); };
    for (size_t j = 0; j < b.size(); j++) { Bytes x = b; if (b.size() <= 8) for (int q = 0; q < 8; q++) { x = b; x[j] ^= 1 << q; put(x, "byte " + std::to_string(j) + " bit " + std::to_string(q)); } else for (int q : {1, 0x80}) { x = b; x[j] ^= q; put(x, "byte " + std::to_string(j) + " ^ " + std::to_string(q)); } }
    if (f.kind[k].grow) { put(b.substr(0, b.size() - 1), "one byte shorter"); put(b + Bytes(1, 0), "a zero byte longer"); put(b.substr(1), "without its first byte"); put(Bytes(1, 0) + b, "a zero byte in front"); if (b.size()) put(b + Bytes(1, '1'), "a 1 longer"); }
    for (size_t q = 0; q < f.kind[k].more.size(); q++) put(f.kind[k].more[q], "value " + std::to_string(q));
  } }
  return v;
}
static const std::vector<Family>& fams() { static const std::vector<Family> v = make(); return v; }
static const std::vector<Variant>& vars(int f) { static std::map<int, std::vector<Variant>> m; auto it = m.find(f); if (it == m.end()) it = m.emplace(f, variants(fams()[f])).first; return it->second; }
// One call. where: which of two sets of buffers holds the arguments and the result.
static void call(const Family& f, const Variant& v, int where, R& r) {
  static uint8_t in[2][4][1024], z[2][4096];
  Arg a[4]; for (size_t k = 0; k < v.a.size(); k++) { memset(in[where][k], 0x77, 1024); memcpy(in[where][k], v.a[k].data(), v.a[k].size()); a[k] = {in[where][k], v.a[k].size()}; }
  memset(z[where], 0x5A, sizeof z[0]); memset(o2, 0x5A, sizeof o2); r.n = 0; f.f(r, a, z[where]);
}
static uint64_t digest(const R& r) { uint64_t v = 14695981039346656037ull; for (size_t q = 0; q < r.n; q++) v = (v ^ r.b[q]) * 1099511628211ull; return v ^ r.n; }
struct Shared { uint64_t h[4096]; char m[4096]; };
static Shared* now_shared; static pid_t shared_owner;          // of this worker and its children
static Shared& shared() { if (!now_shared) now_shared = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return *now_shared; }
static void in_child(const std::function<void()>& g, const char* what) {
  if (shared_owner != getpid()) { now_shared = nullptr; shared_owner = getpid(); }
  shared().m[0] = 0; fflush(stdout); pid_t p = fork();
  if (p == 0) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); alarm(100); g(); _exit(0); }
  int st; waitpid(p, &st, 0); if (shared().m[0]) fail("%s", shared().m); if (!WIFEXITED(st) || WEXITSTATUS(st)) fail("%s ends the process (status %x)", what, st);
}
static uint64_t fresh(int fi, int vi) {
  static std::map<std::pair<int, int>, uint64_t> seen; auto it = seen.find({fi, vi}); if (it != seen.end()) return it->second;
  const Family& f = fams()[fi]; const Variant& v = vars(fi)[vi];
  in_child([&] { if (f.init) fingera_btc_key_init(); static R r; call(f, v, 0, r); shared().h[0] = digest(r); }, (std::string(f.name) + ", " + v.what + ", in a fresh process").c_str());
  return seen[{fi, vi}] = shared().h[0];
}
static void sequence(int fi, const std::vector<std::pair<int, int>>& s) {    // (variant, place)
  const Family& f = fams()[fi]; std::string t; for (auto& x : s) { t += vars(fi)[x.first].what; t += x.second ? " @2, " : ", "; if (t.size() > 300) { t += "..."; break; } }
  note("%s: %s", f.name, t.c_str()); op(s.size());
  std::vector<uint64_t> want; for (auto& x : s) want.push_back(fresh(fi, x.first));
  in_child([&] { if (f.init) fingera_btc_key_init(); static R r; for (size_t k = 0; k < s.size(); k++) { call(f, vars(fi)[s[k].first], s[k].second, r); if (digest(r) != want[k]) { snprintf(shared().m, 4096, "%s: call %zu (%s) of the history [%s] does not return what it returns in a fresh process, but %s", f.name, k + 1, vars(fi)[s[k].first].what.c_str(), t.c_str(), hex(r.b, r.n, 160).c_str()); _exit(9); } } }, t.c_str());
  checked();
}
static void twin(long fi) {
  int n = (int)vars((int)fi).size(), v = 1 + choose(n - 1), b = vars((int)fi)[v].base;
  if (v == b) b = 0;
  if (!thorough()) { sequence((int)fi, {{b, 0}, {v, 0}, {b, 0}, {v, 1}, {v, 0}, {b, 1}, {v, 1}}); return; }
  int step = n > 250 ? 3 : 1, w = b + (v - b) % step + step * choose((n - b + step - 1) / step); if (w >= n || w == v || vars((int)fi)[w].base != b) return;
  sequence((int)fi, {{w, 0}, {v, 0}, {w, 0}, {v, 1}, {b, 0}, {w, 1}, {v, 0}});
}
static void parade(long fi) {      // all twins in one process, in several orders
  int n = (int)vars((int)fi).size(), how = choose(4); std::vector<std::pair<int, int>> s;
  for (int round = 0; round < 2; round++) for (int i = 0; i < n; i++) s.push_back({how == 0 ? i : how == 1 ? n - 1 - i : how == 2 ? (i % 2 ? 0 : i) : (i / 3 + i % 3) % n, how == 3 ? i & 1 : 0});
  sequence((int)fi, s);
}
// Calls of g, each preceded by a call of f: what f keeps must not answer g.
static void cross(long fi) {
  int gi = choose((int)fams().size()), n = (int)vars(gi).size(), step = thorough() ? 1 : 1 + n / 50; const Family &f = fams()[fi], &g = fams()[gi];
  note("%s before each of %d calls of %s", f.name, n / step, g.name); op(2 * n / step);
  std::vector<uint64_t> want; for (int v = 0; v < n; v += step) want.push_back(fresh(gi, v));
  in_child([&] { if (f.init || g.init) fingera_btc_key_init(); static R r; size_t k = 0; const std::vector<Variant>& fv = vars((int)fi);
    for (int v = 0; v < n; v += step, k++) { call(f, fv[k % fv.size()], 0, r); call(g, vars(gi)[v], 0, r); if (digest(r) != want[k]) { snprintf(shared().m, 4096, "%s (%s), called after %s (%s), does not return what it returns in a fresh process, but %s", g.name, vars(gi)[v].what.c_str(), f.name, fv[k % fv.size()].what.c_str(), hex(r.b, r.n, 160).c_str()); _exit(9); } } }, g.name);
  checked();
}
}  // namespace twins
