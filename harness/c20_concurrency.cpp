// C20: calls made at the same time from several threads return what each returns alone, under every interleaving.
// LINK: -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=memchr,--wrap=strlen,--wrap=strcmp,--wrap=strncmp,--wrap=strchr,--wrap=strcpy,--wrap=strncpy
// LINK: -Wl,--wrap=getrandom,--wrap=getentropy,--wrap=open,--wrap=read,--wrap=close,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=pthread_once
// LINK: -Wl,--wrap=secp256k1_context_create,--wrap=secp256k1_context_destroy,--wrap=secp256k1_context_randomize,--wrap=secp256k1_ec_seckey_verify,--wrap=secp256k1_ec_pubkey_create,--wrap=secp256k1_ec_pubkey_parse,--wrap=secp256k1_ec_pubkey_serialize,--wrap=secp256k1_ec_pubkey_tweak_add
// LINK: -Wl,--wrap=secp256k1_ec_privkey_tweak_add,--wrap=secp256k1_ec_seckey_tweak_add,--wrap=secp256k1_ecdsa_sign,--wrap=secp256k1_ecdsa_verify,--wrap=secp256k1_ecdsa_signature_normalize,--wrap=secp256k1_ecdsa_signature_serialize_der,--wrap=secp256k1_ecdsa_signature_serialize_compact,--wrap=secp256k1_ecdsa_signature_parse_compact,--wrap=secp256k1_ecdsa_signature_parse_der
#include "sched.hpp"
#include "ref.hpp"
using namespace mc; using sched::access; using sched::X; using sched::me;
namespace sched { __thread Thread* me = nullptr; }
// ---- what the instrumented library calls
#define RW(n) extern "C" void __tsan_read##n(void* p) { access(p, n, false); } extern "C" void __tsan_write##n(void* p) { access(p, n, true); } \
  extern "C" void __tsan_unaligned_read##n(void* p) { access(p, n, false); } extern "C" void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  extern "C" void __tsan_volatile_read##n(void* p) { access(p, n, false); } extern "C" void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
extern "C" void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
extern "C" void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
extern "C" void __tsan_init() {} extern "C" void __tsan_func_entry(void*) {} extern "C" void __tsan_func_exit() {} extern "C" void __tsan_vptr_update(void**, void*) {} extern "C" void __tsan_vptr_read(void**) {}
// atomics: one access, always a possible scheduling point; a thread that keeps polling the same place lets another run
static void atom(const void* p, size_t n, bool w) {
  access(p, n, w);
  sched::Thread* t = me; if (!t || t->hook) return;
  if (t->spin_at == p && !w) { if (++t->spin > 200) { t->spin = 0; bool other = false; for (int i = 0; i < sched::NT(); i++) other |= i != t->id && !sched::T()[i].done && !sched::T()[i].blocked; if (other) sched::point(false); } } else { t->spin_at = p; t->spin = 0; }
}
#define ATOM(b, T_) \
  extern "C" T_ __tsan_atomic##b##_load(const volatile T_* a, int) { atom((void*)a, b / 8, false); return *a; } \
  extern "C" void __tsan_atomic##b##_store(volatile T_* a, T_ v, int) { atom((void*)a, b / 8, true); *a = v; } \
  extern "C" T_ __tsan_atomic##b##_exchange(volatile T_* a, T_ v, int) { atom((void*)a, b / 8, true); T_ o = *a; *a = v; return o; } \
  extern "C" T_ __tsan_atomic##b##_fetch_add(volatile T_* a, T_ v, int) { atom((void*)a, b / 8, true); T_ o = *a; *a = o + v; return o; } \
  extern "C" T_ __tsan_atomic##b##_fetch_sub(volatile T_* a, T_ v, int) { atom((void*)a, b / 8, true); T_ o = *a; *a = o - v; return o; } \
  extern "C" T_ __tsan_atomic##b##_fetch_and(volatile T_* a, T_ v, int) { atom((void*)a, b / 8, true); T_ o = *a; *a = o & v; return o; } \
  extern "C" T_ __tsan_atomic##b##_fetch_or(volatile T_* a, T_ v, int) { atom((void*)a, b / 8, true); T_ o = *a; *a = o | v; return o; } \
  extern "C" T_ __tsan_atomic##b##_fetch_xor(volatile T_* a, T_ v, int) { atom((void*)a, b / 8, true); T_ o = *a; *a = o ^ v; return o; } \
  extern "C" T_ __tsan_atomic##b##_fetch_nand(volatile T_* a, T_ v, int) { atom((void*)a, b / 8, true); T_ o = *a; *a = ~(o & v); return o; } \
  static int cas##b(volatile T_* a, T_* e, T_ v) { static __thread T_ last; (void)last; if (*a == *e) { atom((void*)a, b / 8, true); } else atom((void*)a, b / 8, false); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  extern "C" int __tsan_atomic##b##_compare_exchange_strong(volatile T_* a, T_* e, T_ v, int, int) { return cas##b(a, e, v); } \
  extern "C" int __tsan_atomic##b##_compare_exchange_weak(volatile T_* a, T_* e, T_ v, int, int) { return cas##b(a, e, v); } \
  extern "C" T_ __tsan_atomic##b##_compare_exchange_val(volatile T_* a, T_ e, T_ v, int, int) { cas##b(a, &e, v); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {} extern "C" void __tsan_atomic_signal_fence(int) {}
// ---- libc
#define REAL(r, f, a) extern "C" r __real_##f a
REAL(void*, memmove, (void*, const void*, size_t)); REAL(int, memcmp, (const void*, const void*, size_t)); REAL(void*, memchr, (const void*, int, size_t)); REAL(size_t, strlen, (const char*)); REAL(int, strcmp, (const char*, const char*)); REAL(int, strncmp, (const char*, const char*, size_t)); REAL(char*, strchr, (const char*, int)); REAL(char*, strcpy, (char*, const char*)); REAL(char*, strncpy, (char*, const char*, size_t)); REAL(void*, calloc, (size_t, size_t)); REAL(void*, realloc, (void*, size_t));
extern "C" void* __wrap_memcpy(void* d, const void* s, size_t n) { if (me) access(s, n, false), access(d, n, true); return __real_memcpy(d, s, n); }
extern "C" void* __wrap_memmove(void* d, const void* s, size_t n) { if (me) access(s, n, false), access(d, n, true); return __real_memmove(d, s, n); }
extern "C" void* __wrap_memset(void* d, int c, size_t n) { if (me) access(d, n, true); return __real_memset(d, c, n); }
extern "C" int __wrap_memcmp(const void* a, const void* b, size_t n) { if (me) access(a, n, false), access(b, n, false); return __real_memcmp(a, b, n); }
extern "C" void* __wrap_memchr(const void* a, int c, size_t n) { if (me) access(a, n, false); return __real_memchr(a, c, n); }
extern "C" size_t __wrap_strlen(const char* a) { size_t n = __real_strlen(a); if (me) access(a, n + 1, false); return __real_strlen(a); }
extern "C" int __wrap_strcmp(const char* a, const char* b) { if (me) access(a, 1, false), access(b, 1, false); return __real_strcmp(a, b); }
extern "C" int __wrap_strncmp(const char* a, const char* b, size_t n) { if (me) access(a, n, false), access(b, n, false); return __real_strncmp(a, b, n); }
extern "C" char* __wrap_strchr(const char* a, int c) { if (me) access(a, __real_strlen(a) + 1, false); return __real_strchr(a, c); }
extern "C" char* __wrap_strcpy(char* d, const char* s) { if (me) { size_t n = __real_strlen(s) + 1; access(s, n, false); access(d, n, true); } return __real_strcpy(d, s); }
extern "C" char* __wrap_strncpy(char* d, const char* s, size_t n) { if (me) access(s, 1, false), access(d, n, true); return __real_strncpy(d, s, n); }
// a thread's blocks never coincide with another's: no conflict is due to reuse. Blocks handed to another thread are not supported (no call does).
static void* lib_alloc(size_t n) { sched::Thread* t = me; size_t need = (n + 15) / 16 * 16 + 16; if (t->heap_used + need > sched::HEAP) return nullptr; uint8_t* p = t->heap + t->heap_used; *(size_t*)p = n; t->heap_used += need; return p + 16; }
static bool in_heaps(void* p) { for (int i = 0; i < sched::NT(); i++) { uint8_t* h = sched::T()[i].heap; if ((uint8_t*)p >= h && (uint8_t*)p < h + sched::HEAP) return true; } return false; }
extern "C" void* __wrap_malloc(size_t n) { if (!me || me->hook) return __real_malloc(n); void* p = lib_alloc(n); if (p) __real_memset(p, 0xC7, n); return p; }
extern "C" void __wrap_free(void* p) { if (p && in_heaps(p)) { __real_memset(p, 0xDD, *(size_t*)((uint8_t*)p - 16)); return; } __real_free(p); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { if (!me || me->hook) return __real_calloc(a, b); void* p = lib_alloc(a * b); if (p) __real_memset(p, 0, a * b); return p; }
extern "C" void* __wrap_realloc(void* p, size_t n) { if (!me || me->hook) return __real_realloc(p, n); void* q = lib_alloc(n); if (q && p) { size_t o = *(size_t*)((uint8_t*)p - 16); __real_memcpy(q, p, o < n ? o : n); __wrap_free(p); } return q; }
// ---- locks
struct Lk { const void* m; int owner; }; static Lk locks[64]; static int nlocks;
static Lk* lk(const void* m) { for (int i = 0; i < nlocks; i++) if (locks[i].m == m) return &locks[i]; if (nlocks == 64) sched::die("engine: too many locks"); locks[nlocks] = {m, -1}; return &locks[nlocks++]; }
REAL(int, pthread_mutex_lock, (pthread_mutex_t*)); REAL(int, pthread_mutex_unlock, (pthread_mutex_t*)); REAL(int, pthread_mutex_trylock, (pthread_mutex_t*)); REAL(int, pthread_once, (pthread_once_t*, void (*)()));
static void acquire(const void* m) { Lk* l = lk(m); sched::point(); while (l->owner >= 0) { me->blocked = m; sched::point(false); } l->owner = me->id; }
static void release(const void* m) { lk(m)->owner = -1; for (int i = 0; i < sched::NT(); i++) if (sched::T()[i].blocked == m) sched::T()[i].blocked = nullptr; sched::point(); }
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!me || me->hook) return __real_pthread_mutex_lock(m); acquire(m); return 0; }
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!me || me->hook) return __real_pthread_mutex_trylock(m); Lk* l = lk(m); sched::point(); if (l->owner >= 0) return EBUSY; l->owner = me->id; return 0; }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!me || me->hook) return __real_pthread_mutex_unlock(m); release(m); return 0; }
extern "C" int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { if (!me || me->hook) return __real_pthread_once(o, f); acquire(o); if (!*(int*)o) { f(); *(int*)o = 2; } release(o); return 0; }
// ---- the operating system's random source: one stream, every byte of it delivered once
static uint64_t drawn; static int open_fd[32];
static uint8_t stream(uint64_t i) { static Bytes b; static uint64_t have = ~0ull; if (have != i / 32) { me ? (void)(me->hook = true) : (void)0; b = ref::sha256("draw" + std::to_string(i / 32)); have = i / 32; if (me) me->hook = false; } return b[i % 32]; }
REAL(int, open, (const char*, int, ...)); REAL(ssize_t, read, (int, void*, size_t)); REAL(int, close, (int));
static void os_point() { if (X()->nc) sched::point(); }
static bool is_source(const char* p) { return !__real_strcmp(p, "/dev/urandom") || !__real_strcmp(p, "/dev/random"); }
static bool fake(int fd) { return fd >= 100 && fd < 132; }
extern "C" int __wrap_open(const char* p, int fl, ...) { if (me ? me->hook : !is_source(p)) return __real_open(p, fl, 0644); if (me) os_point(); for (int i = 0; i < 32; i++) if (!open_fd[i]) { open_fd[i] = 1; return 100 + i; } errno = EMFILE; return -1; }
static void fill(void* b, size_t n) { access(b, n, true); for (size_t i = 0; i < n; i++) ((uint8_t*)b)[i] = stream(drawn++); }
extern "C" ssize_t __wrap_read(int fd, void* b, size_t n) { if (me ? me->hook : !fake(fd)) return __real_read(fd, b, n); if (me) os_point(); if (!fake(fd) || !open_fd[fd - 100]) { errno = EBADF; return -1; } fill(b, n); return n; }
extern "C" int __wrap_close(int fd) { if (me ? me->hook : !fake(fd)) return __real_close(fd); if (me) os_point(); if (!fake(fd) || !open_fd[fd - 100]) { errno = EBADF; return -1; } open_fd[fd - 100] = 0; return 0; }
REAL(ssize_t, getrandom, (void*, size_t, unsigned)); extern "C" ssize_t __wrap_getrandom(void* b, size_t n, unsigned f) { if (me && me->hook) return __real_getrandom(b, n, f); if (me) os_point(); fill(b, n); return n; }
REAL(int, getentropy, (void*, size_t)); extern "C" int __wrap_getentropy(void* b, size_t n) { if (me && me->hook) return __real_getentropy(b, n); if (me) os_point(); fill(b, n); return 0; }
// ---- libsecp256k1: each operation reads its context and its arguments and writes its results, in one step, with the context in use from a point before that step
static int users[8]; static const void* uctx[8];
struct Use {                                              // an operation in progress on a context
  int k = -1; bool w;
  Use(const void* c, bool w_) : w(w_) {
    if (!me) return;
    access(c, 1, w);
    for (int i = 0; i < 8; i++) if (uctx[i] == c || !uctx[i]) { k = i; uctx[i] = c; break; }
    if (k < 0) return;
    if (w && users[k]) sched::die("libsecp256k1's context is changed (randomized or destroyed) by one call while another call is using it");
    if (users[k] < 0) sched::die("libsecp256k1's context is used by one call while another call is changing it");
    if (w) users[k] = -1; else users[k]++;
    access(c, 1, w);
  }
  ~Use() { if (k >= 0 && me) { if (w) users[k] = 0; else users[k]--; } }
};
#define IN(p, n) access(p, n, false)
#define OUT(p, n) access(p, n, true)
typedef secp256k1_context Ctx; typedef unsigned char uc;
REAL(int, secp256k1_context_randomize, (Ctx*, const uc*)); extern "C" int __wrap_secp256k1_context_randomize(Ctx* c, const uc* s) { Use u(c, true); if (me && s) IN(s, 32); return __real_secp256k1_context_randomize(c, s); }
REAL(Ctx*, secp256k1_context_create, (unsigned)); extern "C" Ctx* __wrap_secp256k1_context_create(unsigned f) { if (me) me->hook = true; Ctx* r = __real_secp256k1_context_create(f); if (me) me->hook = false; return r; }
REAL(void, secp256k1_context_destroy, (Ctx*)); extern "C" void __wrap_secp256k1_context_destroy(Ctx* c) { Use u(c, true); if (me) me->hook = true; __real_secp256k1_context_destroy(c); if (me) me->hook = false; }
#define SECP(name, params, args, ...) REAL(int, name, params); extern "C" int __wrap_##name params { if (!me) return __real_##name args; Use u(c, false); __VA_ARGS__; return __real_##name args; }
SECP(secp256k1_ec_seckey_verify, (const Ctx* c, const uc* k), (c, k), IN(k, 32))
SECP(secp256k1_ec_pubkey_create, (const Ctx* c, secp256k1_pubkey* p, const uc* k), (c, p, k), IN(k, 32); OUT(p, 64))
SECP(secp256k1_ec_pubkey_parse, (const Ctx* c, secp256k1_pubkey* p, const uc* k, size_t n), (c, p, k, n), IN(k, n); OUT(p, 64))
SECP(secp256k1_ec_pubkey_serialize, (const Ctx* c, uc* o, size_t* n, const secp256k1_pubkey* p, unsigned f), (c, o, n, p, f), IN(n, 8); IN(p, 64); OUT(o, *n); OUT(n, 8))
SECP(secp256k1_ec_pubkey_tweak_add, (const Ctx* c, secp256k1_pubkey* p, const uc* t), (c, p, t), IN(t, 32); IN(p, 64); OUT(p, 64))
SECP(secp256k1_ec_privkey_tweak_add, (const Ctx* c, uc* k, const uc* t), (c, k, t), IN(t, 32); IN(k, 32); OUT(k, 32))
SECP(secp256k1_ec_seckey_tweak_add, (const Ctx* c, uc* k, const uc* t), (c, k, t), IN(t, 32); IN(k, 32); OUT(k, 32))
SECP(secp256k1_ecdsa_sign, (const Ctx* c, secp256k1_ecdsa_signature* s, const uc* m, const uc* k, secp256k1_nonce_function f, const void* d), (c, s, m, k, f, d), IN(m, 32); IN(k, 32); if (d) IN(d, 32); OUT(s, 64))
SECP(secp256k1_ecdsa_verify, (const Ctx* c, const secp256k1_ecdsa_signature* s, const uc* m, const secp256k1_pubkey* p), (c, s, m, p), IN(s, 64); IN(m, 32); IN(p, 64))
SECP(secp256k1_ecdsa_signature_normalize, (const Ctx* c, secp256k1_ecdsa_signature* o, const secp256k1_ecdsa_signature* i), (c, o, i), IN(i, 64); if (o) OUT(o, 64))
SECP(secp256k1_ecdsa_signature_serialize_der, (const Ctx* c, uc* o, size_t* n, const secp256k1_ecdsa_signature* s), (c, o, n, s), IN(n, 8); IN(s, 64); OUT(o, *n); OUT(n, 8))
SECP(secp256k1_ecdsa_signature_serialize_compact, (const Ctx* c, uc* o, const secp256k1_ecdsa_signature* s), (c, o, s), IN(s, 64); OUT(o, 64))
SECP(secp256k1_ecdsa_signature_parse_compact, (const Ctx* c, secp256k1_ecdsa_signature* s, const uc* i), (c, s, i), IN(i, 64); OUT(s, 64))
SECP(secp256k1_ecdsa_signature_parse_der, (const Ctx* c, secp256k1_ecdsa_signature* s, const uc* i, size_t n), (c, s, i, n), IN(i, n); OUT(s, 64))
// ---- the calls
struct Inputs { Bytes key, hash, chain, pub33, pub65, pub64, sig64, der, dkey, m64, wif, wiflong, wifbad, xprv, xprvlong, xpub, b58, b58s, b58long, b58bad, seg, segbad, segunk, addr, msg, longmsg, mackey, longkey, seed, b64, b64u, b32, b32raw, hexs, e74, e74p, bech, wit; fingera_ex_key xk; fingera_ex_pubkey xp; uint64_t num; int net; };
static Inputs IN_[2];
static void make_inputs() {
  for (int v = 0; v < 2; v++) { Inputs& I = IN_[v]; auto S_ = [&](const char* s) { return ref::sha256(s + std::to_string(v)); };
    auto P_ = [&](int n, const char* s) { Bytes r; for (int i = 0; (int)r.size() < n; i++) r += S_((s + std::to_string(i) + "-").c_str()); return r.substr(0, n); };
    I.key = S_("k"); I.hash = S_("h"); I.chain = S_("c"); I.pub33 = ref::pub(I.key); I.pub65 = ref::pub(I.key, false); for (uint32_t i = 0, c = 0; c < 2; i++) { I.hash = S_(("h" + std::to_string(i) + "-").c_str()); ref::sign_low_r(I.key, I.hash, &c); }   // signatures that take three rounds
    I.der = ref::der_sig(ref::sign_low_r(I.key, I.hash)); I.dkey = Bytes("\x30\x81\xD3\x02\x01\x01\x04\x20", 8) + I.key + Bytes(171, 0); I.m64 = P_(256, "m");
    I.pub64 = Bytes(64, 0); I.sig64 = Bytes(64, 0); fingera_btc_pubkey_decode(I.pub33.data(), 33, &I.pub64[0]); fingera_btc_signature_decode(I.der.data(), I.der.size(), &I.sig64[0]);
    I.net = v; const char* w = v ? "\xEF" : "\x80"; I.wif = ref::base58check(w + I.key + (v ? "" : "\1")); I.wiflong = ref::base58check(w + P_(150, "w")); I.wifbad = I.wif; I.wifbad[20] = I.wifbad[20] == 'a' ? 'b' : 'a';
    ref::XKey x{true, 3 + v, 7u + v, Bytes("\1\2\3\4"), I.chain, I.key}; Bytes ver = ref::be32(v ? 0x04358394 : 0x0488ADE4); I.e74 = ref::ser74(x); I.e74p = ref::ser74(ref::neuter(x)); I.xprv = ref::base58check(ver + I.e74); I.xprvlong = ref::base58check(ver + P_(130, "x")); I.xpub = ref::base58check(ref::be32(v ? 0x043587CF : 0x0488B21E) + I.e74p);
    fingera_exkey_decode(I.e74.data(), &I.xk); fingera_expubkey_decode(I.e74p.data(), &I.xp);
    for (int i = 0; !i || I.b58[0] != I.b58.back(); i++) I.b58 = ref::base58(P_(39, "b") + (char)i);   // ends as it begins
    I.b58s = ref::base58(P_(5, "y")); I.b58long = ref::base58(Bytes(9, 0) + P_(150, "B")); I.b58bad = I.b58long; I.b58bad[100] = '0'; I.seg = ref::bech32(v ? "tb" : "bc", Bytes(1, 0) + ref::base32_raw(P_(20 + 12 * v, "s"))); I.segbad = I.seg; I.segbad[9] ^= 1; I.segunk = ref::bech32(v ? "tb" : "bc", Bytes(1, 5) + ref::base32_raw(P_(30, "u"))); I.addr = ref::base58check((v ? "\x6f" : Bytes(1, 0)) + P_(20, "a")); I.wit = Bytes(1, 3 + v) + P_(30, "W");
    I.msg = P_(100 + v, "g"); I.longmsg = P_(300 + v, "G"); I.mackey = P_(40 + v, "K"); I.longkey = P_(200 + v, "L"); I.seed = P_(16 + 16 * v, "e"); I.b64 = ref::base64(P_(50 + v, "4"), false); I.b64u = ref::base64(P_(50 + v, "5"), true); I.b32 = ref::base32(P_(33 + v, "2")); I.b32raw = ref::base32_raw(P_(33 + v, "3")); I.hexs = ref::hexs(P_(40 + v, "h"), v); I.bech = ref::bech32("tb", Bytes(30, 5 + v)); I.num = v ? 0x123456789abcdefull : 300; }
}
struct Op { const char* name; int n; bool random; long long (*f)(const Inputs& I, uint8_t* o); };
#define OPX(name, n, ...) {name, n, false, [](const Inputs& I, uint8_t* o) -> long long { __VA_ARGS__ }}
#define OPR(name, n, ...) {name, n, true, [](const Inputs& I, uint8_t* o) -> long long { __VA_ARGS__ }}
#define P(x) ((const void*)I.x.data())
#define TT(x) I.x.data(), I.x.size()
#define NETP (I.net ? &g_testnet_chain_parameters : &g_mainnet_chain_parameters)
static const Op OPS[] = {
  OPX("sha1", 20, fingera_sha1(TT(msg), o); return 0;), OPX("sha2_256", 32, fingera_sha2_256(TT(longmsg), o); return 0;), OPX("sha2_512", 64, fingera_sha2_512(TT(longmsg), o); return 0;), OPX("ripemd160", 20, fingera_ripemd160(TT(msg), o); return 0;),
  OPX("hmac_sha256", 32, fingera_hmac_sha256(TT(mackey), TT(msg), o); return 0;), OPX("hmac_sha256 long key", 32, fingera_hmac_sha256(TT(longkey), TT(msg), o); return 0;), OPX("hmac_sha512", 64, fingera_hmac_sha512(TT(mackey), TT(msg), o); return 0;), OPX("hmac_sha512 long key", 64, fingera_hmac_sha512(TT(longkey), TT(msg), o); return 0;),
  OPX("hash160", 20, fingera_btc_hash160(TT(msg), o); return 0;), OPX("hash256", 32, fingera_btc_hash256(TT(msg), o); return 0;), OPX("hash256_d64", 96, fingera_btc_hash256_d64(o, P(m64), 3); return 0;), OPX("bip32_hash", 64, fingera_btc_bip32_hash(P(chain), 7 + I.net, 2, P(key), o); return 0;),
  OPX("to_hex", 200, fingera_to_hex(P(msg), 100, (char*)o, I.net); return 0;), OPX("from_hex", 41, return fingera_from_hex(TT(hexs), o);),
  OPX("to_base64", 136, fingera_to_base64(P(msg), 100, (char*)o); return 0;), OPX("to_base64_urlsafe", 134, fingera_to_base64_urlsafe(P(msg), 100, (char*)o); return 0;), OPX("from_base64", 52, return fingera_from_base64(TT(b64), o);), OPX("from_base64_urlsafe", 54, return fingera_from_base64_urlsafe(TT(b64u), o);),
  OPX("to_base32", 160, fingera_to_base32(P(msg), 100, (char*)o); return 0;), OPX("to_base32_raw", 160, return fingera_to_base32_raw(P(msg), 100, o);), OPX("from_base32", 40, return fingera_from_base32(TT(b32), o) * 1000 + fingera_from_base32_length(TT(b32));), OPX("from_base32_raw", 40, return fingera_from_base32_raw(TT(b32raw), o);),
  OPX("to_base58", 140, return fingera_to_base58(P(msg), 100, (char*)o);), OPX("to_base58 long", 300, return fingera_to_base58(P(longmsg), 200, (char*)o);), OPX("from_base58", 60, return fingera_from_base58(TT(b58), o);), OPX("from_base58 short", 60, return fingera_from_base58(TT(b58s), o);), OPX("from_base58 long", 230, return fingera_from_base58(TT(b58long), o);), OPX("from_base58 bad", 230, return fingera_from_base58(TT(b58bad), o);),
  OPX("to_base58_check", 160, return fingera_to_base58_check(P(msg), 100, "ab", 2, (char*)o);), OPX("from_base58_check", 60, return fingera_from_base58_check(TT(wif), o);), OPX("from_base58_check bad", 60, return fingera_from_base58_check(TT(wifbad), o);),
  OPX("varint", 24, size_t a = fingera_encode_varint(I.num, o); uint64_t v = 0; size_t b = fingera_decode_varint(o, a, &v); memcpy(o + 10, &v, 8); return a * 100 + b;), OPX("zigzag", 24, size_t a = fingera_encode_zigzag(-(int64_t)I.num, o); int64_t v = 0; size_t b = fingera_decode_zigzag(o, a, &v); memcpy(o + 10, &v, 8); return a * 100 + b;),
  OPX("bech32_encode", 60, fingera_bech32_encode("tb", 2, (const uint8_t*)I.b32raw.data(), 40, (char*)o); return 0;), OPX("bech32_decode", 180, size_t h = 80; int r = fingera_bech32_decode(TT(bech), (char*)o, &h, o + 80); return r * 1000 + h;), OPX("bech32_decode bad", 180, size_t h = 80; return fingera_bech32_decode(TT(segbad), (char*)o, &h, o + 80);),
  OPX("to_address_pubkey", 60, return fingera_to_address_pubkey(P(key), 20, (char*)o, 60, NETP);), OPX("to_address_script", 60, return fingera_to_address_script(P(key), 20, (char*)o, 60, NETP);), OPX("to_address_witnessv0_keyhash", 80, return fingera_to_address_witnessv0_keyhash(P(key), 20, (char*)o, 80, NETP);), OPX("to_address_witnessv0_scripthash", 80, return fingera_to_address_witnessv0_scripthash(P(key), 32, (char*)o, 80, NETP);), OPX("to_address_witness_unknown", 90, return fingera_to_address_witness_unknown(TT(wit), (char*)o, 90, NETP);),
  OPX("address_decode", 120, size_t n = 120; int r = fingera_btc_address_decode(TT(addr), o, &n, NETP); return r * 1000 + n;), OPX("address_decode segwit", 120, size_t n = 120; int r = fingera_btc_address_decode(TT(seg), o, &n, NETP); return r * 1000 + n;), OPX("address_decode unknown", 120, size_t n = 120; int r = fingera_btc_address_decode(TT(segunk), o, &n, NETP); return r * 1000 + n;), OPX("address_decode bad", 120, size_t n = 120; int r = fingera_btc_address_decode(TT(segbad), o, &n, NETP); return r;),
  OPX("key_to_string", 60, return fingera_btc_key_to_string(P(key), (char*)o, !I.net, NETP);), OPX("key_from_string", 32, int c = 7; int r = fingera_btc_key_from_string(TT(wif), o, &c, NETP); return r * 10 + c;), OPX("key_from_string long", 32, int c = 7; return fingera_btc_key_from_string(TT(wiflong), o, &c, NETP);), OPX("key_from_string bad", 32, int c = 7; return fingera_btc_key_from_string(TT(wifbad), o, &c, NETP);),
  OPX("key_derive", 64, return fingera_btc_key_derive(P(key), P(chain), o, o + 32, 5);), OPX("key_derive hardened", 64, return fingera_btc_key_derive(P(key), P(chain), o, o + 32, 0x80000005);), OPX("pubkey_derive", 65, return fingera_btc_pubkey_derive(P(pub33), P(chain), o, o + 33, 5);), OPX("pubkey_derive bad", 65, return fingera_btc_pubkey_derive(P(m64), P(chain), o, o + 33, 5);),
  OPX("key_encode", 279, return fingera_btc_key_encode(P(key), o, 279);), OPX("key_encode compressed", 214, return fingera_btc_key_encode(P(key), o, 214);), OPX("key_decode", 32, return fingera_btc_key_decode(TT(dkey), o);), OPX("key_decode bad", 32, return fingera_btc_key_decode(TT(msg), o);),
  OPX("key_get_pub", 64, fingera_btc_key_get_pub(P(key), o); return 0;), OPX("pubkey_decode", 64, return fingera_btc_pubkey_decode(TT(pub65), o);), OPX("pubkey_encode", 33, return fingera_btc_pubkey_encode(P(pub64), o, 33);), OPX("pubkey_encode 65", 65, return fingera_btc_pubkey_encode(P(pub64), o, 65);),
  OPX("sign", 64, fingera_btc_key_sign(P(key), P(hash), o); return 0;), OPX("signature_encode", 72, return fingera_btc_signature_encode(P(sig64), o);), OPX("signature_decode", 64, return fingera_btc_signature_decode(TT(der), o);), OPX("verify", 0, return fingera_btc_key_verify(P(pub64), P(hash), P(sig64));), OPX("verify wrong", 0, return fingera_btc_key_verify(P(pub64), P(key), P(sig64));),
  OPX("key_keyid", 20, fingera_btc_key_keyid(P(key), 1, o); return 0;), OPX("pubkey_keyid", 20, fingera_btc_pubkey_keyid(P(pub64), 0, o); return 0;), OPX("fingerprints", 0, return fingera_btc_key_fingerprint(P(key), 1) * 3ll + fingera_btc_pubkey_fingerprint(P(pub33));),
  OPX("exkey_init", 80, fingera_exkey_init((fingera_ex_key*)o, TT(seed)); return 0;), OPX("exkey_derive", 80, return fingera_exkey_derive(&I.xk, (fingera_ex_key*)o, 9, 77);), OPX("exkey_get_pub", 80, fingera_exkey_get_pub(&I.xk, (fingera_ex_pubkey*)o); return 0;), OPX("expubkey_derive", 80, return fingera_expubkey_derive(&I.xp, (fingera_ex_pubkey*)o, 9, 77);),
  OPX("exkey_encode", 74, fingera_exkey_encode(&I.xk, o); return 0;), OPX("exkey_decode", 80, fingera_exkey_decode(P(e74), (fingera_ex_key*)o); return 0;), OPX("exkey_to_string", 120, return fingera_exkey_to_string(&I.xk, (char*)o, NETP);), OPX("exkey_from_string", 80, return fingera_exkey_from_string(TT(xprv), (fingera_ex_key*)o, NETP);), OPX("exkey_from_string long", 80, return fingera_exkey_from_string(TT(xprvlong), (fingera_ex_key*)o, NETP);),
  OPX("expubkey_encode", 74, fingera_expubkey_encode(&I.xp, o); return 0;), OPX("expubkey_decode", 80, fingera_expubkey_decode(P(e74p), (fingera_ex_pubkey*)o); return 0;), OPX("expubkey_to_string", 120, return fingera_expubkey_to_string(&I.xp, (char*)o, NETP);), OPX("expubkey_from_string", 80, return fingera_expubkey_from_string(TT(xpub), (fingera_ex_pubkey*)o, NETP);),
  OPX("cleanse", 33, fingera_cleanse(o, 33); return 0;),
  OPR("os_rand_bytes", 40, fingera_os_rand_bytes(o, 40); return 0;), OPR("key_new", 32, fingera_btc_key_new(o); return 0;),
};
static const int N = sizeof OPS / sizeof OPS[0];
static uint8_t* arena;                                    // the outputs, back to back, in a place of their own
struct Want { long long ret; uint8_t o[512]; };
static Want (*want)[2];
static void prepare() {
  fingera_btc_key_init(); make_inputs(); arena = (uint8_t*)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); stream(0);
  X() = (sched::Shared*)mmap(0, sizeof(sched::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
// A set of calls to be made at the same time: (operation, input variant).
typedef std::vector<std::pair<int, int>> Calls;
static uint8_t* out_of(const Calls& c, size_t k) { size_t off = 256; for (size_t i = 0; i < k; i++) off += (OPS[c[i].first].n + 7) / 8 * 8; return arena + off; }   // structs need alignment; other outputs are multiples anyway or leave a gap that nobody may write
static Bytes names(const Calls& c) { Bytes r; for (auto& x : c) r += Bytes(r.empty() ? "" : " || ") + OPS[x.first].name + (x.second ? "'" : ""); return r; }
// forks a process that makes the calls under the schedule in X()->prefix; false: it did not end normally
static bool warm;                                        // the same calls have been made one after the other before
static bool execute(const Calls& c, Bytes& why) {
  X()->msg[0] = 0; op(c.size());
  pid_t p = fork();
  if (p == 0) {
    alarm(20);
    if (warm) for (auto& x : c) { static uint8_t dump[8192]; OPS[x.first].f(IN_[x.second], dump); }
    memset(arena, 0x6D, 8192);
    std::vector<std::function<void()>> f;
    for (size_t k = 0; k < c.size(); k++) { uint8_t* o = out_of(c, k); memset(o, 0xE1, OPS[c[k].first].n); const Op* q = &OPS[c[k].first]; const Inputs* I = &IN_[c[k].second]; long long* r = &X()->ret[k]; f.push_back([q, I, o, r] { *r = q->f(*I, o); }); }
    sched::run(f);
    for (size_t k = 0; k < c.size(); k++) __real_memcpy(X()->res[k], out_of(c, k), OPS[c[k].first].n);
    _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
  why = X()->msg[0] ? X()->msg : WIFSIGNALED(st) ? WTERMSIG(st) == SIGALRM ? "the calls do not return" : "a call crashes, signal " + std::to_string(WTERMSIG(st)) : "a call ends the process, exit " + std::to_string(WEXITSTATUS(st));
  return false;
}
static Bytes schedule_text() { Bytes r; int last = -2; for (int i = 0; i < X()->np && r.size() < 500; i++) { if (X()->p[i].chosen != last) { last = X()->p[i].chosen; r += "@" + std::to_string(i) + ":T" + std::to_string(last) + " "; } } return r; }
static void judge(const Calls& c) {
  std::vector<Bytes> rnd;
  for (size_t k = 0; k < c.size(); k++) {
    const Op& q = OPS[c[k].first]; checked();
    if (!q.random) {
      Want& w = want[c[k].first][c[k].second];
      if (X()->ret[k] != w.ret) fail("%s: call %zu returns %lld under the schedule %s, alone it returns %lld", names(c).c_str(), k, X()->ret[k], schedule_text().c_str(), w.ret);
      if (memcmp(X()->res[k], w.o, q.n)) fail("%s: call %zu gives %s under the schedule %s, alone it gives %s", names(c).c_str(), k, hex(X()->res[k], q.n).c_str(), schedule_text().c_str(), hex(w.o, q.n).c_str());
    } else rnd.push_back(Bytes((char*)X()->res[k], q.n));
  }
  if (rnd.empty()) return;
  static Bytes all; if (all.empty()) for (int i = 0; i < 256; i++) all += ref::sha256("draw" + std::to_string(i));
  std::vector<std::pair<size_t, size_t>> given;                                                     // pieces of the source's stream, none given out twice
  for (auto& r : rnd) {
    size_t small = 0, pieces = 0;
    for (size_t k = 0; k < r.size();) {
      size_t at = 0, len = 0;
      for (size_t n = 1; k + n <= r.size(); n++) { size_t q = all.find(r.substr(k, n), at); if (q == Bytes::npos) break; at = q; len = n; }
      if (!len) len = 1, small = 99;
      pieces++; if (len < 4) small += len;
      else { for (auto& g : given) if (at < g.second && g.first < at + len) fail("%s: random bytes %s are given out twice (schedule %s)", names(c).c_str(), hex(r.substr(k, len)).c_str(), schedule_text().c_str()); given.push_back({at, at + len}); }
      k += len;
    }
    if (pieces > 6 || small > 3) fail("%s: random bytes %s are not from the source (schedule %s)", names(c).c_str(), hex(r).c_str(), schedule_text().c_str());
  }
}
// bytes that two threads touch, at least one writing
static bool new_conflicts(int nt) {
  bool grew = false; sched::Shared* x = X();
  for (int a = 0; a < nt; a++) for (int b = 0; b < nt; b++) if (a != b) for (uint32_t k = 0; k < x->log[a].n; k++) {
    sched::Gran& g = x->log[a].g[x->log[a].used[k]]; if (!g.w) continue;
    sched::Gran& h = x->log[b].g[sched::slot(x->log[b], g.key)]; if (h.key != g.key) continue;
    uint8_t m = g.w & (h.r | h.w); if (!m) continue;
    int i = 0; while (i < x->nc && x->conf[i].key != g.key) i++;
    if (i == sched::MAXC) { return grew; }
    if (i == x->nc) { x->conf[x->nc++] = {g.key, 0, m}; grew = true; } else if (m & ~x->conf[i].w) { x->conf[i].w |= m; grew = true; }
  }
  return grew;
}
static int MAXRUNS;
// every schedule of the calls, up to two preemptions at accesses to conflicting bytes; without conflicts all are equivalent to the one run
static void explore(const Calls& c) {
  sched::Shared* x = X(); x->nc = 0; int nt = c.size(); uint64_t runs = 0, points = 0; Bytes why;
restart:
  struct Br { std::vector<uint8_t> prefix; }; std::vector<Br> todo{{}};
  int bound = 2;
  size_t next = 0;                                        // breadth first: schedules with few preemptions first
  std::vector<int> pre{0};
  while (next < todo.size()) {
    auto pf = todo[next].prefix; int used = pre[next]; next++;
    x->nprefix = pf.size(); for (size_t i = 0; i < pf.size(); i++) x->prefix[i] = pf[i];
    bool ok = execute(c, why); runs++; points += x->np;
    if (!ok) fail("%s: %s under the schedule %s", names(c).c_str(), why.c_str(), schedule_text().c_str());
    for (int i = 0; i < nt; i++) if (x->log[i].full) { fprintf(stderr, "engine: access log full\n"); _exit(41); }
    judge(c);
    if (new_conflicts(nt)) goto restart;
    if ((int)runs > MAXRUNS) break;
    for (int i = pf.size(); i < x->np; i++) for (int t = 0; t < nt; t++) if ((x->p[i].enabled >> t & 1) && t != x->p[i].chosen) {
      int cost = used + (x->p[i].cur >= 0 && (x->p[i].enabled >> x->p[i].cur & 1) ? 1 : 0); if (cost > bound) continue;
      Br b; b.prefix.resize(i + 1); for (int k = 0; k < i; k++) b.prefix[k] = x->p[k].chosen; b.prefix[i] = t; todo.push_back(b); pre.push_back(cost);
      if (todo.size() > (size_t)MAXRUNS + 10) break;
    }
  }
  inner(points, runs ? runs - 1 : 0); extra(points);
  note("%s: %llu schedules, %d conflicting granules, %llu shared accesses", names(c).c_str(), (unsigned long long)runs, x->nc, (unsigned long long)x->accesses);
}
static void worker() { static pid_t who = 0; if (who != getpid()) { who = getpid(); X() = (sched::Shared*)mmap(0, sizeof(sched::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } }
static void define() {
  prepare(); MAXRUNS = pick(2000, 40000);
  want = (Want(*)[2])mmap(0, sizeof(Want) * 2 * N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  add("alone", N * 2, [](long u) { worker(); Calls c{{(int)(u / 2), (int)(u % 2)}}; X()->nc = 0; X()->nprefix = 0; Bytes why; if (!execute(c, why)) fail("%s: %s", names(c).c_str(), why.c_str()); judge(c); }, "each call alone, twice");
  int fails = 0;
  for (int i = 0; i < N; i++) for (int v = 0; v < 2; v++) { Calls c{{i, v}}; X()->nc = 0; X()->nprefix = 0; Bytes why; static mc::Slot dummy; mc::Slot* keep = S(); S() = &dummy; if (execute(c, why)) { want[i][v].ret = X()->ret[0]; memcpy(want[i][v].o, X()->res[0], OPS[i].n); } else fails++; S() = keep; }
  add("pairs", (long)N * N, [](long u) { worker(); int i = u / N, j = u % N; for (int m = 0; m < 4; m++) { warm = m & 2; explore({{i, 0}, {j, m & 1}}); } warm = false; }, "all ordered pairs of " + std::to_string(N) + " calls, with the same and with different inputs (shared where equal), in a fresh process and after the same calls in sequence: all schedules with up to 2 preemptions at accesses to bytes both touch and one writes (at most " + std::to_string(MAXRUNS) + " runs each where there are such bytes)", 900);
  static std::vector<int> core; for (int i = 0; i < N; i++) { static const char* names_[] = {"sha2_256", "hmac_sha512", "hash256_d64", "from_base64", "to_base58 long", "from_base58 bad", "to_base58_check", "bech32_decode", "address_decode segwit", "key_from_string", "key_derive", "pubkey_derive", "key_get_pub", "sign", "verify", "exkey_derive", "exkey_to_string", "key_new", "os_rand_bytes", "signature_decode"}; for (auto s : names_) if (!strcmp(s, OPS[i].name)) core.push_back(i); }
  if (!thorough()) for (int k = core.size() - 1; k >= 0; k -= 2) core.erase(core.begin() + k);   // ten of them
  long K = core.size();
  add("triples", K * K * K, [K](long u) { worker(); int i = core[u % K], j = core[u / K % K], k = core[u / K / K]; explore({{i, 0}, {j, 1}, {k, 0}}); }, "three calls at once, all triples of " + std::to_string(K) + " operations, schedules as above", 900);
}
int main(int c, char** v) { return run(c, v, "C20", define, {"sequentially consistent memory", "libsecp256k1's operations are atomic steps that touch their arguments and their context", "each thread's heap blocks and stack are its own"}); }
