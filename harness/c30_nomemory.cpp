// C30: every pattern of refused memory requests: a call is right, reports failure, or ends the process with a message.
#include "heap.hpp"
#include "ops.hpp"
#include <sys/resource.h>
#include <sys/prctl.h>
struct Call { std::string name; bool init; std::function<bool(R&)> f; };      // false: the call reports failure
static std::vector<Call> CALLS;
static char big[1 << 17];
static void calls() {
  auto put = [](const std::string& n, bool init, std::function<bool(R&)> f) { CALLS.push_back({n, init, f}); };
  static const size_t sizes[] = {0, 20, 90, 91, 92, 93, 94, 95, 100, 127, 128, 129, 170, 175, 176, 200, 300, 1000, 3000, 10000};
  static std::vector<Bytes> keep; keep.reserve(1000); auto K = [](const Bytes& b) -> const Bytes* { keep.push_back(b); return &keep.back(); };
  for (size_t n : sizes) {
    std::string t = " of " + std::to_string(n) + " bytes"; const Bytes *m = K(ref::pattern(6, n)), *e = K(ref::base58_long(*m)), *c = K(ref::base58check_long(*m)), *w = K(ref::base58check_long("\x80" + *m)), *x = K(ref::base58check_long(ref::be32(0x0488ADE4) + *m)), *q = K(ref::base58check_long(ref::be32(0x0488B21E) + *m)), *a = K(ref::base58check_long(Bytes(1, 0) + *m));
    put("to_base58" + t, false, [m](R& r) { size_t k = fingera_to_base58(T2(*m), big); r.num(k); r.put(big, k); return m->empty() || k; });
    put("from_base58" + t, false, [e](R& r) { size_t k = fingera_from_base58(T2(*e), big); r.num(k); r.put(big, k); return e->empty() || k; });
    put("to_base58_check" + t, false, [m](R& r) { size_t k = fingera_to_base58_check(T2(*m), "abc", 3, big); r.num(k); r.put(big, k); return k != 0; });
    put("from_base58_check" + t, false, [c, n](R& r) { size_t k = fingera_from_base58_check(T2(*c), big); r.num(k); r.put(big, k); return n == 0 || k; });
    put("key_from_string" + t, false, [w](R& r) { int z = 7, k = fingera_btc_key_from_string(T2(*w), o, &z, MAIN); r.num(k); if (k) { r.put(o, 32); r.num(z); } return k != 0; });
    put("exkey_from_string" + t, false, [x](R& r) { fingera_ex_key d; memset(&d, 0, sizeof d); int k = fingera_exkey_from_string(T2(*x), &d, MAIN); r.num(k); if (k) { r.put(d.key, 32); r.put(d.ext.chain_code, 32); } return k != 0; });
    put("expubkey_from_string" + t, false, [q](R& r) { fingera_ex_pubkey d; memset(&d, 0, sizeof d); int k = fingera_expubkey_from_string(T2(*q), &d, MAIN); r.num(k); if (k) { r.put(d.c_pubkey, 33); r.put(d.ext.chain_code, 32); } return k != 0; });
    put("address_decode" + t, false, [a](R& r) { size_t z = sizeof big; int k = fingera_btc_address_decode(T2(*a), big, &z, MAIN); r.num(k); if (k != BTC_BAD_ADDRESS) { r.num(z); r.put(big, z); } return k != BTC_BAD_ADDRESS; });
    put("to_address" + t, false, [m](R& r) { size_t k = fingera_to_address_pubkey(T2(*m), big, sizeof big, MAIN); r.num(k); r.put(big, k); return k != 0; });
    put("digests" + t, false, [m](R& r) { fingera_sha1(T2(*m), o); r.put(o, 20); fingera_sha2_256(T2(*m), o); r.put(o, 32); fingera_sha2_512(T2(*m), o); r.put(o, 64); fingera_ripemd160(T2(*m), o); r.put(o, 20); fingera_btc_hash160(T2(*m), o); r.put(o, 20); fingera_btc_hash256(T2(*m), o); r.put(o, 32); return true; });
    put("macs" + t, false, [m](R& r) { fingera_hmac_sha256(T2(*m), T2(*m), o); r.put(o, 32); fingera_hmac_sha512(T2(*m), T2(*m), o); r.put(o, 64); return true; });
    put("texts" + t, false, [m](R& r) { fingera_to_hex(T2(*m), big, 0); r.put(big, 2 * m->size()); size_t k = fingera_from_hex(big, 2 * m->size(), o); r.num(k); fingera_to_base64(T2(*m), big); size_t l = fingera_to_base64_length(m->size()); r.put(big, l); r.num(fingera_from_base64(big, l, o)); fingera_to_base32(T2(*m), big); l = fingera_to_base32_length(m->size()); r.put(big, l); r.num(fingera_from_base32(big, l, o)); return true; });
    if (n <= 40 && n >= 2) put("segwit" + t, false, [n](R& r) { Bytes s = ref::bech32("bc", Bytes(1, 1) + ref::base32_raw(ref::pattern(6, n))); size_t z = 400; int k = fingera_btc_address_decode(T2(s), big, &z, MAIN); r.num(k); if (k != BTC_BAD_ADDRESS) r.put(big, z); return k != BTC_BAD_ADDRESS; });
  }
  for (int i = 0; i < N; i++) if (OPS[i].state == 1 || OPS[i].state == 2) { const Op* q = &OPS[i]; put(std::string("operation ") + q->name, q->state == 1, [q](R& r) { q->f(r); return true; }); }
  put("init and use", false, [](R& r) { fingera_btc_key_init(); fingera_btc_key_get_pub(P(key), o); r.put(o, 64); fingera_btc_key_uninit(); return true; });
}
// an abort for damaged memory is no report
static const char* DAMAGE[] = {"stack smashing", "buffer overflow detected", "invalid pointer", "invalid size", "invalid next size", "double free", "corrupted", "malloc():", "munmap_chunk"};
struct Mem { int n, live; char m[4096]; R want; };
static Mem* M;
// One call in a child of its own; the requests in mask, and those from `from` on, are refused.
static int run_one(const Call& c, uint64_t mask, int from, bool count, std::string& err) {
  static int out = -1; if (out < 0) out = memfd_create("err", 0); ftruncate(out, 0); lseek(out, 0, SEEK_SET); M->m[0] = 0;
  pid_t p = fork();
  if (!p) {
    prctl(PR_SET_DUMPABLE, 0); int nul = open("/dev/null", O_RDWR); dup2(nul, 1); dup2(out, 2); static char b1[8192]; setvbuf(stdout, b1, _IOFBF, sizeof b1); alarm(100);
    heap::H& H = heap::h(); H.fill = 0xA5; static R r; memset(big, 0x5A, sizeof big); memset(o, 0x5A, sizeof o);
    if (c.init) { H.in_lib = true; fingera_btc_key_init(); H.in_lib = false; }
    int live = H.nlive; H.asked = 0; H.refuse = mask; H.refuse_from = from;
    r.n = 0; H.in_lib = true; bool good = c.f(r); H.in_lib = false; H.refuse = 0; H.refuse_from = 1 << 30;
    if (count) { M->n = H.asked; M->live = H.nlive - live; memcpy(&M->want, &r, sizeof r); _exit(0); }
    if ((good || M->want.n == 0) && (r.n != M->want.n || memcmp(r.b, M->want.b, r.n))) { snprintf(M->m, 4096, "%s, when memory is refused, returns %s instead of %s", c.name.c_str(), hex(r.b, r.n, 120).c_str(), hex(M->want.b, M->want.n, 120).c_str()); _exit(9); }
    if (H.nlive - live != M->live && good) { snprintf(M->m, 4096, "%s, when memory is refused, leaves %d heap blocks more", c.name.c_str(), H.nlive - live - M->live); _exit(9); }
    if (H.nlive > live && !good) { snprintf(M->m, 4096, "%s leaks %d heap blocks when it reports failure", c.name.c_str(), H.nlive - live); _exit(9); }
    if (c.name != "operation init") {              // and again, with all the memory it wants
      r.n = 0; memset(big, 0x5A, sizeof big); memset(o, 0x5A, sizeof o); H.in_lib = true; c.f(r); H.in_lib = false;
      if (r.n != M->want.n || memcmp(r.b, M->want.b, r.n)) { snprintf(M->m, 4096, "%s returns %s after a call that was refused memory, instead of %s", c.name.c_str(), hex(r.b, r.n, 120).c_str(), hex(M->want.b, M->want.n, 120).c_str()); _exit(9); }
    }
    _exit(0);
  }
  int st; waitpid(p, &st, 0); err.resize(lseek(out, 0, SEEK_END)); if (err.size()) pread(out, &err[0], err.size(), 0); return st;
}
static void judge(const Call& c, int st, const std::string& err, const std::string& how) {
  checked(); note("%s, %s -> status %x %s", c.name.c_str(), how.c_str(), st, quote(err, 60).c_str());
  if (M->m[0]) fail("%s (%s)", M->m, how.c_str());
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) fail("%s is ended by signal %d when memory is refused (%s)", c.name.c_str(), WTERMSIG(st), how.c_str());
  for (const char* t : DAMAGE) if (err.find(t) != std::string::npos) fail("%s, when memory is refused, ends in \"%s\" (%s)", c.name.c_str(), t, how.c_str());
  if (err.empty()) fail("%s ends the process without a message when memory is refused (%s)", c.name.c_str(), how.c_str());
}
static void patterns(long i) {
  if (!M) M = (Mem*)mmap(0, sizeof(Mem), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const Call& c = CALLS[i]; std::string err; int st = run_one(c, 0, 1 << 30, true, err); if (st) fail("%s ends the process with memory enough (status %x)", c.name.c_str(), st);
  int n = M->n; op(2); if (n == 0) { note("%s asks for no memory", c.name.c_str()); return; }
  int D = pick(6, 10); uint64_t mask = 0; int bits = n < D ? n : D;
  if (choose(2)) { int k = choose(n < 40 ? n : 40); st = run_one(c, 0, k, false, err); op(2); judge(c, st, err, "all requests from number " + std::to_string(k) + " on"); return; }
  for (int b = 0; b < bits; b++) mask |= (uint64_t)choose(2) << b;
  st = run_one(c, mask, 1 << 30, false, err); op(2); std::string how = "requests"; for (int b = 0; b < bits; b++) if (mask >> b & 1) how += " " + std::to_string(b); judge(c, st, err, how);
}
// Real exhaustion: an address space limit and an input whose scratch space does not fit.
static void limited(long i) {
  static int out = memfd_create("err", 0); static const size_t n = 96u << 20; static char* in = (char*)mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  static const char* names[] = {"to_base58", "from_base58", "to_base58_check", "from_base58_check", "key_from_string", "exkey_from_string", "expubkey_from_string"}; note("%s of %zu bytes under an address space limit", names[i], n); op();
  ftruncate(out, 0); lseek(out, 0, SEEK_SET);
  pid_t p = fork();
  if (!p) {
    prctl(PR_SET_DUMPABLE, 0); dup2(out, 2); alarm(100); memset(in, i == 0 || i == 2 ? 0xE7 : 'z', n); struct rlimit r{}; FILE* f = fopen("/proc/self/statm", "r"); long pages = 0; if (f) { if (fscanf(f, "%ld", &pages) != 1) pages = 0; fclose(f); } r.rlim_cur = r.rlim_max = (rlim_t)pages * 4096 + (8 << 20); setrlimit(RLIMIT_AS, &r);
    fingera_ex_key xk; fingera_ex_pubkey xp; int z; size_t k = 0;
    switch (i) { case 0: k = fingera_to_base58(in, n, big); break; case 1: k = fingera_from_base58(in, n, big); break; case 2: k = fingera_to_base58_check(in, n, "a", 1, big); break; case 3: k = fingera_from_base58_check(in, n, big); break; case 4: k = fingera_btc_key_from_string(in, n, o, &z, MAIN); break; case 5: k = fingera_exkey_from_string(in, n, &xk, MAIN); break; default: k = fingera_expubkey_from_string(in, n, &xp, MAIN); }
    _exit(k ? 9 : 0);
  }
  int st; waitpid(p, &st, 0); checked(); off_t e = lseek(out, 0, SEEK_END);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) fail("%s of %zu bytes is ended by signal %d when the address space is full", names[i], n, WTERMSIG(st));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 9) fail("%s of %zu bytes returns a result it cannot have computed", names[i], n);
  std::string err(e, 0); if (e) pread(out, &err[0], e, 0); for (const char* t : DAMAGE) if (err.find(t) != std::string::npos) fail("%s of %zu bytes under an address space limit ends in \"%s\"", names[i], n, t);
  if (!e) fail("%s of %zu bytes ends the process without a message when the address space is full", names[i], n);
}
static void define() {
  make_inputs(); calls();
  add("patterns", (long)CALLS.size(), patterns, std::to_string(CALLS.size()) + " calls (20 sizes) x every subset of their first " + std::to_string(pick(6, 10)) + " requests for memory refused, and every k-th request and all after it", 120);
  add("address-space", 7, limited, "seven calls with 96 MiB of input under an address space limit", 120);
}
int main(int c, char** v) { return run(c, v, "C30", define, {"requests reach malloc, calloc, realloc, memalign, aligned_alloc or posix_memalign", "libsecp256k1's own answer to a refused request (a message and abort) counts as ending the process with a message"}); }
