// C21: results of calls in every short history equal their results in a fresh process; nothing is leaked.
#include "heap.hpp"
#include "ref.hpp"
#include <map>
#include "ops.hpp"
static R* want;                           // expected results, from fresh processes
static int FILLS[] = {0, 0xA5, 0xFF};
static const int ERRS[] = {0, 5, 22};
static char* shared_msg;
static void setup() { make_inputs(); int nul = open("/dev/null", O_WRONLY); (void)nul;
  want = (R*)mmap(0, sizeof(R) * N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); shared_msg = (char*)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < N; i++) { fflush(stdout); pid_t p = fork(); if (p == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); alarm(100); want[i].n = 0; if (OPS[i].state == 1 || OPS[i].state == 3) fingera_btc_key_init(); OPS[i].f(want[i]); _exit(0); } int st; waitpid(p, &st, 0); if (st) want[i].n = 1 << 30; }
}
static char iobuf[8192];
static int lowest_fd() { int f = dup(0); if (f >= 0) close(f); return f; }
// Run a history in a fresh process. init: start initialised.
static void history(const std::vector<int>& seq, bool init, int fill, int times = 1, int files = 0) {
  std::string t; for (int i : seq) { t += OPS[i].name; t += " "; if (t.size() > 300) { t += "..."; break; } }
  note("%s%sfill %02x", init ? "init " : "", t.c_str(), fill);
  op(seq.size() * times);
  static char* m = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  m[0] = 0;
  pid_t p = fork();
  if (p == 0) {
    static int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 0); setvbuf(stdout, iobuf, _IOFBF, sizeof iobuf);   // stdio's own lazily made buffer is not the library's
    for (int i = 0; i < files; i++) if (dup(nul) < 0) _exit(44);
    bool on = false; static R r; heap::H& H = heap::h(); H.fill = fill;
    R w; (void)w;
    auto run_op = [&](int i) { H.in_lib = true; errno = ERRS[fill % 3]; r.n = 0; OPS[i].f(r); H.in_lib = false; };
    int f0 = lowest_fd();
    if (init) { run_op(0); on = true; }
    int base = -1;
    for (int k = 0; k < times; k++) for (size_t q = 0; q < seq.size(); q++) {
      int i = seq[q];
      memset(o, fill ^ 0x33, sizeof o < 700 ? sizeof o : 700);
      heap::scrub(fill);
      int live = H.nlive;
      run_op(i);
      if (OPS[i].state == 2) on = true; if (OPS[i].state == 3) on = false;
      if (r.n != want[i].n || memcmp(r.b, want[i].b, r.n)) { snprintf(m, 4096, "call %zu (%s) of the history %s[fill %02x, round %d] returns %s, in a fresh process %s", q + 1, OPS[i].name, t.c_str(), fill, k, hex(r.b, r.n, 160).c_str(), hex(want[i].b, want[i].n < 6000 ? want[i].n : 0, 160).c_str()); _exit(9); }
      if (OPS[i].state < 2 && H.nlive != live) { snprintf(m, 4096, "%s leaks %d heap blocks (history %s)", OPS[i].name, H.nlive - live, t.c_str()); _exit(9); }
      (void)base;
    }
    if (on) { run_op(1); }
    if (H.nlive) { snprintf(m, 4096, "%d heap blocks (first of %zu bytes) are still allocated after uninit (history %s)", H.nlive, H.live[0].n, t.c_str()); _exit(9); }
    if (lowest_fd() != f0) { snprintf(m, 4096, "a file descriptor is leaked (history %s)", t.c_str()); _exit(9); }
    _exit(0);
  }
  int st; waitpid(p, &st, 0); checked();
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  if (m[0]) fail("%s", m);
  fail("the history %s[fill %02x] ends the process (status %x)", t.c_str(), fill, st);
}
// choose the next operation among those enabled
static int next_op(bool& on, const std::vector<int>& alphabet) {
  int en[N], n = 0; for (int i : alphabet) { int s = OPS[i].state; if (s == 0 || (s == 2 ? !on : on)) en[n++] = i; }
  int c = en[choose(n)]; if (OPS[c].state == 2) on = true; if (OPS[c].state == 3) on = false; return c;
}
static std::vector<int> all_ops() { std::vector<int> v; for (int i = 0; i < N; i++) v.push_back(i); return v; }
static std::vector<int> named(std::initializer_list<const char*> l) { std::vector<int> v; for (auto s : l) for (int i = 0; i < N; i++) if (!strcmp(OPS[i].name, s)) v.push_back(i); if (v.size() != l.size()) abort(); return v; }
// Sizes of every kind, in three orders and with three contents of fresh memory.
struct Fam { const char* name; bool init; std::function<void(R&, size_t)> f; };
static std::map<std::string, std::vector<Bytes>> POOL;
static const size_t BIGS[] = {384, 511, 512, 513, 1000, 1024, 1500}; static const int SMALL = 301, NS = SMALL + 7;
static size_t size_of(int i) { return i < SMALL ? i : BIGS[i - SMALL]; }
static const Bytes& pool(const char* k, size_t n) { auto& v = POOL[k]; for (int i = 0; i < NS; i++) if (size_of(i) == n) return v[i]; abort(); }
static void fill_pool(const char* k, std::function<Bytes(size_t)> f) { auto& v = POOL[k]; for (int i = 0; i < NS; i++) v.push_back(f(size_of(i))); }
static std::vector<Fam> fams() {
  std::vector<Fam> v; static const auto raw = [](size_t n) -> const Bytes& { return pool("raw", n); };
  fill_pool("raw", [](size_t n) { return ref::pattern(6, n); });
  fill_pool("hex", [](size_t n) { return ref::hexs(raw(n), n & 1); }); fill_pool("b64", [](size_t n) { return ref::base64(raw(n), false); }); fill_pool("b64u", [](size_t n) { return ref::base64(raw(n), true); }); fill_pool("b32", [](size_t n) { return ref::base32(raw(n)); });
  fill_pool("b58", [](size_t n) { return ref::base58(Bytes(n % 3, 0) + raw(n)); }); fill_pool("chk", [](size_t n) { return ref::base58check(raw(n)); }); fill_pool("chk0", [](size_t n) { return ref::base58check(Bytes(1, 0) + raw(n)); });
  fill_pool("wif", [](size_t n) { return ref::base58check("\x80" + raw(n)); }); fill_pool("xprv", [](size_t n) { return ref::base58check(ref::be32(0x0488ADE4) + raw(n)); }); fill_pool("xpub", [](size_t n) { return ref::base58check(ref::be32(0x0488B21E) + raw(n)); });
  fill_pool("seg", [](size_t n) { return ref::bech32("bc", Bytes(1, 0) + ref::base32_raw(raw(n))); });
  fill_pool("der", [](size_t n) { Bytes d = I.der + raw(n); return d.substr(0, n); }); fill_pool("dk", [](size_t n) { Bytes d = I.dkey + raw(n); return d.substr(0, n); });
  v.push_back({"hex", false, [](R& r, size_t n) { for (int up = 0; up < 2; up++) { fingera_to_hex(T2(raw(n)), (char*)o, up); r.put(o, 2 * n); } const Bytes& h = pool("hex", n); size_t k = fingera_from_hex(T2(h), o); ask_str(r, k); r.num(fingera_from_hex(T2(raw(n)), o)); }});
  v.push_back({"base64", false, [](R& r, size_t n) { fingera_to_base64(T2(raw(n)), (char*)o); r.put(o, (n + 2) / 3 * 4); fingera_to_base64_urlsafe(T2(raw(n)), (char*)o); r.put(o, (n + 2) / 3 * 4); ask_str(r, fingera_from_base64(T2(pool("b64", n)), o)); ask_str(r, fingera_from_base64_urlsafe(T2(pool("b64u", n)), o)); r.num(fingera_from_base64(T2(raw(n)), o)); }});
  v.push_back({"base32", false, [](R& r, size_t n) { fingera_to_base32(T2(raw(n)), (char*)o); r.put(o, (n + 4) / 5 * 8); ask_str(r, fingera_from_base32(T2(pool("b32", n)), o)); ask_str(r, fingera_to_base32_raw(T2(raw(n)), o)); size_t k = fingera_to_base32_raw(T2(raw(n)), o); size_t z = fingera_from_base32_raw(o, k, o + 8000); r.num(z); r.put(o + 8000, z); }});
  v.push_back({"to_base58", false, [](R& r, size_t n) { ask_str(r, fingera_to_base58(T2(raw(n)), (char*)o)); }});
  v.push_back({"from_base58", false, [](R& r, size_t n) { ask_str(r, fingera_from_base58(T2(pool("b58", n)), o)); r.num(fingera_from_base58(T2(raw(n)), o)); }});
  v.push_back({"to_base58_check", false, [](R& r, size_t n) { for (size_t p : {0, 1, 4, 60}) ask_str(r, fingera_to_base58_check(T2(raw(n)), I.m64.data(), p, (char*)o)); }});
  v.push_back({"from_base58_check", false, [](R& r, size_t n) { ask_str(r, fingera_from_base58_check(T2(pool("chk", n)), o)); r.num(fingera_from_base58_check(T2(pool("b58", n)), o)); }});
  v.push_back({"wif", false, [](R& r, size_t n) { int c = 5, k = fingera_btc_key_from_string(T2(pool("wif", n)), o, &c, MAIN); r.num(k); if (k) { r.num(c); r.put(o, 32); } r.num(fingera_btc_key_from_string(T2(pool("chk", n)), o, &c, TEST)); r.num(fingera_btc_key_from_string(T2(pool("b58", n)), o, &c, TEST)); }});
  v.push_back({"extended keys", false, [](R& r, size_t n) { fingera_ex_key k; fingera_ex_pubkey q; int a = fingera_exkey_from_string(T2(pool("xprv", n)), &k, MAIN), b = fingera_expubkey_from_string(T2(pool("xpub", n)), &q, MAIN); r.num(a); r.num(b); if (a) { r.put(k.key, 32); r.put(k.ext.chain_code, 32); } if (b) { r.put(q.c_pubkey, 33); r.put(q.ext.chain_code, 32); } r.num(fingera_exkey_from_string(T2(pool("chk", n)), &k, MAIN)); r.num(fingera_expubkey_from_string(T2(pool("b58", n)), &q, TEST)); }});
  v.push_back({"address", false, [](R& r, size_t n) { for (const char* k : {"chk0", "chk", "b58", "seg", "raw"}) for (Par p : {MAIN, TEST, REG}) { size_t z = 2000; int t = fingera_btc_address_decode(T2(pool(k, n)), o, &z, p); r.num(t); if (t > 0) ask_str(r, z); } }});
  v.push_back({"bech32", false, [](R& r, size_t n) { size_t h = 90; if (n < 90) { int k = fingera_bech32_decode(T2(pool("seg", n)), (char*)o2, &h, o); r.num(k); if (k >= 0) { r.put(o, k); r.put(o2, h); } } fingera_bech32_encode("tb", 2, (const uint8_t*)Bytes(n, 7).data(), n, (char*)o); r.put(o, n + 9); }});
  v.push_back({"digests", false, [](R& r, size_t n) { fingera_sha1(T2(raw(n)), o); r.put(o, 20); fingera_sha2_256(T2(raw(n)), o); r.put(o, 32); fingera_sha2_512(T2(raw(n)), o); r.put(o, 64); fingera_ripemd160(T2(raw(n)), o); r.put(o, 20); fingera_btc_hash160(T2(raw(n)), o); r.put(o, 20); fingera_btc_hash256(T2(raw(n)), o); r.put(o, 32); fingera_btc_hash256_d64(o, I.longmsg.data(), n % 40); r.put(o, n % 40 * 32); }});
  v.push_back({"macs", false, [](R& r, size_t n) { fingera_hmac_sha256(T2(raw(n)), T(msg), o); r.put(o, 32); fingera_hmac_sha256(T(msg), T2(raw(n)), o); r.put(o, 32); fingera_hmac_sha512(T2(raw(n)), T(msg), o); r.put(o, 64); fingera_hmac_sha512(T(key), T2(raw(n)), o); r.put(o, 64); fingera_ex_key k; fingera_exkey_init(&k, T2(raw(n))); r.put(k.key, 32); r.put(k.ext.chain_code, 32); }});
  v.push_back({"integers", false, [](R& r, size_t n) { uint64_t x = 0; int64_t y = 0; for (int s = 0; s < 64; s += 7) { memset(o, 0, 10); r.num(fingera_encode_varint((uint64_t)n << s, o)); r.put(o, 10); r.num(fingera_decode_varint(o, 10, &x)); r.num(x); memset(o, 0, 10); r.num(fingera_encode_zigzag(-(int64_t)((uint64_t)n << s >> 1), o)); r.put(o, 10); r.num(fingera_decode_zigzag(o, 10, &y)); r.num(y); memset(o, 0, 10); } r.num(fingera_decode_varint(T2(raw(n)), &x)); }});
  v.push_back({"parsers", true, [](R& r, size_t n) { int k = fingera_btc_signature_decode(T2(pool("der", n)), o); r.num(k); if (k) r.put(o, 64); r.num(k = fingera_btc_key_decode(T2(pool("dk", n)), o)); if (k) r.put(o, 32); r.num(fingera_btc_signature_decode(T2(raw(n)), o)); r.num(fingera_btc_key_decode(T2(raw(n)), o)); }});
  v.push_back({"keys", true, [](R& r, size_t n) { Bytes k = I.key; k[3] = (char)n; k[4] = (char)(n >> 8); fingera_btc_key_get_pub(k.data(), o); r.put(o, 64); r.num(fingera_btc_pubkey_encode(o, o2, 33)); r.put(o2, 33); fingera_btc_key_sign(k.data(), I.hash.data(), o2); r.put(o2, 64); r.num(fingera_btc_key_verify(o, I.hash.data(), o2)); r.num(fingera_btc_key_verify(o, I.chain.data(), o2)); r.num(fingera_btc_key_derive(k.data(), I.chain.data(), o, o2, (uint32_t)(n * 0x1000193))); r.put(o, 32); r.put(o2, 32); r.num(fingera_btc_key_encode(k.data(), o, n & 1 ? 279 : 214)); r.put(o, 214); }});
  v.push_back({"random and dumps", false, [](R& r, size_t n) { fingera_os_rand_bytes(o, n); fingera_hex_dump(T2(raw(n)), n & 1); fflush(stdout); memset(o, 1, n + 3); fingera_cleanse(o, n); r.put(o, n + 3); }});
  return v;
}
static void sweep(const Fam& f) {
  static uint64_t* h = (uint64_t*)mmap(0, 8 * NS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static char* m = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); m[0] = 0;
  for (int pass = 0; pass < 4; pass++) {
    fflush(stdout); pid_t p = fork();
    if (p == 0) {
      int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); setvbuf(stdout, iobuf, _IOFBF, sizeof iobuf); alarm(400);
      heap::H& H = heap::h(); H.fill = pass == 0 ? 0 : pass == 1 ? 0xA5 : 0xFF; static R r;
      H.in_lib = true; if (f.init) fingera_btc_key_init(); H.in_lib = false;
      int f0 = lowest_fd(), live = H.nlive;
      auto at = [&](int i) {
        memset(o, H.fill ^ 0x3C, 4000); heap::scrub(H.fill, 40000); r.n = 0; errno = ERRS[pass % 3];
        H.in_lib = true; f.f(r, size_of(i)); H.in_lib = false;
        uint64_t v = 14695981039346656037ull; for (size_t q = 0; q < r.n; q++) v = (v ^ r.b[q]) * 1099511628211ull;
        if (pass == 0) h[i] = v;
        else if (h[i] != v) { snprintf(m, 4096, "%s with %zu bytes gives another result in pass %d (fill %02x, other order) than in a process that came from smaller sizes", f.name, size_of(i), pass, H.fill); _exit(9); }
        if (H.nlive != live) { snprintf(m, 4096, "%s with %zu bytes leaks %d heap blocks", f.name, size_of(i), H.nlive - live); _exit(9); }
        if (lowest_fd() != f0) { snprintf(m, 4096, "%s with %zu bytes leaks a file descriptor", f.name, size_of(i)); _exit(9); }
      };
      if (pass == 0) for (int i = 0; i < NS; i++) at(i);
      else if (pass == 1) for (int i = NS - 1; i >= 0; i--) at(i);
      else if (pass == 2) for (int i = 0; i < NS; i++) { at(i); at((i * 7 + 13) % NS); at(NS - 1); at(0); }
      else for (int i = 0; i < NS; i++) for (int k = 0; k < 3; k++) at((i * 97 + 31) % NS);
      H.in_lib = true; if (f.init) fingera_btc_key_uninit(); H.in_lib = false;
      if (H.nlive > live - (f.init ? 1 : 0) && H.nlive) { snprintf(m, 4096, "%d heap blocks are still allocated at the end of the sweep of %s", H.nlive, f.name); _exit(9); }
      _exit(0);
    }
    int st; waitpid(p, &st, 0); checked(); op(NS * (pass == 2 ? 4 : pass == 3 ? 3 : 1)); inner(NS * (pass == 2 ? 4 : pass == 3 ? 3 : 1), 1);
    note("pass %d over %s", pass, f.name);
    if (m[0]) fail("%s", m);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) fail("pass %d over %s ends the process (status %x)", pass, f.name, st);
  }
}
#include "c21_twins.hpp"
static void define() {
  setup();
  static const std::vector<int> A = all_ops();
  static const std::vector<int> core = named({"init", "uninit", "sign", "verify", "derive", "key_new", "wif-bad", "xprv-long", "from_base58-long", "address-bad"});
  add("fresh", N, [](long i) { if (want[i].n >= 1u << 30) fail("%s does not return in a fresh process", OPS[i].name); std::vector<int> s; bool ini = OPS[i].state == 1 || OPS[i].state == 3; s.push_back((int)i); for (int f : FILLS) history(s, ini, f); }, "each operation alone, 3 contents of fresh memory");
  add("pairs", N, [](long i) { int f = FILLS[choose(3)]; bool on = OPS[i].state == 1 || OPS[i].state == 3; bool ini = on; if (OPS[i].state == 0) { on = ini = choose(2); } if (OPS[i].state == 2) on = true; if (OPS[i].state == 3) on = false; std::vector<int> s{(int)i}; s.push_back(next_op(on, A)); history(s, ini, f); }, "all histories of 2 operations over 64, initialised or not, 3 contents of fresh memory");
  add("triples", N, [](long i) { bool on = true, ini = true; if (OPS[i].state == 2) { ini = false; } if (OPS[i].state == 3) on = false; std::vector<int> s{(int)i}; s.push_back(next_op(on, A)); s.push_back(next_op(on, A)); history(s, ini, FILLS[(s[0] + s[1] + s[2]) % 3]); }, "all histories of 3 operations over 64");
  int D = pick(4, 6);
  add("core", 10, [D](long i) { bool on = true, ini = true; int a = core[i]; if (OPS[a].state == 2) ini = false; if (OPS[a].state == 3) on = false; std::vector<int> s{a}; for (int k = 1; k < D; k++) s.push_back(next_op(on, core)); history(s, ini, FILLS[(s[0] + s[1] + s[2]) % 3]); }, "all histories of 4 (thorough 6) operations over 10: init, uninit, signing, verifying, failing and heap-using calls", 600);
  int RN = pick(66000, 200000);
  add("repeat", N, [RN](long i) { if (OPS[i].state >= 2) { history({0, 1}, false, 0xA5, RN / 10); return; } int f = choose(3); history({(int)i}, OPS[i].state == 1, FILLS[f], f && !thorough() ? 3000 : RN); }, std::to_string(RN) + " calls of each operation in a row; init/uninit cycles", 3000);
  add("tour", 6, [](long u) { std::vector<int> s; bool on = true; int step = 1 + 2 * (int)u; for (int d = 0; d < N; d++) for (int i = 0, x = 0; i < N; i++, x = (x + step + d) % N) { int st = OPS[x].state; if (st == 2 ? on : st && !on) continue; if (st == 2) on = true; if (st == 3) on = false; s.push_back(x); if (st == 3) { s.push_back(0); on = true; } } history(s, true, FILLS[u % 3]); }, "six long histories of thousands of calls in different orders", 600);
  static const std::vector<Fam> FA = fams();
  add("sizes", (long)FA.size(), [](long i) { sweep(FA[i]); }, std::to_string(FA.size()) + " families of calls with every size from 0 to 300 and 7 up to 1500, ascending, descending, mixed with other sizes and repeated, 3 contents of fresh memory", 600);
  long TF = (long)twins::fams().size(), TV = 0; for (long i = 0; i < TF; i++) TV += (long)twins::vars((int)i).size();
  add("twins", TF, twins::twin, std::to_string(TF) + " functions with pairs (thorough: triples) of calls whose arguments differ in one byte, one length or one value (" + std::to_string(TV) + " variants), in the same and in other buffers, against the result in a fresh process", 900);
  add("parade", TF, twins::parade, "all variants of each function in one process, in 4 orders, twice", 900);
  add("cross", TF, twins::cross, "all ordered pairs of functions: variants of one, each after a call of the other", 900);
  add("open-files", N, [](long i) { static const int files[] = {5, 30, 61, 62, 125, 300, 1000}; int k = choose(7); std::vector<int> q{(int)i, OPS[i].state == 2 ? 1 : OPS[i].state == 3 ? 0 : (int)i}; history(q, OPS[i].state == 1 || OPS[i].state == 3, FILLS[k % 3], 1, files[k]); }, "each operation twice in a process with 5 to 1000 more files open");
}
int main(int c, char** v) { return run(c, v, "C21", define, {"the first result of a call in a fresh process is the right one (the other properties decide that)", "random draws are only checked for being usable"}); }
