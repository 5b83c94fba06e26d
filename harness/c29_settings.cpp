// C29: every call gives the same result under every locale, errno, rounding mode, descriptor table, limit and thread.
#include "ops.hpp"
#include <map>
#include <cfenv>
#include <locale.h>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <grp.h>
#include <xmmintrin.h>
#include "c21_twins.hpp"
struct Setting { std::string name; bool (*enter)(const std::string&); bool thread = false; };
static std::string locdir;
static bool set_locale(const std::string& n) { setenv("LOCPATH", locdir.c_str(), 1); return setlocale(LC_ALL, n.c_str()) != nullptr; }
// The compiled locales: the Turkish ones (dotless i), decimal commas, multi-byte encodings, and one of our own in which many bytes are space.
static const char* LOCALES[][3] = {{"tr_TR", "UTF-8", "tr_TR.UTF-8"}, {"tr_TR", "ISO-8859-9", "tr_TR.ISO-8859-9"}, {"az_AZ", "UTF-8", "az_AZ.UTF-8"}, {"de_DE", "ISO-8859-15", "de_DE.ISO-8859-15"}, {"ar_SA", "UTF-8", "ar_SA.UTF-8"}, {"ja_JP", "EUC-JP", "ja_JP.EUC-JP"}, {"ru_RU", "KOI8-R", "ru_RU.KOI8-R"}, {"zh_CN", "GB18030", "zh_CN.GB18030"}, {"lt_LT", "ISO-8859-13", "lt_LT.ISO-8859-13"}, {"SPACES", "ISO-8859-1", "spaces"}};
static std::vector<Setting> ST;
static void make_locales() {
  locdir = builddir() + "/locale"; mkdir(locdir.c_str(), 0755); if (locdir[0] != '/') { char c[4096]; if (getcwd(c, sizeof c)) locdir = std::string(c) + "/" + locdir; }
  std::string own = locdir + "/spaces.src"; FILE* f = fopen(own.c_str(), "w");
  if (f) { fputs("LC_CTYPE\ncopy \"en_US\"\nspace <U0009>;<U000A>;<U000B>;<U000C>;<U000D>;<U0020>;<U0085>;<U00A0>;<U00A8>;<U00BF>\nEND LC_CTYPE\n", f);
    for (const char* c : {"LC_COLLATE", "LC_MONETARY", "LC_TIME", "LC_MESSAGES", "LC_PAPER", "LC_NAME", "LC_ADDRESS", "LC_TELEPHONE", "LC_MEASUREMENT", "LC_IDENTIFICATION"}) fprintf(f, "%s\ncopy \"en_US\"\nEND %s\n", c, c);
    fputs("LC_NUMERIC\ncopy \"de_DE\"\nEND LC_NUMERIC\n", f); fclose(f); }
  std::vector<pid_t> ps;
  for (auto& l : LOCALES) { std::string src = strcmp(l[0], "SPACES") ? l[0] : own, out = locdir + "/" + l[2]; struct stat st; if (!stat((out + "/LC_CTYPE").c_str(), &st)) continue;
    pid_t p = fork(); if (!p) { int nul = open("/dev/null", O_RDWR); dup2(nul, 1); dup2(nul, 2); alarm(100); execlp("localedef", "localedef", "-c", "--no-archive", "-i", src.c_str(), "-f", l[1], out.c_str(), nullptr); _exit(1); } ps.push_back(p); }
  for (pid_t p : ps) { int st; waitpid(p, &st, 0); }
}
static int E0;
static void settings() {
  make_locales(); ST.push_back({"the default", [](const std::string&) { return true; }});
  for (const char* l : {"C.utf8", "POSIX"}) ST.push_back({std::string("locale ") + l, [](const std::string& n) { return setlocale(LC_ALL, n.c_str() + 7) != nullptr; }});
  for (auto& l : LOCALES) { pid_t p = fork(); if (!p) _exit(set_locale(l[2]) ? 0 : 1); int st; waitpid(p, &st, 0); if (!st) ST.push_back({std::string("locale ") + l[2], [](const std::string& n) { return set_locale(n.substr(7)); }}); }
  ST.push_back({"errno EINTR", [](const std::string&) { E0 = EINTR; return true; }}); ST.push_back({"errno ENOMEM", [](const std::string&) { E0 = ENOMEM; return true; }});
  ST.push_back({"errno ERANGE", [](const std::string&) { E0 = ERANGE; return true; }}); ST.push_back({"errno -1", [](const std::string&) { E0 = -1; return true; }});
  ST.push_back({"rounding upward", [](const std::string&) { return fesetround(FE_UPWARD) == 0; }}); ST.push_back({"rounding downward", [](const std::string&) { return fesetround(FE_DOWNWARD) == 0; }}); ST.push_back({"rounding to zero", [](const std::string&) { return fesetround(FE_TOWARDZERO) == 0; }});
  ST.push_back({"denormals as zero", [](const std::string&) { _mm_setcsr(_mm_getcsr() | 0x8040); return true; }}); ST.push_back({"single-precision x87", [](const std::string&) { unsigned short w; asm volatile("fnstcw %0" : "=m"(w)); w &= ~0x300; asm volatile("fldcw %0" : : "m"(w)); return true; }});
  ST.push_back({"standard input closed", [](const std::string&) { close(0); return true; }}); ST.push_back({"no standard descriptors", [](const std::string&) { close(0); close(1); close(2); return true; }});
  ST.push_back({"room for one more descriptor", [](const std::string&) { int f = dup(0); close(f); struct rlimit r{(rlim_t)f + 1, (rlim_t)f + 1}; return setrlimit(RLIMIT_NOFILE, &r) == 0; }});
  ST.push_back({"an empty environment", [](const std::string&) { clearenv(); return true; }});
  ST.push_back({"a misleading environment", [](const std::string&) { for (const char* v : {"LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE"}) setenv(v, "tr_TR.UTF-8", 1); for (const char* v : {"DEBUG", "VERBOSE", "FINGERA", "FINGERA_LIBC", "TESTNET", "REGTEST", "NETWORK", "CHAIN", "FAKE", "TEST", "CI", "SEED", "RANDOM_SEED", "POSIXLY_CORRECT", "HOME", "TMPDIR", "RANDFILE"}) setenv(v, "1", 1); setenv("TZ", "XXX-99", 1); tzset(); return true; }});
  ST.push_back({"an unlinked working directory", [](const std::string&) { std::string d = builddir() + "/cwd" + std::to_string(getpid()); mkdir(d.c_str(), 0700); int r = chdir(d.c_str()); if (builddir()[0] == '/') rmdir(d.c_str()); return r == 0; }});
  ST.push_back({"umask 0777", [](const std::string&) { umask(0777); return true; }});
  ST.push_back({"an unprivileged user", [](const std::string&) { int r = setgroups(0, nullptr); r |= setgid(65534); r |= setuid(65534); (void)r; return true; }});
  ST.push_back({"all signals blocked", [](const std::string&) { sigset_t s; sigfillset(&s); sigprocmask(SIG_BLOCK, &s, nullptr); return true; }});
  ST.push_back({"signals ignored", [](const std::string&) { for (int s = 1; s < 32; s++) if (s != SIGALRM && s != SIGSEGV && s != SIGABRT && s != SIGBUS) signal(s, SIG_IGN); return true; }});
  ST.push_back({"lowest priority", [](const std::string&) { setpriority(PRIO_PROCESS, 0, 19); return true; }});
  ST.push_back({"a second thread", [](const std::string&) { return true; }, true});
}
// Run g in a child of its own under the setting.
static std::function<void()>* G;
static void under(const Setting& s, std::function<void()> g, const char* what) {
  twins::in_child([&] {
    static char iobuf[4096]; setvbuf(stdout, iobuf, _IOFBF, sizeof iobuf);
    if (!s.enter(s.name)) { snprintf(twins::shared().m, 4096, "HARNESS: cannot enter the setting %s", s.name.c_str()); _exit(8); }
    if (!s.thread) { g(); return; }
    G = &g; pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 << 10);
    if (pthread_create(&t, &a, [](void*) -> void* { (*G)(); return nullptr; }, nullptr)) _exit(8);
    pthread_join(t, nullptr);
  }, what);
}
static std::vector<uint64_t> base(int fi) {       // the results in the default setting
  std::vector<uint64_t> w; auto& vs = twins::vars(fi); auto& f = twins::fams()[fi];
  under(ST[0], [&] { if (f.init) fingera_btc_key_init(); static R r; for (size_t k = 0; k < vs.size(); k++) { twins::call(f, vs[k], 0, r); twins::shared().h[k] = twins::digest(r); } }, f.name);
  w.assign(twins::shared().h, twins::shared().h + vs.size()); return w;
}
static void variants(long fi) {
  static std::map<long, std::vector<uint64_t>> B; if (!B.count(fi)) B[fi] = base((int)fi);
  const std::vector<uint64_t>& want = B[fi]; const Setting& s = ST[1 + choose((int)ST.size() - 1)]; auto& f = twins::fams()[fi]; auto& vs = twins::vars((int)fi);
  size_t step = thorough() || s.name.compare(0, 6, "locale") == 0 ? 1 : 5; note("%s under %s", f.name, s.name.c_str()); op(vs.size() / step);
  under(s, [&] { errno = E0; if (f.init) fingera_btc_key_init(); static R r;
    for (size_t k = 0; k < vs.size(); k += step) { errno = E0; twins::call(f, vs[k], 0, r); if (twins::digest(r) != want[k]) { snprintf(twins::shared().m, 4096, "%s (%s) under the setting \"%s\" does not return what it returns by default, but %s", f.name, vs[k].what.c_str(), s.name.c_str(), hex(r.b, r.n, 160).c_str()); _exit(9); } } }, (std::string(f.name) + " under the setting \"" + s.name + "\"").c_str());
  inner(vs.size() / step, 1); checked();
}
static R* want;
static void operation(long i) {
  const Setting& s = ST[choose((int)ST.size())]; const Op& q = OPS[i]; note("%s under %s", q.name, s.name.c_str()); op(2);
  bool ini = q.state == 1 || q.state == 3;
  under(s, [&] { static R r; errno = E0; if (ini) fingera_btc_key_init();
    for (int k = 0; k < (q.state < 2 ? 2 : 1); k++) { memset(o, 0x33, 700); r.n = 0; errno = E0; q.f(r); if (r.n != want[i].n || memcmp(r.b, want[i].b, r.n)) { snprintf(twins::shared().m, 4096, "%s under the setting \"%s\" returns %s, by default %s", q.name, s.name.c_str(), hex(r.b, r.n, 160).c_str(), hex(want[i].b, want[i].n, 160).c_str()); _exit(9); } } }, (std::string(q.name) + " under the setting \"" + s.name + "\"").c_str());
  checked();
}
static void errnos(long i) {                    // every value errno may have when the call is made
  const Op& q = OPS[i]; bool ini = q.state == 1 || q.state == 3; note("%s with every errno", q.name); op(140);
  under(ST[0], [&] { static R r; if (ini) fingera_btc_key_init();
    for (int e = -1; e < 140; e++) { memset(o, 0x33, 700); r.n = 0; errno = e; q.f(r); if (r.n != want[i].n || memcmp(r.b, want[i].b, r.n)) { snprintf(twins::shared().m, 4096, "%s called with errno %d returns %s, otherwise %s", q.name, e, hex(r.b, r.n, 160).c_str(), hex(want[i].b, want[i].n, 160).c_str()); _exit(9); }
      if (q.state == 2) fingera_btc_key_uninit(); if (q.state == 3) fingera_btc_key_init(); } }, (std::string(q.name) + " called with some errno").c_str());
  inner(141, 1); checked();
}
// Text, letter by letter, against the model.
static std::vector<const Setting*> locs() { std::vector<const Setting*> v; for (auto& s : ST) if (s.name.compare(0, 6, "locale") == 0) v.push_back(&s); return v; }
static void bech32_text(long li) {
  const Setting& s = *locs()[li]; int pos = choose(3), len = pos + 1 + choose(3); note("readable parts of %d characters under %s", len, s.name.c_str()); op(94 * 4);
  under(s, [&] { for (int c = 33; c < 127; c++) for (int up = 0; up < 2; up++) {
    Bytes h(len, 'q'); h[pos] = (char)c; Bytes d = ref::base32_raw(ref::pattern(5, 7)), H, D; if (c >= 'A' && c <= 'Z') continue;
    Bytes t = ref::bech32(h, d); if (up) for (auto& x : t) if (x >= 'a' && x <= 'z') x -= 32;
    if (!ref::unbech32(t, H, D)) { snprintf(twins::shared().m, 4096, "model refuses %s", t.c_str()); _exit(9); }
    char hr[100]; size_t hn = sizeof hr; uint8_t out[100]; int n = fingera_bech32_decode(t.data(), t.size(), hr, &hn, out);
    if (n != (int)D.size() || hn != H.size() || memcmp(hr, H.data(), hn) || memcmp(out, D.data(), n)) { snprintf(twins::shared().m, 4096, "bech32_decode(\"%s\") under the setting \"%s\" returns %d, BIP173 says %zu symbols and the readable part %s", t.c_str(), s.name.c_str(), n, D.size(), H.c_str()); _exit(9); }
    if (!up) { char e[128]; memset(e, 0, sizeof e); fingera_bech32_encode(h.data(), h.size(), (const uint8_t*)d.data(), d.size(), e); if (t != e) { snprintf(twins::shared().m, 4096, "bech32_encode(\"%s\") under the setting \"%s\" gives %s, BIP173 says %s", h.c_str(), s.name.c_str(), e, t.c_str()); _exit(9); } }
  } }, s.name.c_str());
  inner(94 * 2, 1); checked();
}
static void byte_text(long li) {                 // every byte at every place of a text, in every decoder
  const Setting& s = *locs()[li]; int which = choose(6); const char* names[] = {"from_base58", "from_base64", "from_base64_urlsafe", "from_base32", "from_hex", "address_decode"}; note("%s under %s", names[which], s.name.c_str());
  Bytes t[] = {ref::base58(ref::pattern(5, 12)), ref::base64(ref::pattern(5, 13), false), ref::base64(ref::pattern(5, 13), true), ref::base32(ref::pattern(5, 12)), ref::hexs(ref::pattern(5, 12), false), I.addr};
  Bytes T0 = t[which]; op(256 * (T0.size() + 1)); static R* w = (R*)mmap(0, sizeof(R), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto all = [&](std::function<void(const Bytes&, uint64_t)> sink) { static R r; uint64_t v = 0;
    for (size_t p = 0; p <= T0.size(); p++) for (int c = 0; c < 256; c++) for (int ins = 0; ins < 2; ins++) {
      if (p == T0.size() && !ins) continue; Bytes x = T0; if (ins) x.insert(p, 1, (char)c); else x[p] = (char)c; r.n = 0; memset(o, 0, 200); size_t n = 0, z = 200;
      switch (which) { case 0: n = fingera_from_base58(T2(x), o); break; case 1: n = fingera_from_base64(T2(x), o); break; case 2: n = fingera_from_base64_urlsafe(T2(x), o); break; case 3: n = fingera_from_base32(T2(x), o); break; case 4: n = fingera_from_hex(T2(x), o); break; default: r.num(fingera_btc_address_decode(T2(x), o, &z, MAIN)); n = 0; }
      r.num(n); r.put(o, n < 100 ? n : 100); sink(x, twins::digest(r)); } };
  static uint64_t* D = (uint64_t*)mmap(0, 8 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  under(ST[0], [&] { size_t k = 0; all([&](const Bytes&, uint64_t d) { D[k++] = d; }); }, names[which]);
  under(s, [&] { size_t k = 0; all([&](const Bytes& x, uint64_t d) { if (D[k++] != d) { snprintf(twins::shared().m, 4096, "%s(%s) under the setting \"%s\" does not return what it returns by default", names[which], quote(x, 100).c_str(), s.name.c_str()); _exit(9); } }); }, s.name.c_str());
  inner(512 * T0.size(), 1); checked();
}
static void fatal_under(long si) {
  const Setting& s = ST[si]; int e = choose(2) ? ENOENT : 0; note("fatal, errno %d, under %s", e, s.name.c_str()); op();
  static int out = memfd_create("err", 0); ftruncate(out, 0); lseek(out, 0, SEEK_SET);
  pid_t p = fork(); if (!p) { alarm(60); if (!s.enter(s.name)) _exit(0); static int ee; ee = e; dup2(out, 2); auto f = [](void*) -> void* { errno = ee; fingera_fatal("some_function", "some_file.c", 1234567, "message %d %s", 1234567, "text"); return nullptr; };
    if (s.thread) { pthread_t t; pthread_create(&t, nullptr, f, nullptr); pthread_join(t, nullptr); } else f(nullptr); _exit(0); }
  int st; waitpid(p, &st, 0); checked(); char b[4096]; ssize_t n = pread(out, b, sizeof b - 1, 0); b[n < 0 ? 0 : n] = 0;
  if (st == 0) fail("fatal under the setting \"%s\" returns or ends the process with status 0", s.name.c_str());
  for (const char* t : {"message 1234567 text", "some_function", "some_file.c", "1234567)"}) if (!strstr(b, t)) fail("fatal under the setting \"%s\" prints %s, without %s", s.name.c_str(), quote(b, 200).c_str(), t);
}
// What a call must leave as it was.
static std::string state() {
  std::string t; char b[4096]; auto put = [&](const char* k, const std::string& v) { t += std::string(k) + "=" + v + "\n"; }; auto num = [&](const char* k, long long v) { put(k, std::to_string(v)); };
  put("locale", setlocale(LC_ALL, nullptr)); num("rounding", fegetround()); num("mxcsr", _mm_getcsr() & ~0x3F); unsigned short w; asm volatile("fnstcw %0" : "=m"(w)); num("x87", w);
  mode_t m = umask(0); umask(m); num("umask", m); put("directory", getcwd(b, sizeof b) ? b : "none"); std::string e; for (char** p = environ; p && *p; p++) e += std::string(*p) + ";"; put("environment", e);
  for (int k = 1; k < 65; k++) { struct sigaction a; if (sigaction(k, nullptr, &a) == 0) { std::string n = "signal " + std::to_string(k); num(n.c_str(), (long long)a.sa_handler); } }
  sigset_t q; sigemptyset(&q); pthread_sigmask(SIG_BLOCK, nullptr, &q); long long bits = 0; for (int k = 1; k < 63; k++) bits |= (long long)(sigismember(&q, k) == 1) << k; num("signal mask", bits);
  for (int k = 0; k < RLIM_NLIMITS; k++) { struct rlimit r{}; getrlimit((__rlimit_resource)k, &r); std::string n = "limit " + std::to_string(k); put(n.c_str(), std::to_string(r.rlim_cur) + "/" + std::to_string(r.rlim_max)); }
  num("priority", getpriority(PRIO_PROCESS, 0)); num("user", geteuid()); num("group", getegid()); struct itimerval it{}; getitimer(ITIMER_PROF, &it); num("timer", it.it_value.tv_sec + it.it_interval.tv_sec);
  for (int f = 0; f < 64; f++) { int x = fcntl(f, F_GETFD), y = fcntl(f, F_GETFL); if (x < 0) continue; std::string n = "descriptor " + std::to_string(f); struct stat st{}; fstat(f, &st); put(n.c_str(), std::to_string(x) + " " + std::to_string(y) + " " + std::to_string(st.st_dev) + ":" + std::to_string(st.st_ino)); }
  return t;
}
static std::string difference(const std::string& a, const std::string& b) { size_t i = 0, x = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') x = i + 1; i++; } auto line = [&](const std::string& s) { size_t e = s.find('\n', x); return s.substr(x, e == std::string::npos ? e : e - x); }; return line(a) + " -> " + line(b); }
static void leaves(long i) {
  static const char* in[] = {"the default", "locale de_DE.ISO-8859-15", "rounding upward", "signals ignored", "all signals blocked", "standard input closed", "a misleading environment", "umask 0777"};
  int c = choose(8); const Setting* s = nullptr; for (auto& x : ST) if (x.name == in[c]) s = &x; if (!s) return;
  const Op& q = OPS[i]; note("%s under %s", q.name, s->name.c_str()); op(2); bool ini = q.state == 1 || q.state == 3;
  under(*s, [&] { static R r; if (ini) fingera_btc_key_init(); fflush(stdout); srand(77); long r1 = rand(), r2 = rand(), r3 = rand(); srand48(5); double d1 = drand48(); srand(77); srand48(5); static char text[] = "a,b,c"; strtok(text, ",");
    std::string a = state(); srand(77); rand(); r.n = 0; q.f(r); long g2 = rand(), g3 = rand(); double e1 = drand48(); std::string b = state(); (void)r1;
    char* tk = strtok(nullptr, ",");
    if (a != b) { snprintf(twins::shared().m, 4096, "%s under the setting \"%s\" changes the process: %s", q.name, s->name.c_str(), difference(a, b).c_str()); _exit(9); }
    if (g2 != r2 || g3 != r3 || e1 != d1) { snprintf(twins::shared().m, 4096, "%s uses or reseeds the program's own random numbers (rand, drand48)", q.name); _exit(9); }
    if (!tk || strcmp(tk, "b")) { snprintf(twins::shared().m, 4096, "%s disturbs a strtok scan in progress", q.name); _exit(9); }
  }, q.name);
  checked();
}
static void define() {
  make_inputs(); settings();
  want = (R*)mmap(0, sizeof(R) * N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < N; i++) under(ST[0], [&] { if (OPS[i].state == 1 || OPS[i].state == 3) fingera_btc_key_init(); memset(o, 0x33, 700); want[i].n = 0; OPS[i].f(want[i]); }, OPS[i].name);
  std::string all; for (auto& s : ST) all += (all.empty() ? "" : ", ") + s.name;
  add("errno", N, errnos, std::to_string(N) + " operations with errno -1 to 139 beforehand");
  long L = (long)locs().size(), TF = (long)twins::fams().size();
  add("operations", N, operation, std::to_string(N) + " operations, twice in a row, under each of " + std::to_string(ST.size()) + " settings: " + all);
  add("variants", TF, variants, std::to_string(TF) + " functions with all near variants of their arguments under each setting", 900);
  add("bech32-text", L, bech32_text, std::to_string(L) + " locales x every character at every place of a short readable part, both cases");
  add("byte-text", L, byte_text, std::to_string(L) + " locales x every byte put in or exchanged at every place of a text, in six decoders", 300);
  add("leaves", N, leaves, std::to_string(N) + " operations under 8 settings: locale, modes, signals, limits, descriptors, environment, user, the program's own rand() are as before");
  add("fatal", (long)ST.size(), fatal_under, "the fatal error function under each setting, with and without errno");
}
int main(int c, char** v) { return run(c, v, "C29", define, {"the result in the default setting of a fresh process is the right one (the other properties decide that)", "locales are compiled by the system's localedef; one that cannot be compiled is left out and not listed in the bounds", "other locales differ from these in no character class of ASCII that matters"}); }
