// C26: fingera_fatal in child processes, for all shapes of message, errno values and states of standard error.
#include "api.hpp"
#include "ref.hpp"
#include <climits>
#include <dlfcn.h>
#include <pthread.h>
using namespace mc;
struct Case { const char* name; std::function<void(const char*, const char*, long)> call; std::string text; };
static const std::string& longtext(size_t n) { static std::vector<std::string> c; for (auto& s : c) if (s.size() == n) return s; c.reserve(64); std::string s; for (size_t i = 0; i < n; i++) s += (char)('a' + (i * 7 + i / 26) % 26); c.push_back(s); return c.back(); }
static const std::vector<Case>& cases() {
  static std::vector<Case> v; if (!v.empty()) return v;
  auto F = fingera_fatal;
  v.push_back({"plain", [F](auto a, auto b, long l) { F(a, b, l, "plain message"); }, "plain message"});
  v.push_back({"empty", [F](auto a, auto b, long l) { F(a, b, l, ""); }, ""});
  v.push_back({"int", [F](auto a, auto b, long l) { F(a, b, l, "read /dev/urandom %d", -1); }, "read /dev/urandom -1"});
  v.push_back({"many ints", [F](auto a, auto b, long l) { F(a, b, l, "%d %d %d %d %d %d %d %d %d", 1, 2, 3, 4, 5, 6, 7, 8, 9); }, "1 2 3 4 5 6 7 8 9"});
  v.push_back({"doubles", [F](auto a, auto b, long l) { F(a, b, l, "%.1f %.1f %.1f %.1f %.1f %.1f %.1f %.1f %.1f %.1f", 1., 2., 3., 4., 5., 6., 7., 8., 9., 10.); }, "1.0 2.0 3.0 4.0 5.0 6.0 7.0 8.0 9.0 10.0"});
  v.push_back({"mixed", [F](auto a, auto b, long l) { F(a, b, l, "<%s|%d|%.2f|%c|%llx|%zu|%-6s|%05d|%p>", "str", -7, 2.5, 'q', 0x123456789abcdefull, (size_t)42, "ab", 33, (void*)0); }, "<str|-7|2.50|q|123456789abcdef|42|ab    |00033|(nil)>"});
  v.push_back({"percent", [F](auto a, auto b, long l) { F(a, b, l, "100%% of %s", "%s%n%d"); }, "100% of %s%n%d"});
  v.push_back({"star", [F](auto a, auto b, long l) { F(a, b, l, "[%*d]", 8, 5); }, "[       5]"});
  for (size_t n : {255, 256, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 5000, 8192, 20000, 65536})
    v.push_back({"long", [F, n](auto a, auto b, long l) { F(a, b, l, "%s", longtext(n).c_str()); }, longtext(n)});
  v.push_back({"long format", [F](auto a, auto b, long l) { F(a, b, l, longtext(3000).c_str()); }, longtext(3000)});
  v.push_back({"newlines", [F](auto a, auto b, long l) { F(a, b, l, "one\ntwo\nthree %d\n", 4); }, "one\ntwo\nthree 4\n"});
  v.push_back({"utf8", [F](auto a, auto b, long l) { F(a, b, l, "\xe9\x94\x99 %s", "\xff\xfe"); }, "\xe9\x94\x99 \xff\xfe"});
  return v;
}
static const long LINES[] = {1, 0, 42, 99999, INT_MAX, (long)INT_MAX + 1, LONG_MAX, -1, LONG_MIN};
static const char* FUNCS[] = {"fingera_os_rand_bytes", "f", "", "percent%s%d"};
static const char* FILES[] = {"/src/random.c", "x.c", "", "dir/%n/file.c"};
// where the child's standard error goes
enum { FILEFD, PIPE, COOKIE_CLOBBER, CLOSED, FULL, BROKENPIPE, NSTATE };
static ssize_t clobber(void* c, const char* p, size_t n) { size_t k = 0; while (k < n) { ssize_t r = write(*(int*)c, p + k, n - k); if (r <= 0) break; k += r; } errno = EBADMSG; return (ssize_t)k; }
struct Result { bool returned, ran2, ran3, timeout; int st; std::string text; };
static int the_marker = -1;
static Result child(std::function<void()> f, int state, int mode, bool thread) {
  static int& marker = the_marker; static int out = -1;
  if (out < 0) { out = memfd_create("err", 0); marker = memfd_create("marker", 0); }
  ftruncate(out, 0); lseek(out, 0, SEEK_SET); ftruncate(marker, 0); lseek(marker, 0, SEEK_SET);
  int pp[2] = {-1, -1}; if (state == PIPE || state == BROKENPIPE) { pipe(pp); if (state == PIPE) fcntl(pp[1], F_SETPIPE_SZ, 1 << 20); }
  pid_t p = fork();
  if (p == 0) {
    signal(SIGPIPE, mode & 4 ? SIG_IGN : SIG_DFL);
    int fd = out; if (state == PIPE || state == BROKENPIPE) fd = pp[1]; if (state == FULL) fd = open("/dev/full", O_WRONLY);
    if (state == BROKENPIPE) close(pp[0]);
    if (state == CLOSED) close(2); else dup2(fd, 2);
    static int two = 2; static char buf[8192];
    if (state == COOKIE_CLOBBER) { cookie_io_functions_t io = {nullptr, clobber, nullptr, nullptr}; stderr = fopencookie(&two, "w", io); }
    setvbuf(stderr, buf, (mode & 3) == 0 ? _IONBF : (mode & 3) == 1 ? _IOLBF : _IOFBF, (mode & 3) == 0 ? 0 : sizeof buf);
    static std::function<void()> g; g = f; static int mk; mk = marker;
    if (thread) {
      pthread_t t; pthread_create(&t, nullptr, [](void*) -> void* { g(); write(mk, "R", 1); syscall(231, 0); return nullptr; }, nullptr);
      pthread_join(t, nullptr); write(marker, "R", 1); _exit(0);
    }
    g(); write(marker, "R", 1); _exit(0);
  }
  Result r{}; double t0 = now();
  if (pp[1] >= 0) close(pp[1]);
  while (waitpid(p, &r.st, WNOHANG) == 0) { if (now() - t0 > 60) { kill(p, SIGKILL); waitpid(p, &r.st, 0); r.timeout = true; break; } usleep(200); }
  if (state == PIPE) { char b[65536]; ssize_t n; while ((n = read(pp[0], b, sizeof b)) > 0) r.text.append(b, n); close(pp[0]); }
  else if (state == BROKENPIPE) close(pp[0]);
  else { off_t n = lseek(out, 0, SEEK_END); r.text.resize(n); if (n) pread(out, &r.text[0], n, 0); }
  char mk[9] = {0}; pread(marker, mk, 8, 0); r.returned = strchr(mk, 'R'); r.ran2 = strchr(mk, '2'); r.ran3 = strchr(mk, '3');
  return r;
}
static void one(const Case& c, const char* fn, const char* file, long line, int err, int state, int mode, bool thread) {
  op();
  Result r = child([&] { errno = err; c.call(fn, file, line); }, state, mode, thread);
  std::string what = std::string("fatal(") + c.name + ", line " + std::to_string(line) + ", errno " + std::to_string(err) + ", stderr state " + std::to_string(state) + " mode " + std::to_string(mode) + (thread ? ", second thread)" : ")");
  checked();
  note("%s -> status %x, %s", what.c_str(), r.st, quote(r.text, 120).c_str());
  if (r.timeout) fail("%s does not end the process", what.c_str());
  if (r.returned) fail("%s returned to its caller", what.c_str());
  if (WIFEXITED(r.st) && WEXITSTATUS(r.st) == 0) fail("%s ended the process with status 0", what.c_str());
  if (state >= CLOSED) return;                       // nowhere to print to
  size_t p = r.text.find(c.text);
  if (p == std::string::npos) fail("%s printed %s, which lacks the message %s", what.c_str(), quote(r.text).c_str(), quote(c.text).c_str());
  std::string rest = r.text.substr(p + c.text.size());
  auto need = [&](const std::string& s, const char* k) { size_t q = rest.find(s); if (q == std::string::npos) fail("%s printed %s after the message, which lacks the %s %s", what.c_str(), quote(rest).c_str(), k, quote(s).c_str()); };
  need(fn, "function"); need(file, "file"); need(std::to_string(line), "line");
  if (err) need(strerror(err), "errno text");
}
// More than one report: from an exit handler of the first, from another thread while the first runs its exit handlers, and by the macro.
static int woke[2]; static std::function<void()> second, third;
enum { MACRO_LINE = __LINE__ + 1 };
static void by_macro(int err) { errno = err; FINGERA_FATAL("the first report %d", 1); }
static void twice(int shape, int err, int err2, int state, int mode) {
  op(); static const char* SH[] = {"by the macro", "a second report from an exit handler", "two nested ones", "a second report from another thread while the first runs an exit handler", "in a process forked by the program"};
  Result r = child([&] {
    second = [err2] { write(the_marker, "2", 1); errno = err2; fingera_fatal("second", "second.c", 22, "the second report %d", 2); write(the_marker, "R", 1); };
    third = [] { write(the_marker, "3", 1); errno = 0; fingera_fatal("third", "third.c", 33, "the third report"); write(the_marker, "R", 1); };
    if (shape == 2) atexit([] { third(); });
    if (shape == 1 || shape == 2) atexit([] { second(); });
    if (shape == 3) { pipe(woke); atexit([] { pthread_t t; pthread_create(&t, nullptr, [](void*) -> void* { second(); write(woke[1], "x", 1); return nullptr; }, nullptr); char c; read(woke[0], &c, 1); _exit(3); }); }
    if (shape == 4) { pid_t q = fork(); if (!q) { errno = err; fingera_fatal("first", "first.c", 11, "the first report %d", 1); _exit(0); } int st; waitpid(q, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return; second(); }
    if (shape == 0) by_macro(err);
    errno = err; fingera_fatal("first", "first.c", 11, "the first report %d", 1);
  }, state, mode, false);
  checked(); std::string what = std::string("fatal, ") + SH[shape] + " (errno " + std::to_string(err) + " then " + std::to_string(err2) + ", mode " + std::to_string(mode) + ")"; note("%s -> status %x, %s", what.c_str(), r.st, quote(r.text, 200).c_str());
  if (r.timeout) fail("%s: the process does not end", what.c_str());
  if (r.returned) fail("%s: it returned", what.c_str());
  if (WIFEXITED(r.st) && WEXITSTATUS(r.st) == 0) fail("%s: the process ended with status 0", what.c_str());
  auto need = [&](const std::string& t) { if (r.text.find(t) == std::string::npos) fail("%s: printed %s, which lacks %s", what.c_str(), quote(r.text, 300).c_str(), quote(t).c_str()); };
  auto rep = [&](const char* msg, const char* fn, const char* file, const char* line, int e) { need(msg); need(fn); need(file); need(line); if (e) need(strerror(e)); };
  if (shape == 0) { rep("the first report 1", "by_macro", "c26_fatal.cpp", std::to_string(MACRO_LINE).c_str(), err); return; }
  rep("the first report 1", "first", "first.c", "11", err); if (r.ran2) rep("the second report 2", "second", "second.c", "22", err2); if (r.ran3) rep("the third report", "third", "third.c", "33", 0);
}
static void define() {
  add("more-than-one", 5, [](long u) { static const int E[] = {0, EIO, ENOENT}; int a = E[choose(3)], b = E[choose(3)]; twice((int)u, a, b, choose(2) ? PIPE : FILEFD, choose(3)); }, "the reporting macro, reports made by exit handlers of a report, by another thread meanwhile, and in a forked process x errno x buffering of standard error", 300);
  long NC = (long)cases().size();
  static const int MODES[] = {0, 1, 2};
  add("messages", NC * 3, [](long u) { const Case& c = cases()[u / 3]; int i = choose(4), e = choose(3); static const int errs[] = {0, EIO, ENOENT}; one(c, FUNCS[i], FILES[i], LINES[i], errs[e], PIPE, MODES[u % 3], false); }, "24 message shapes (all argument kinds, up to 64 KiB) x function and file names x errno x buffering of standard error", 300);
static const int far[] = {INT_MIN, INT_MIN + 1, INT_MAX, -65536, 65536, 0x10000000, 12345678, 256 * 77777}; int lim = pick(1100, 20000);
  add("errno", 2 * lim + 1 + 8, [lim](long u) { int e = u < 8 ? far[u] : (int)(u - 8) - lim; one(cases()[2], "fn", "file.c", 12, e, PIPE, 0, false); }, "every errno value from -" + std::to_string(lim) + " to " + std::to_string(lim) + " and 8 extreme ones", 300);
  add("lines", 9, [](long l) { for (auto e : {0, EINTR}) one(cases()[0], "fn", "file.c", LINES[l], e, FILEFD, MODES[choose(3)], false); }, "extreme line numbers", 300);
  add("stderr-states", NSTATE * 2, [](long u) { int s = (int)(u % NSTATE), c = choose(4), m = choose(3) | (choose(2) ? 4 : 0), e = choose(3); static const int cs[] = {0, 2, 5, 17}, errs[] = {0, EIO, EPIPE}; one(cases()[cs[c]], "fn", "file.c", 77, errs[e], s, m, u >= NSTATE); }, "standard error a file, a pipe, a stream whose writes change errno, closed, full, a broken pipe (signal default or ignored); called from the first and from another thread", 300);
}
int main(int c, char** v) { return run(c, v, "C26", define, {"if standard error cannot be written, only the ending is required", "death by SIGPIPE counts as a non-zero ending"}); }
