// A small stateless model checker: exhaustive depth-first exploration of every resolution of choose(),
// spread over forked workers, with crash/hang detection, replay and evidence.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <errno.h>
#include <fcntl.h>
#include <functional>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc {

constexpr int MAXPATH = 4096;
constexpr int MSGLEN = 6000;
constexpr int MAXSCEN = 96;

struct Slot {                       // one per worker, in shared memory
  volatile int state;               // 0 idle, 1 running, 2 violation, 3 done, 4 engine error
  volatile int scen;
  volatile long unit;
  volatile int len;                 // choices made so far in this execution
  volatile int pathlen;             // choices fixed for this execution
  int path[MAXPATH];
  int width[MAXPATH];
  volatile uint64_t execs;          // heartbeat
  uint64_t nodes[MAXSCEN], ops[MAXSCEN], leaves[MAXSCEN], extra[MAXSCEN], checks;
  char msg[MSGLEN];
  char sample[MAXSCEN][600];
};
struct Shared {
  volatile long next;               // next work item
  volatile int stop;
};

struct Violation {};
struct EngineError { std::string m; };

struct Scenario {
  std::string name;
  long units;
  std::function<void(long)> body;
  double cpu_limit;                 // CPU seconds one execution may use
  std::string bounds;
};

inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
inline Slot*& S() { static Slot* s = nullptr; return s; }
inline bool& verbose() { static bool b = false; return b; }
inline std::string& notes() { static std::string s; return s; }
inline bool& thorough() { static bool b = false; return b; }
inline long& seed() { static long s = 1; return s; }
inline std::string& property() { static std::string s; return s; }
inline std::string& builddir() { static std::string s; return s; }
inline volatile bool& pending() { static volatile bool b = false; return b; }

inline void add(const std::string& name, long units, std::function<void(long)> body,
                const std::string& bounds = "", double cpu_limit = 60) {
  scenarios().push_back({name, units, body, cpu_limit, bounds});
  if ((int)scenarios().size() > MAXSCEN) abort();
}
inline int pick(int q, int t) { return thorough() ? t : q; }

// A decision: returns 0..n-1; the engine comes back for every other value.
inline int choose(int n) {
  Slot* s = S();
  if (n <= 1) return 0;
  int i = s->len;
  if (i >= MAXPATH) { fprintf(stderr, "engine: path too long\n"); _exit(41); }
  if (i < s->pathlen) {
    if (s->width[i] != n && s->width[i] != 0) {
      fprintf(stderr, "engine: replay divergence at choice %d (%d vs %d)\n", i, s->width[i], n);
      _exit(42);
    }
    s->width[i] = n;
    if (s->path[i] >= n) { fprintf(stderr, "engine: bad choice on replay\n"); _exit(42); }
  } else {
    s->path[i] = 0;
    s->width[i] = n;
    s->pathlen = i + 1;
  }
  s->len = i + 1;
  return s->path[i];
}
template <class T> inline const T& choose_of(const std::vector<T>& v) { return v[choose((int)v.size())]; }

// Count one call into the library (a transition of the system under test).
inline void op(uint64_t n = 1) { S()->ops[S()->scen] += n; }
// Count one comparison of an observed result with the model.
inline void checked() { S()->checks++; }
inline void extra(uint64_t n) { S()->extra[S()->scen] += n; }
// Nodes explored by an inner exhaustive loop rather than through choose().
inline void inner(uint64_t states, uint64_t traces) { S()->nodes[S()->scen] += states; S()->leaves[S()->scen] += traces; }

inline void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* fmt, ...) {
  if (!verbose()) return;
  char b[4096];
  va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (notes().size() < 60000) { notes() += b; notes() += "\n"; }
}
inline void set_msg(const char* fmt, va_list a) { vsnprintf(S()->msg, MSGLEN, fmt, a); }
// Report a violation of the property (from C++ frames only).
[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* fmt, ...) {
  va_list a; va_start(a, fmt); set_msg(fmt, a); va_end(a);
  throw Violation{};
}
// Report from inside a callback that the library called: picked up when the execution returns.
inline void fail_later(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fail_later(const char* fmt, ...) {
  if (pending()) return;
  va_list a; va_start(a, fmt); set_msg(fmt, a); va_end(a);
  pending() = true;
}

inline std::string hex(const void* p, size_t n, size_t max = 200) {
  static const char* d = "0123456789abcdef";
  std::string r; const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n && i < max; i++) { r += d[b[i] >> 4]; r += d[b[i] & 15]; }
  if (n > max) r += "...(" + std::to_string(n) + " bytes)";
  return r;
}
inline std::string hex(const std::string& s, size_t max = 200) { return hex(s.data(), s.size(), max); }
inline std::string ascii(const std::string& s) {           // what a terminal or a log can take
  std::string r; for (unsigned char c : s) if (c == '\n' || c == '\t' || (c >= 32 && c < 127)) r += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } return r;
}
inline std::string quote(const std::string& s, size_t max = 300) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = s[i];
    if (c >= 32 && c < 127 && c != '"' && c != '\\') r += c;
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  return r + (s.size() > max ? "\"..." : "\"");
}

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// A scenario of executions that are allowed to be slow: each runs in a child process, and when the library has
// not answered within `cpu` CPU seconds (or the whole run has taken 5 minutes already) the execution is given up
// without a verdict: no property promises speed.
inline void add_patient(const std::string& name, long units, std::function<void(long)> body, const std::string& bounds = "", int cpu = 100) {
  static const double born = now();
  add(name, units, [body, cpu](long unit) {
    int limit = thorough() ? 4 * cpu : cpu;
    if (now() - born > (thorough() ? 3000 : 300)) { note("not run: too much time has passed"); return; }
    int fd[2]; if (pipe(fd)) { perror("pipe"); _exit(41); }
    pid_t me = getpid(), p = fork(); if (p < 0) { perror("fork"); _exit(41); }
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(41);
      rlimit l = {(rlim_t)limit, (rlim_t)limit + 5}; setrlimit(RLIMIT_CPU, &l); signal(SIGXCPU, SIG_DFL); close(fd[0]); notes().clear();
      int r = 80; try { body(unit); } catch (Violation&) { r = 81; }
      if (pending()) r = 81;
      ssize_t w = write(fd[1], notes().data(), std::min<size_t>(notes().size(), 60000)); (void)w; _exit(r);
    }
    close(fd[1]); int st = 0;
    while (waitpid(p, &st, WNOHANG) == 0) usleep(2000);
    char b[4096]; ssize_t n = read(fd[0], b, sizeof b); close(fd[0]); if (n > 0) note("%s", std::string(b, n).c_str());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 81) throw Violation{};
    if (WIFEXITED(st) && WEXITSTATUS(st) == 41) _exit(41);
    if (WIFEXITED(st) && WEXITSTATUS(st) != 80) fail("the library ended the process: exit %d", WEXITSTATUS(st));
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGXCPU && WTERMSIG(st) != SIGKILL) fail("the library crashed: signal %d", WTERMSIG(st));
    if (WIFSIGNALED(st)) note("no answer within %d s: given up", limit);
  }, bounds, 4000);
}

// ---------------------------------------------------------------------------------------------------
inline double cpu_of(pid_t p) {
  clockid_t c; timespec t;
  if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return -1;
  return t.tv_sec + t.tv_nsec * 1e-9;
}
inline std::string json_str(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

// one execution with the path in the slot; true if it held
inline bool run_one(const Scenario& sc, long unit) {
  Slot* s = S();
  s->len = 0; pending() = false;
  bool ok = true;
  try { sc.body(unit); } catch (Violation&) { ok = false; }
  if (pending()) ok = false;
  return ok;
}

inline void explore_unit(int si, long unit, Shared* sh) {
  Slot* s = S();
  const Scenario& sc = scenarios()[si];
  s->scen = si; s->unit = unit; s->pathlen = 0; s->len = 0;
  int common = 0;                                   // choices shared with the previous execution
  s->nodes[si]++;
  for (;;) {
    bool sample = (unit == 0 || unit == sc.units / 2) && s->sample[si][0] == 0;
    if (sample) { verbose() = true; notes().clear(); }
    s->state = 1;
    for (int i = s->pathlen; i < MAXPATH && s->width[i]; i++) s->width[i] = 0;
    bool ok = run_one(sc, unit);
    if (sample) {
      verbose() = false;
      std::string t = sc.name + " unit " + std::to_string(unit) + " choices [";
      for (int i = 0; i < s->len && i < 24; i++) t += (i ? "," : "") + std::to_string(s->path[i]) + "/" + std::to_string(s->width[i]);
      t += "]: " + notes();
      snprintf(s->sample[si], sizeof s->sample[si], "%s", t.c_str());
    }
    if (!ok) { s->state = 2; _exit(3); }
    s->execs++;
    s->leaves[si]++;
    s->nodes[si] += s->len - common;
    int n = s->len;
    while (n > 0 && s->path[n - 1] == s->width[n - 1] - 1) n--;
    if (n == 0) break;
    s->path[n - 1]++;
    common = n - 1;
    s->pathlen = n;
    if (sh && sh->stop) _exit(0);
  }
  s->state = 0;
}

inline std::string read_file(const std::string& p, size_t max = 20000) {
  std::string r; FILE* f = fopen(p.c_str(), "r"); if (!f) return r;
  char b[4096]; size_t n;
  while (r.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
  fclose(f); return r;
}

struct ReplayResult { int kind; std::string text; };  // 0 held, 1 violated, 2 engine error
// Run one path in a child process with notes on.
inline ReplayResult replay(int si, long unit, const std::vector<int>& path, double limit) {
  Slot* s = (Slot*)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char* buf = (char*)mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string err = builddir() + "/replay.err";
  pid_t p = fork();
  if (p == 0) {
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2);
    S() = s; s->scen = si; s->unit = unit;
    s->pathlen = (int)path.size();
    for (size_t i = 0; i < path.size(); i++) s->path[i] = path[i];
    verbose() = true; notes().clear();
    bool ok = run_one(scenarios()[si], unit);
    snprintf(buf, 1 << 20, "%s", notes().c_str());
    _exit(ok ? 0 : 3);
  }
  int st; bool hung = false, blocked = false; double seen = 0; int idle = 0;
  while (waitpid(p, &st, WNOHANG) == 0) {
    double c = cpu_of(p);
    if (c > seen + 0.02) { seen = c; idle = 0; } else idle++;
    blocked = idle > 20000;                              // 40 s and more without using the processor
    if (c > limit || blocked) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
    usleep(2000);
  }
  ReplayResult r{0, ""};
  if (hung) { r.kind = 1; r.text = blocked ? "blocks for ever\n" : "does not terminate (CPU limit reached)\n"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { r.kind = 0; r.text = "held\n"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { r.kind = 1; r.text = std::string(s->msg) + "\n"; }
  else if (WIFEXITED(st) && (WEXITSTATUS(st) == 41 || WEXITSTATUS(st) == 42)) { r.kind = 2; r.text = "engine error\n"; }
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.kind = 2; r.text = "killed from outside\n"; }
  else if (WIFSIGNALED(st)) { r.kind = 1; r.text = "the library crashed: signal " + std::to_string(WTERMSIG(st)) + "\n"; }
  else { r.kind = 1; r.text = "the library ended the process: exit " + std::to_string(WEXITSTATUS(st)) + "\n"; }
  std::string e = read_file(err);
  if (!e.empty()) r.text += "stderr:\n" + e + "\n";
  if (buf[0]) r.text += "steps:\n" + std::string(buf) + "\n";
  munmap(s, sizeof(Slot)); munmap(buf, 1 << 20);
  return r;
}

using EvidenceExtra = std::function<std::string()>;    // extra JSON members of coverage, each ending in ","

inline int run(int argc, char** argv, const char* prop, std::function<void()> define,
               std::vector<std::string> assumptions = {}) {
  property() = prop;
  std::string evidence, replay_file, only; int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN); bool list = false;
  builddir() = ".";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--thorough") thorough() = true;
    else if (a == "--seed") seed() = atol(val().c_str());
    else if (a == "--evidence") evidence = val();
    else if (a == "--replay") replay_file = val();
    else if (a == "--builddir") builddir() = val();
    else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--only") only = val();
    else if (a == "--list") list = true;
  }
  if (jobs < 1) jobs = 1;
  if (jobs > 64) jobs = 64;
  signal(SIGPIPE, SIG_IGN);
  setvbuf(stdout, nullptr, _IOLBF, 0);

  std::string rs_scen; long r_unit = 0; std::vector<int> r_path;
  if (!replay_file.empty()) {                       // text format: see write below
    FILE* f = fopen(replay_file.c_str(), "r");
    if (!f) { fprintf(stderr, "no such replay file\n"); return 2; }
    char line[65536];
    while (fgets(line, sizeof line, f)) {
      char w[256];
      if (sscanf(line, "scenario %255s", w) == 1) rs_scen = w;
      else if (!strncmp(line, "unit ", 5)) r_unit = atol(line + 5);
      else if (!strncmp(line, "tier thorough", 13)) thorough() = true;
      else if (!strncmp(line, "seed ", 5)) seed() = atol(line + 5);
      else if (!strncmp(line, "choices", 7)) { char* p = line + 7; for (char* t = strtok(p, " \n"); t; t = strtok(nullptr, " \n")) r_path.push_back(atoi(t)); }
    }
    fclose(f);
  }
  S() = (Slot*)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  define();
  auto& sc = scenarios();
  if (list) { for (auto& s : sc) printf("%-40s %ld  %s\n", s.name.c_str(), s.units, s.bounds.c_str()); return 0; }
  if (!replay_file.empty()) {
    for (size_t i = 0; i < sc.size(); i++) if (sc[i].name == rs_scen) {
      auto r = replay((int)i, r_unit, r_path, sc[i].cpu_limit);
      printf("%s%s", r.kind == 1 ? "VIOLATED: " : r.kind == 0 ? "HELD: " : "ERROR: ", r.text.c_str());
      return r.kind;
    }
    fprintf(stderr, "unknown scenario %s\n", rs_scen.c_str()); return 2;
  }

  double t0 = now();
  std::vector<std::pair<int, long>> items;
  { // interleave scenarios so that long ones start early
    std::vector<long> pos(sc.size(), 0); bool more = true; long round = 0;
    while (more) {
      more = false;
      for (size_t i = 0; i < sc.size(); i++) {
        if (!only.empty() && sc[i].name.find(only) == std::string::npos) continue;
        if (pos[i] < sc[i].units) { items.push_back({(int)i, pos[i]++}); if (pos[i] < sc[i].units) more = true; }
      }
      round++;
    }
  }
  Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Slot* slots = (Slot*)mmap(0, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids(jobs);
  fflush(stdout);
  for (int w = 0; w < jobs; w++) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 2; }
    if (p == 0) {
      std::string err = builddir() + "/worker" + std::to_string(w) + ".err";
      int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (fd >= 0) { dup2(fd, 2); close(fd); }
      S() = &slots[w];
      for (;;) {
        long i = __sync_fetch_and_add(&sh->next, 1);
        if (i >= (long)items.size() || sh->stop) break;
        explore_unit(items[i].first, items[i].second, sh);
      }
      S()->state = 3;
      _exit(0);
    }
    pids[w] = p;
  }
  int live = jobs, bad = -1; std::string why; bool error = false; std::string error_text;
  std::vector<uint64_t> last(jobs, ~0ull); std::vector<double> mark(jobs, 0), seen(jobs, 0);
  std::vector<int> idle(jobs, 0);
  std::vector<char> alive(jobs, 1);
  double lastbeat = 0;
  while (live > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      int w = -1; for (int i = 0; i < jobs; i++) if (pids[i] == p) w = i;
      if (w < 0) continue;
      alive[w] = 0; live--;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      if (bad >= 0 || error) continue;
      sh->stop = 1;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { bad = w; why = slots[w].msg; }
      else if (WIFEXITED(st) && (WEXITSTATUS(st) == 41)) { error = true; error_text = "engine error (path too long)"; }
      else if (WIFEXITED(st) && (WEXITSTATUS(st) == 42)) { bad = w; why = "the library behaved differently when the same execution was repeated"; }
      else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { error = true; error_text = "a worker was killed (memory?)"; }
      else if (WIFSIGNALED(st)) { bad = w; why = "the library crashed: signal " + std::to_string(WTERMSIG(st)); }
      else { bad = w; why = "the library ended the process: exit " + std::to_string(WEXITSTATUS(st)); }
      for (int i = 0; i < jobs; i++) if (alive[i] && i != bad) kill(pids[i], SIGTERM);
      continue;
    }
    if (p < 0 && errno == ECHILD) break;
    if (now() - lastbeat > 0.5) {
      lastbeat = now();
      for (int w = 0; w < jobs; w++) if (alive[w] && slots[w].state == 1) {
        bool moved = slots[w].execs != last[w];
        double c = cpu_of(pids[w]);
        if (moved) { last[w] = slots[w].execs; mark[w] = c; }
        else if (c - mark[w] > sc[slots[w].scen].cpu_limit && bad < 0 && !error) {
          bad = w; why = "the library does not terminate (CPU limit reached)"; sh->stop = 1;
          for (int i = 0; i < jobs; i++) if (alive[i]) kill(pids[i], SIGKILL);
        }
        if (moved || c > seen[w] + 0.02) { idle[w] = 0; seen[w] = c; } else idle[w]++;
        if (idle[w] > 200 && bad < 0 && !error) {         // 100 s and more in one execution without using the processor
          bad = w; why = "the library blocks for ever"; sh->stop = 1;
          for (int i = 0; i < jobs; i++) if (alive[i]) kill(pids[i], SIGKILL);
        }
      }
    }
    usleep(3000);
  }
  uint64_t nodes = 0, ops = 0, leaves = 0, checks = 0, ex = 0;
  std::vector<uint64_t> sn(sc.size()), so(sc.size()), sl(sc.size()), se(sc.size());
  std::vector<std::string> samples(sc.size());
  for (int w = 0; w < jobs; w++) {
    checks += slots[w].checks;
    for (size_t i = 0; i < sc.size(); i++) {
      sn[i] += slots[w].nodes[i]; so[i] += slots[w].ops[i]; sl[i] += slots[w].leaves[i]; se[i] += slots[w].extra[i];
      if (slots[w].sample[i][0]) samples[i] = slots[w].sample[i];
    }
  }
  for (size_t i = 0; i < sc.size(); i++) { nodes += sn[i]; ops += so[i]; leaves += sl[i]; ex += se[i]; }
  double wall = now() - t0;
  int rc = 0; std::string violation_json;
  if (error) { fprintf(stderr, "ENGINE ERROR: %s\n", error_text.c_str()); rc = 2; }
  else if (bad >= 0) {
    Slot& b = slots[bad];
    int si = b.scen; long unit = b.unit;
    std::vector<int> path(b.path, b.path + b.pathlen);
    mkdir((builddir() + "/replay").c_str(), 0755);
    std::string file = builddir() + "/replay/" + prop + "-" + sc[si].name + "-" + std::to_string(unit) + ".txt";
    auto r = replay(si, unit, path, sc[si].cpu_limit);
    FILE* f = fopen(file.c_str(), "w");
    if (f) {
      fprintf(f, "property %s\nscenario %s\nunit %ld\nseed %ld\ntier %s\nchoices", prop, sc[si].name.c_str(), unit, seed(), thorough() ? "thorough" : "quick");
      for (int c : path) fprintf(f, " %d", c);
      fprintf(f, "\nfirst report: %s\nreplay: %s %s\n", ascii(why).c_str(), r.kind == 1 ? "reproduced" : "NOT reproduced in a fresh process", ascii(r.text).c_str());
      std::string e = read_file(builddir() + "/worker" + std::to_string(bad) + ".err");
      if (!e.empty()) fprintf(f, "worker stderr:\n%s\n", e.c_str());
      fclose(f);
    }
    printf("%s: scenario %s unit %ld: %s\n", prop, sc[si].name.c_str(), unit, ascii(why).c_str());
    if (r.kind == 1) printf("%s\n", ascii(r.text).substr(0, 3000).c_str());
    printf("VIOLATION property=%s replay=%s\n", prop, file.c_str());
    violation_json = why;
    rc = 1;
  }
  if (!evidence.empty()) {
    FILE* f = fopen(evidence.c_str(), "w");
    if (!f) { perror(evidence.c_str()); return 2; }
    fprintf(f, "{\"property\":%s,\"tier\":\"%s\",\"seed\":%ld,\"level\":\"model_checking\",\"coverage\":{", json_str(prop).c_str(), thorough() ? "thorough" : "quick", seed());
    fprintf(f, "\"states\":%llu,\"transitions\":%llu,\"traces_validated_against_impl\":%llu,\"results_compared_with_model\":%llu,", (unsigned long long)nodes, (unsigned long long)ops, (unsigned long long)leaves, (unsigned long long)checks);
    fprintf(f, "\"exhaustive\":%s,", rc == 0 && only.empty() ? "true" : "false");
    fprintf(f, "\"meaning\":\"states: distinct decision points (choice prefixes) of the bounded space; transitions: calls into the real library; traces: complete executions of the real library, every result of which agreed with the reference model\",");
    if (ex) fprintf(f, "\"scheduling_or_fault_points\":%llu,", (unsigned long long)ex);
    fprintf(f, "\"scenarios\":[");
    for (size_t i = 0; i < sc.size(); i++)
      fprintf(f, "%s{\"name\":%s,\"bounds\":%s,\"units\":%ld,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu}", i ? "," : "", json_str(sc[i].name).c_str(), json_str(sc[i].bounds).c_str(), sc[i].units, (unsigned long long)sn[i], (unsigned long long)so[i], (unsigned long long)sl[i]);
    fprintf(f, "],\"samples\":[");
    bool first = true;
    for (auto& s : samples) if (!s.empty()) { fprintf(f, "%s%s", first ? "" : ",", json_str(s).c_str()); first = false; }
    fprintf(f, "]},\"assumptions\":[");
    for (size_t i = 0; i < assumptions.size(); i++) fprintf(f, "%s%s", i ? "," : "", json_str(assumptions[i]).c_str());
    fprintf(f, "],\"wall_s\":%.2f,\"violations\":%d}\n", wall, rc == 1 ? 1 : 0);
    fclose(f);
  }
  if (rc == 0) printf("%s %s: held; states %llu, library calls %llu, executions %llu, %.1f s\n", prop, thorough() ? "thorough" : "quick", (unsigned long long)nodes, (unsigned long long)ops, (unsigned long long)leaves, wall);
  return rc;
}
}  // namespace mc
