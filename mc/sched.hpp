// A controlled scheduler for real threads running the real library. The library is compiled with -fsanitize=thread and the
// hooks that calls are ours: every access to memory that is not the running thread's own stack is recorded, and accesses to
// bytes that two threads touch (one of them writing) are scheduling points. One thread runs at a time.
#pragma once
#include "api.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <secp256k1.h>
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t); }
namespace sched {
constexpr int MAXT = 3, MAXP = 20000, CAP = 1 << 15, MAXC = 4096;
struct Gran { uint64_t key; uint8_t r, w; };                 // 8-byte granule and the bytes of it read and written
struct Log { uint32_t n, used[CAP]; Gran g[CAP * 2]; bool full; };
struct Point { int8_t cur, chosen; uint8_t enabled; };       // cur: running before (-1: none), enabled: bit set
struct Shared {                                              // between the exploring process and the runs it forks
  int np; Point p[MAXP]; bool overflow;
  int nprefix; uint8_t prefix[MAXP];
  int nc; Gran conf[MAXC];                                   // conflicting bytes, as granules
  Log log[MAXT];
  char msg[2000]; bool deadlock; uint64_t accesses;
  size_t nres[MAXT]; uint8_t res[MAXT][8192]; long long ret[MAXT]; int finished;
};
inline Shared*& X() { static Shared* x = nullptr; return x; }
struct Thread {
  int id; sem_t go; uint8_t* stk; size_t stksz; bool done = false; const void* blocked = nullptr; bool hook = false; int spin = 0; const void* spin_at = nullptr;
  uint8_t* heap; size_t heap_used = 0; pthread_t pt; std::function<void()> f;
};
constexpr size_t HEAP = 64 << 20, STK = 1 << 20;
inline Thread* T() { static Thread t[MAXT]; return t; }
inline int& NT() { static int n = 0; return n; }
inline int& running() { static int r = -1; return r; }
extern __thread Thread* me;
inline void die(const char* m) { snprintf(X()->msg, sizeof X()->msg, "%s", m); _exit(7); }
// pick the thread that runs next; cur is enabled or not
inline void decide(bool cur_enabled) {
  Shared* x = X(); int cur = running(); uint8_t en = 0;
  for (int i = 0; i < NT(); i++) if (!T()[i].done && !T()[i].blocked && (i != cur || cur_enabled)) en |= 1 << i;
  if (!en) { bool all = true; for (int i = 0; i < NT(); i++) all &= T()[i].done; if (all) { running() = -1; return; } x->deadlock = true; die("deadlock: every unfinished call waits for a lock"); }
  int pickd = -1;
  if (x->np < x->nprefix) { pickd = x->prefix[x->np]; if (!(en >> pickd & 1)) die("engine: schedule diverged"); }
  else if (cur >= 0 && (en >> cur & 1)) pickd = cur; else pickd = __builtin_ctz(en);
  if (x->np < MAXP) x->p[x->np++] = {(int8_t)(cur_enabled ? cur : -1), (int8_t)pickd, en}; else x->overflow = true;
  running() = pickd;
}
inline void point(bool enabled = true) {
  Thread* t = me; int was = t->id; t->hook = true;
  decide(enabled);
  int now = running();
  if (now != was) { if (now >= 0) sem_post(&T()[now].go); if (!t->done) while (sem_wait(&t->go)) {} }
  t->hook = false;
}
inline uint32_t slot(Log& l, uint64_t k) { uint32_t i = (k * 0x9E3779B97F4A7C15ull) >> 48; for (i &= CAP * 2 - 1; l.g[i].key && l.g[i].key != k; i = (i + 1) & (CAP * 2 - 1)) {} return i; }
inline bool conflicting(uint64_t k, uint8_t m) { Shared* x = X(); for (int i = 0; i < x->nc; i++) if (x->conf[i].key == k && ((x->conf[i].r | x->conf[i].w) & m)) return true; return false; }
inline void access(const void* p, size_t n, bool w) {
  Thread* t = me; if (!t || t->hook || !n) return;
  uint8_t* a = (uint8_t*)p;
  if (a >= t->stk && a < t->stk + t->stksz) return;
  if (a >= t->heap && a < t->heap + HEAP) return;            // a block this thread has: see malloc below
  t->hook = true; Shared* x = X(); x->accesses++;
  Log& l = x->log[t->id]; bool pt = false;
  for (uint64_t k = (uint64_t)a >> 3; k <= ((uint64_t)a + n - 1) >> 3; k++) {
    uint64_t lo = k << 3; int b0 = lo < (uint64_t)a ? (uint64_t)a - lo : 0, b1 = lo + 8 > (uint64_t)a + n ? (uint64_t)a + n - lo : 8;
    uint8_t m = (uint8_t)(((1u << b1) - 1) & ~((1u << b0) - 1));
    uint32_t s = slot(l, k);
    if (!l.g[s].key) { if (l.n >= CAP) { l.full = true; break; } l.g[s].key = k; l.used[l.n++] = s; }
    (w ? l.g[s].w : l.g[s].r) |= m;
    if (x->nc && !pt) pt = conflicting(k, m);
  }
  t->hook = false;
  if (pt) point();
}
inline void* thread_main(void* p) {
  Thread* t = (Thread*)p; while (sem_wait(&t->go)) {}
  me = t; t->f(); me = nullptr; t->done = true; X()->finished++;
  me = t; t->hook = true;                                     // hand over
  decide(false); int n = running(); me = nullptr; if (n >= 0) sem_post(&T()[n].go);
  return nullptr;
}
// One run of n functions under the prefix in the shared area, in this (forked) process.
inline void run(const std::vector<std::function<void()>>& f) {
  Shared* x = X(); x->np = 0; x->overflow = false; x->msg[0] = 0; x->deadlock = false; x->finished = 0;
  for (int i = 0; i < MAXT; i++) { Log& l = x->log[i]; for (uint32_t k = 0; k < l.n; k++) l.g[l.used[k]] = Gran(); l.n = 0; l.full = false; }
  NT() = f.size(); running() = -1;
  for (int i = 0; i < NT(); i++) {
    Thread& t = T()[i]; t.id = i; t.f = f[i]; t.done = false; t.blocked = nullptr; sem_init(&t.go, 0, 0); t.heap_used = 0;
    t.stksz = STK; t.stk = (uint8_t*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); t.heap = (uint8_t*)mmap(0, HEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, t.stk, STK); if (pthread_create(&t.pt, &a, thread_main, &t)) die("engine: no thread");
  }
  decide(false); sem_post(&T()[running()].go);
  for (int i = 0; i < NT(); i++) pthread_join(T()[i].pt, 0);
}
}  // namespace sched
