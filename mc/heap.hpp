// The process's allocator, interposed: accounting, chosen contents of fresh blocks, and a look at blocks being freed.
#pragma once
#include "api.hpp"
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
#include <malloc.h>
namespace heap {
struct H {
  volatile bool in_lib = false;        // a library call is running: its blocks are tracked
  int fill = -1;                       // contents of fresh blocks, -1: as they come
  struct B { void* p; size_t n; } live[512]; int nlive = 0; bool overflow = false;
  void (*on_free)(void*, size_t) = nullptr;
  uint64_t mallocs = 0, frees = 0;
  uint64_t refuse = 0; int refuse_from = 1 << 30, asked = 0;   // which requests of the library are refused
};
inline H& h() { static H x; return x; }
inline bool refused() { H& x = h(); if (!x.in_lib) return false; int k = x.asked++; if ((k < 64 && (x.refuse >> k & 1)) || k >= x.refuse_from) { errno = ENOMEM; return true; } return false; }
inline void* track(void* p, size_t n, bool zero) {
  H& x = h();
  if (!p || !x.in_lib) return p;
  x.mallocs++;
  if (x.fill >= 0 && !zero) memset(p, x.fill, malloc_usable_size(p));
  if (x.nlive < 512) x.live[x.nlive++] = {p, n}; else x.overflow = true;
  return p;
}
inline void untrack(void* p) {
  H& x = h();
  if (!p || !x.nlive) return;
  for (int i = x.nlive - 1; i >= 0; i--) if (x.live[i].p == p) {
    if (x.on_free) x.on_free(p, malloc_usable_size(p));
    x.frees++; x.live[i] = x.live[--x.nlive]; return;
  }
}
struct In { In() { h().in_lib = true; } ~In() { h().in_lib = false; } };
// fill the unused stack below the caller
__attribute__((noinline, no_sanitize("address"))) inline void scrub(int fill, size_t n = 98304) { volatile uint8_t* p = (volatile uint8_t*)__builtin_alloca(n); for (size_t i = 0; i < n; i += 8) *(volatile uint64_t*)(p + i) = 0x0101010101010101ull * (uint8_t)fill; }
}  // namespace heap
extern "C" {
void* malloc(size_t n) { if (heap::refused()) return nullptr; return heap::track(__libc_malloc(n), n, false); }
void free(void* p) { heap::untrack(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { if (heap::refused()) return nullptr; return heap::track(__libc_calloc(a, b), a * b, true); }
void* realloc(void* p, size_t n) {
  if (!heap::h().in_lib) return __libc_realloc(p, n);
  if (heap::refused()) return nullptr;
  void* q = __libc_malloc(n); if (!q) return q;
  heap::track(q, n, false);
  if (p) { size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); free(p); }
  return q;
}
void* memalign(size_t a, size_t n) { if (heap::refused()) return nullptr; return heap::track(__libc_memalign(a, n), n, false); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }
}
