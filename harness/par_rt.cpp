// Runtime for parallel loops: every memory access of every iteration is recorded, and two iterations of one loop (or of a
// loop around it) that touch the same byte, one of them writing, without a common lock, are a conflict. A loop without
// conflicts gives the same result in every schedule. Built without instrumentation and without any shared template.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static int depth, paused, busy, reverse_, guard_; static u64 held; static char* arena; static size_t aoff; static const size_t ASZ = (size_t)1 << 36;
static char what[512]; static int races; static long nloops, niters, naccs;
struct Slot { u32 w, r, r2, a, a2, wpc, rpc; u64 wl, rl; }; struct Cell { u64 key; u32 gen; Slot s[8]; };
static const u32 NC = 1 << 16; static const int MAXL = 6;
struct Loop { char* frame; u32 it; long n; u32 gen; u32 used; }; static Loop L[MAXL]; static Cell* cells[MAXL]; static u32 gen;
static char *tlsLo, *tlsHi; extern char __executable_start; static char *stTop;
static int phdr(struct dl_phdr_info* i, size_t, void*) { for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) { tlsHi = (char*)__builtin_thread_pointer(); tlsLo = tlsHi - ((i->dlpi_phdr[k].p_memsz + 255) & ~(u64)63); } return 1; }
static Cell* cell(int l, u64 k) { u32 h = (u32)((k * 0x9e3779b97f4a7c15ull) >> 40) & (NC - 1); Cell* t = cells[l]; while (t[h].gen == L[l].gen && t[h].key != k) h = (h + 1) & (NC - 1); Cell* c = &t[h]; if (c->gen != L[l].gen) { if (++L[l].used > NC - 64) _exit(57); __builtin_memset(c, 0, sizeof *c); c->gen = L[l].gen; c->key = k; } return c; }
static void where(u32 pc, char* o, int n) { Dl_info d; if (dladdr(&__executable_start + pc, &d) && d.dli_sname) snprintf(o, n, "%s", d.dli_sname); else snprintf(o, n, "+0x%x", pc); }
static void race(const char* kind, const void* a, u32 pc, u32 pc2) { if (races++) return; char f[170], g[170]; where(pc, f, 170); where(pc2, g, 170); Dl_info d; char o[80] = "heap/stack"; if (dladdr(a, &d) && d.dli_sname) snprintf(o, 80, "%s", d.dli_sname); snprintf(what, sizeof what, "%s (%s): %s / %s", kind, o, f, g); }
static void acc(const void* p, size_t n, int wr, int at, void* ra) {
  if (!depth || paused || busy || guard_) return; busy = 1; ++naccs; char* c = (char*)p; u32 pc = (u32)((char*)ra - &__executable_start); char* sp = (char*)__builtin_frame_address(0);
  int tls = c >= tlsLo && c < tlsHi;
  for (int l = 0; l < depth; ++l) { if (c < L[l].frame && c > sp - 4096) continue;   // a local of this iteration
    u32 me = L[l].it; if (L[l].n < 2 && !tls) continue;
    for (size_t i = 0; i < n; ++i) {
      u64 a = (u64)(c + i); Slot* s = &cell(l, a >> 3)->s[a & 7];
      if (tls) { if (wr) s->w = me; else if (s->w != me) race("an iteration reads a thread_local value that it did not set", c, pc, pc); continue; }
      int lockW = held && s->wl == held, lockR = held && s->rl == held;
      if (at) { if ((s->w && s->w != me) || (wr && ((s->r && s->r != me) || (s->r2 && s->r2 != me)))) race("two iterations touch the same memory, one of them writing and one not atomically", c, pc, s->w ? s->wpc : s->rpc); if (!s->a) s->a = me; else if (s->a != me) s->a2 = me; s->rpc = pc; continue; }
      if ((s->a && s->a != me) || (s->a2 && s->a2 != me)) { if (wr || 1) race("two iterations touch the same memory, one of them not atomically", c, pc, s->rpc); }
      if (s->w && s->w != me && !lockW) race(wr ? "two iterations write the same memory" : "an iteration reads what another writes", c, pc, s->wpc);
      if (wr) { if (((s->r && s->r != me) || (s->r2 && s->r2 != me)) && !lockR) race("an iteration writes what another reads", c, pc, s->rpc); if (s->w != me) s->wl = held; s->w = me; s->wpc = pc; if (s->wl != held) s->wl = 0; }
      else { if (!s->r) { s->r = me; s->rl = held; } else if (s->r != me) s->r2 = me; if (s->rl != held) s->rl = 0; s->rpc = pc; }
    } }
  busy = 0;
}
extern "C" {
extern char __libc_single_threaded;   // reference counts are atomic once there are threads
void par_loop_begin(void* frame, long n) { __libc_single_threaded = 0; if (!tlsHi) dl_iterate_phdr(phdr, 0); ++nloops; if (depth >= MAXL) _exit(61); if (!cells[depth]) cells[depth] = (Cell*)mmap(0, sizeof(Cell) * NC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (!arena) arena = (char*)mmap(0, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); L[depth].frame = (char*)frame; L[depth].n = n; L[depth].gen = ++gen; L[depth].it = 0; L[depth].used = 0; ++depth; }
long par_loop_iter(long k) { ++niters; Loop& l = L[depth - 1]; l.it = (u32)k + 1; return reverse_ ? l.n - 1 - k : k; }
void par_loop_iter_inorder(long k) { ++niters; L[depth - 1].it = (u32)k + 1; }
void par_loop_pause(int on) { paused += on ? 1 : -1; }
void par_loop_end() { --depth; }
void par_reverse(int r) { reverse_ = r; }
const char* par_race() { if (!races) return 0; races = 0; return what; }
void par_counts(long* l, long* i, long* a) { *l = nloops; *i = niters; *a = naccs; nloops = niters = naccs = 0; }
// locks: accesses under a common lock do not conflict
static int lk(void* m) { if (depth) held = (u64)m; return 0; } static int ul(void* m) { held = 0; return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { return lk(m); } int pthread_mutex_unlock(pthread_mutex_t* m) { return ul(m); } int pthread_mutex_trylock(pthread_mutex_t* m) { return lk(m); }
int pthread_spin_lock(pthread_spinlock_t* m) { return lk((void*)m); } int pthread_spin_unlock(pthread_spinlock_t* m) { return ul((void*)m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return lk(m); } int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lk(m); } int pthread_rwlock_unlock(pthread_rwlock_t* m) { return ul(m); }
int pthread_once(pthread_once_t* o, void (*init)()) { if (*(volatile int*)o == 0) { ++guard_; init(); --guard_; *(volatile int*)o = 2; } return 0; }
int __cxa_guard_acquire(u64* g) { if (*(volatile char*)g) return 0; ++guard_; return 1; } void __cxa_guard_release(u64* g) { *(volatile char*)g = 1; --guard_; } void __cxa_guard_abort(u64* g) { --guard_; }
// memory allocated inside a loop is never reused: one address is one object
static int mine(void* p) { return arena && (char*)p >= arena && (char*)p < arena + ASZ; }
static void* bump(size_t n, size_t al) { size_t o = (aoff + 16 + al - 1) & ~(al - 1); aoff = o + n; if (aoff > ASZ) _exit(56); *(size_t*)(arena + o - 8) = n; return arena + o; }
void* malloc(size_t n) { return depth ? bump(n, 16) : __libc_malloc(n); }
void free(void* p) { if (!p) return; if (depth) { size_t n = mine(p) ? ((size_t*)p)[-1] : malloc_usable_size(p); acc(p, n > 4096 ? 4096 : n, 1, 0, __builtin_return_address(0)); return; } if (!mine(p)) __libc_free(p); }
void* calloc(size_t a, size_t b) { return depth ? bump(a * b, 16) : __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (!depth && !(p && mine(p))) return __libc_realloc(p, n); void* q = malloc(n); if (p) { size_t m = mine(p) ? ((size_t*)p)[-1] : malloc_usable_size(p); memcpy(q, p, m < n ? m : n); free(p); } return q; }
void* memalign(size_t al, size_t n) { return depth ? bump(n, al < 16 ? 16 : al) : __libc_memalign(al, n); } void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); } int posix_memalign(void** o, size_t al, size_t n) { *o = memalign(al, n); return *o ? 0 : ENOMEM; }
void* memcpy(void* d, const void* s, size_t n) { if (depth) { acc(s, n, 0, 0, __builtin_return_address(0)); acc(d, n, 1, 0, __builtin_return_address(0)); } char* a = (char*)d; const char* b = (const char*)s; asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory"); return d; }
void* memmove(void* d, const void* s, size_t n) { if (depth) { acc(s, n, 0, 0, __builtin_return_address(0)); acc(d, n, 1, 0, __builtin_return_address(0)); } if ((char*)d <= (char*)s || (char*)d >= (char*)s + n) { char* a = (char*)d; const char* b = (const char*)s; asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory"); } else { char* a = (char*)d + n - 1; const char* b = (const char*)s + n - 1; asm volatile("std; rep movsb; cld" : "+D"(a), "+S"(b), "+c"(n) : : "memory"); } return d; }
void* memset(void* d, int v, size_t n) { if (depth) acc(d, n, 1, 0, __builtin_return_address(0)); char* a = (char*)d; asm volatile("rep stosb" : "+D"(a), "+c"(n) : "a"(v) : "memory"); return d; }
}
static inline void atb(const volatile void* p, size_t n, int wr, int, void* ra) { acc((void*)p, n, wr, 1, ra); }
static inline void ate(const volatile void*, int, int) {}
#include "tsan_glue.inc"
