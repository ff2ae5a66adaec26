// Runtime of the controlled scheduler. Built without instrumentation and without any shared template, so that nothing
// here replaces instrumented code at link time. The code under test is compiled with -fsanitize=thread; its calls land here.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#define MAXT 4
typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static __thread int self = -1; static __thread char *stLo, *stHi; static __thread int busy;
static volatile int active;
// ---- arenas: memory allocated by the threads is never reused, so one address is one object ----
static char* arena[MAXT]; static size_t aoff[MAXT]; static const size_t ASZ = (size_t)1 << 34;
static int owner(const void* p) { for (int i = 0; i < MAXT; ++i) if (arena[i] && (char*)p >= arena[i] && (char*)p < arena[i] + ASZ) return i; return -1; }
static void* bump(size_t n, size_t al) { size_t o = aoff[self] + 16; o = (o + al - 1) & ~(al - 1); aoff[self] = o + n; if (aoff[self] > ASZ) _exit(56); *(size_t*)(arena[self] + o - 8) = n; return arena[self] + o; }
// ---- happens-before ----
struct Slot { u32 wt, wc, wpc; u32 r[MAXT], rpc[MAXT], ar[MAXT], aw[MAXT]; };
struct Cell { u64 key; u32 gen; Slot s[8]; };
static const u32 NC = 1 << 18; static Cell* cells; static u32 gen; static u32 vc[MAXT][MAXT]; static int nthr; static u32 ncells;
struct Sync { u64 key; u32 gen; u32 v[MAXT]; u32 mask; int own, rec, wrote; };
static const u32 NS = 1 << 12; static Sync syncs[NS];
static u64 shared_[1024]; static int nshared; static SchedResult* R; static int grew;
extern char __executable_start;
static Cell* cell(u64 k) { u32 h = (u32)((k * 0x9e3779b97f4a7c15ull) >> 40) & (NC - 1); while (cells[h].gen == gen && cells[h].key != k) h = (h + 1) & (NC - 1); Cell* c = &cells[h]; if (c->gen != gen) { if (++ncells > NC - 64) _exit(57); __builtin_memset(c, 0, sizeof *c); c->gen = gen; c->key = k; for (int i = 0; i < 8; ++i) c->s[i].wt = MAXT; } return c; }
static Sync* sync_(u64 k) { u32 h = (u32)((k * 0x9e3779b97f4a7c15ull) >> 40) & (NS - 1); u32 n = 0; while (syncs[h].gen == gen && syncs[h].key != k) { h = (h + 1) & (NS - 1); if (++n >= NS) _exit(58); } Sync* s = &syncs[h]; if (s->gen != gen) { s->gen = gen; s->key = k; for (int i = 0; i < MAXT; ++i) s->v[i] = 0; s->mask = 0; s->own = -1; s->rec = 0; s->wrote = 0; } return s; }
static void where(u32 pc, char* o, int n) { Dl_info d; if (dladdr(&__executable_start + pc, &d) && d.dli_sname) snprintf(o, n, "%s", d.dli_sname); else snprintf(o, n, "+0x%x", pc); }
static void race(const void* a, int w1, u32 pc1, int w2, u32 pc2, int other) {
  if (R->race++) return; Dl_info d; char o[160] = "heap/stack", f[160], g[160]; if (dladdr(a, &d) && d.dli_sname) snprintf(o, 160, "%s", d.dli_sname); where(pc1, f, 160); where(pc2, g, 160);
  snprintf(R->what, sizeof R->what, "thread %d %s and thread %d %s the same memory (%s) without synchronisation: %s / %s", self, w1 ? "writes" : "reads", other, w2 ? "writes" : "reads", o, f, g);
}
static void acc(const void* p, size_t n, int wr, int at, void* ra) {
  if (self < 0 || !active || busy) return; char* c = (char*)p; if (c >= stLo && c < stHi) return;
  busy = 1; ++R->accesses; u32 pc = (u32)((char*)ra - &__executable_start), me = vc[self][self];
  for (size_t i = 0; i < n; ++i) {
    u64 a = (u64)(c + i); Slot* s = &cell(a >> 3)->s[a & 7]; if (!at && s->wt == (u32)self && s->wc == me && (wr ? true : s->r[self] == me)) { if (wr) continue; continue; }
    if (s->wt < MAXT && s->wt != (u32)self && s->wc > vc[self][s->wt]) race(c + i, wr, pc, 1, s->wpc, s->wt);
    for (int t = 0; t < nthr; ++t) if (t != self) { if (wr && s->r[t] > vc[self][t]) race(c + i, 1, pc, 0, s->rpc[t], t); if (!at && (s->aw[t] > vc[self][t] || (wr && s->ar[t] > vc[self][t]))) race(c + i, wr, pc, 1, s->rpc[t], t); }
    if (at) { if (wr) s->aw[self] = me; s->ar[self] = me; s->rpc[self] = pc; } else if (wr) { s->wt = self; s->wc = me; s->wpc = pc; } else { s->r[self] = me; s->rpc[self] = pc; }
  }
  busy = 0;
}
static void acquire(Sync* s) { for (int t = 0; t < nthr; ++t) if (s->v[t] > vc[self][t]) vc[self][t] = s->v[t]; }
static void release(Sync* s) { for (int t = 0; t < nthr; ++t) if (vc[self][t] > s->v[t]) s->v[t] = vc[self][t]; ++vc[self][self]; }
// ---- scheduler: exactly one thread runs; at every scheduling point the next one is chosen ----
struct Thr { pthread_t th; sem_t sem; int done; Sync* waits; };
static Thr th[MAXT]; static sem_t mainSem; static int cur; static int preLeft;
struct Choice { unsigned char n, at; }; static const int MAXD = 20000; static Choice* path; static int depth, plen; static void (*fn_)(void*, int); static void* ctx_;
static int enabled(int t) { return !th[t].done && !(th[t].waits && th[t].waits->own >= 0); }
static int choose(int n) { if (n <= 1) return 0; if (depth >= MAXD) { R->truncated = 1; return 0; } if (depth == plen) { path[plen].n = (unsigned char)n; path[plen].at = 0; ++plen; } int c = path[depth].at; ++depth; return c < n ? c : 0; }
static void resched(int mayStay) {   // called by the running thread (or by main, cur == -1)
  int opt[MAXT], n = 0; int st = mayStay && cur >= 0 && enabled(cur); if (st) opt[n++] = cur; if (!st || preLeft > 0) for (int t = 0; t < nthr; ++t) if (t != cur && enabled(t)) opt[n++] = t;
  if (!n) { for (int t = 0; t < nthr; ++t) if (!th[t].done) { R->deadlock = 1; snprintf(R->what, sizeof R->what, "deadlock"); dprintf(2, "deadlock\n"); _exit(55); } sem_post(&mainSem); return; }
  int nx = opt[choose(n)]; if (st && nx != cur) --preLeft; if (nx == cur) return; int me = cur; cur = nx; sem_post(&th[nx].sem); if (me >= 0 && !th[me].done) while (sem_wait(&th[me].sem)) {}
}
static int isShared(Sync* s) { for (int i = 0; i < nshared; ++i) if (shared_[i] == s->key) return 1; return 0; }
// reads of a location nobody writes commute: only locations written by a synchronisation operation are scheduling points
static void point(Sync* s, int wr = 1) {
  ++R->syncops; s->mask |= 1u << self; if (wr) s->wrote = 1; int ow = owner((void*)s->key);
  int multi = s->wrote && (s->mask & (s->mask - 1)) != 0; if (multi && ow < 0 && !isShared(s)) { if (nshared < 1024) shared_[nshared++] = s->key; grew = 1; }
  if (isShared(s) || (ow >= 0 && multi)) resched(1);
}
static void* body(void* p) {
  int id = (int)(long)p; pthread_attr_t at; void* lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
  while (sem_wait(&th[id].sem)) {} stLo = (char*)lo; stHi = stLo + sz; self = id; fn_(ctx_, id); self = -1; th[id].done = 1; cur = id; resched(0); return 0;
}
extern "C" void sched_explore(int n, void (*fn)(void*, int), void (*before)(void*), void (*after)(void*, long), void* ctx, int preempt, long maxSchedules, SchedResult* out) {
  R = out; __builtin_memset(R, 0, sizeof *R); if (!cells) { cells = (Cell*)mmap(0, sizeof(Cell) * NC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); path = (Choice*)mmap(0, sizeof(Choice) * MAXD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); for (int i = 0; i < MAXT; ++i) arena[i] = (char*)mmap(0, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  nthr = n; fn_ = fn; ctx_ = ctx; nshared = 0;
restart:
  plen = 0; grew = 0; R->schedules = 0;
  for (;;) {
    before(ctx); ++gen; ncells = 0; depth = 0; preLeft = preempt; cur = -1; sem_init(&mainSem, 0, 0);
    for (int t = 0; t < n; ++t) { for (int u = 0; u < MAXT; ++u) vc[t][u] = 0; vc[t][t] = 1; th[t].done = 0; th[t].waits = 0; sem_init(&th[t].sem, 0, 0); }
    for (int t = 0; t < n; ++t) if (pthread_create(&th[t].th, 0, body, (void*)(long)t)) _exit(59);
    active = 1; resched(0); while (sem_wait(&mainSem)) {} for (int t = 0; t < n; ++t) pthread_join(th[t].th, 0); active = 0;
    ++R->schedules; after(ctx, R->schedules); if (R->race) return;
    if (grew) goto restart;
    while (plen && path[plen - 1].at + 1 >= path[plen - 1].n) --plen; if (!plen) return; ++path[plen - 1].at;
    if (R->schedules >= maxSchedules) { R->truncated = 1; return; }
  }
}
// ---- locks, once, static initialisation ----
static int on() { return self >= 0 && active; }
static void lock_(void* m) { Sync* s = sync_((u64)m); if (s->own == self && ((pthread_mutex_t*)m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++s->rec; return; } point(s); while (s->own >= 0) { th[self].waits = s; s->mask |= 1u << self; resched(0); } th[self].waits = 0; s->own = self; acquire(s); }
static void unlock_(void* m) { Sync* s = sync_((u64)m); if (s->rec) { --s->rec; return; } s->own = -1; release(s); point(s); }
template <class F> static F next_(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(NAME, ARG, VAL) static int (*f)(ARG); if (!f) f = next_<int (*)(ARG)>(NAME); return f(VAL)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if (on()) { lock_(m); return 0; } REAL("pthread_mutex_lock", pthread_mutex_t*, m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (on()) { unlock_(m); return 0; } REAL("pthread_mutex_unlock", pthread_mutex_t*, m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (on()) { Sync* s = sync_((u64)m); point(s); if (s->own >= 0) return EBUSY; s->own = self; acquire(s); return 0; } REAL("pthread_mutex_trylock", pthread_mutex_t*, m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (on()) { lock_(m); return 0; } REAL("pthread_rwlock_rdlock", pthread_rwlock_t*, m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (on()) { lock_(m); return 0; } REAL("pthread_rwlock_wrlock", pthread_rwlock_t*, m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (on()) { unlock_(m); return 0; } REAL("pthread_rwlock_unlock", pthread_rwlock_t*, m); }
int pthread_spin_lock(pthread_spinlock_t* m) { if (on()) { lock_((void*)m); return 0; } REAL("pthread_spin_lock", pthread_spinlock_t*, m); }
int pthread_spin_unlock(pthread_spinlock_t* m) { if (on()) { unlock_((void*)m); return 0; } REAL("pthread_spin_unlock", pthread_spinlock_t*, m); }
int pthread_once(pthread_once_t* o, void (*init)()) { if (on()) { lock_(o); if (*(volatile int*)o == 0) { init(); *(volatile int*)o = 2; } unlock_(o); return 0; } static int (*f)(pthread_once_t*, void (*)()); if (!f) f = next_<int (*)(pthread_once_t*, void (*)())>("pthread_once"); return f(o, init); }
int __cxa_guard_acquire(u64* g) {
  if (on()) { lock_(g); if (*(volatile char*)g) { unlock_(g); return 0; } return 1; }
  return *(volatile char*)g ? 0 : 1;      // outside exploration there is one thread
}
void __cxa_guard_release(u64* g) { *(volatile char*)g = 1; if (on()) unlock_(g); }
void __cxa_guard_abort(u64* g) { if (on()) unlock_(g); }
// ---- memory ----
void* malloc(size_t n) { return on() ? bump(n, 16) : __libc_malloc(n); }
void free(void* p) { if (!p) return; int o = owner(p); if (on()) { size_t n = o >= 0 ? ((size_t*)p)[-1] : malloc_usable_size(p); acc(p, n > 4096 ? 4096 : n, 1, 0, __builtin_return_address(0)); return; } if (o < 0) __libc_free(p); }
void* calloc(size_t a, size_t b) { if (!on()) return __libc_calloc(a, b); char* p = (char*)bump(a * b, 16); return p; }
void* realloc(void* p, size_t n) { int o = p ? owner(p) : -1; if (!on() && o < 0) return __libc_realloc(p, n); void* q = malloc(n); if (p) { size_t m = o >= 0 ? ((size_t*)p)[-1] : malloc_usable_size(p); memcpy(q, p, m < n ? m : n); free(p); } return q; }
void* memalign(size_t al, size_t n) { return on() ? bump(n, al < 16 ? 16 : al) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { *o = memalign(al, n); return *o ? 0 : ENOMEM; }
void* memcpy(void* d, const void* s, size_t n) { if (on()) { acc(s, n, 0, 0, __builtin_return_address(0)); acc(d, n, 1, 0, __builtin_return_address(0)); } char* a = (char*)d; const char* b = (const char*)s; asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory"); return d; }
void* memmove(void* d, const void* s, size_t n) { if (on()) { acc(s, n, 0, 0, __builtin_return_address(0)); acc(d, n, 1, 0, __builtin_return_address(0)); } if ((char*)d <= (char*)s || (char*)d >= (char*)s + n) { char* a = (char*)d; const char* b = (const char*)s; asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory"); } else { char* a = (char*)d + n - 1; const char* b = (const char*)s + n - 1; asm volatile("std; rep movsb; cld" : "+D"(a), "+S"(b), "+c"(n) : : "memory"); } return d; }
void* memset(void* d, int v, size_t n) { if (on()) acc(d, n, 1, 0, __builtin_return_address(0)); char* a = (char*)d; asm volatile("rep stosb" : "+D"(a), "+c"(n) : "a"(v) : "memory"); return d; }
}
// one atomic operation: a scheduling point, then indivisible
static inline void atb(const volatile void* p, size_t n, int wr, int mo, void* ra) { if (!on()) return; Sync* s = sync_((u64)p); point(s, wr); acc((void*)p, n, wr, 1, ra); if (!wr ? mo != 0 && mo != 3 : mo != 0) { if (!wr || mo != 3) acquire(s); } (void)s; }
static inline void ate(const volatile void* p, int wr, int mo) { if (on() && wr && mo != 0 && mo != 1 && mo != 2) release(sync_((u64)p)); }
#include "tsan_glue.inc"
