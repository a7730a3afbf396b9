// Thread build: every thread of the simulated process is a coroutine of one seeded scheduler.
// lttoolbox is compiled with -fsanitize=thread instrumentation, but the functions the
// instrumentation calls are these: each memory access and each synchronisation operation is a
// scheduling point, and a happens-before race detector watches them.  Exactly one thread runs at a time.
#include "rt.h"
#include "rt_int.h"
#ifdef SIM_TSAN
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include <chrono>
#include <linux/futex.h>

typedef unsigned long uptr;
static const int MAXT = 96;
enum TState { T_FREE, T_RUN, T_BLOCK, T_DONE };
struct Thr { TState st; pthread_t h; sem_t sem; uint32_t vc[MAXT]; void* waits; int why; bool joined, detached; void* (*fn)(void*); void* arg; void* ret; int prio; bool timed, timedout; };
static Thr T[MAXT]; static int g_nt; static int g_cur; static bool g_on; static int g_unjoined;
static __thread int t_me = -1;
static uint64_t g_step, g_budget_steps = 400000000ull; static uint64_t g_next; static uint64_t g_seed;
static int g_created; static SchedSpec g_sp; static const std::pair<uint64_t,int>* g_sw; static size_t g_nsw, g_isw;
static uint64_t rnd() { uint64_t z=(g_seed+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static int g_pct[8]; static uint64_t g_pctat[8]; static int g_npct, g_ipct; static int g_lowprio = 0;
static volatile uint64_t *c_sw, *c_th, *c_ac, *c_sy;

bool sched_active() { return g_on; }
static bool multi() { return g_on && g_unjoined > 0 && t_me >= 0; }

// ---- choosing ---------------------------------------------------------------
static void log_switch(int to, bool forced) { char b[48]; int n = snprintf(b, sizeof b, "sw %llu %d", (unsigned long long)g_step, to); rt_log(R_NOTE, forced ? 1 : 0, 0, b, n); }
static int runnable(int* out) { int n = 0; for (int i=0;i<g_nt;i++) if (T[i].st == T_RUN) out[n++] = i; return n; }
static void set_next()
{
  if (g_sp.explicit_sw) { g_next = ~0ull; while (g_isw < g_nsw && g_sw[g_isw].first < g_step) g_isw++; if (g_isw < g_nsw) g_next = g_sw[g_isw].first > g_step ? g_sw[g_isw].first : g_step + 1; return; }
  if (g_sp.strategy == 2) { g_next = ~0ull; return; }
  if (g_sp.strategy == 1) { g_next = g_ipct < g_npct ? g_pctat[g_ipct] : ~0ull; if (g_next <= g_step) g_next = g_step + 1; return; }
  g_next = g_step + 1 + rnd() % (2 * g_sp.period + 1);
}
static int pick(int* r, int n)
{
  if (g_sp.strategy == 1 && !g_sp.explicit_sw) { int b = r[0]; for (int i=1;i<n;i++) if (T[r[i]].prio > T[b].prio) b = r[i]; return b; }
  return r[rnd() % n];
}
static void give(int to)
{
  int me = t_me; if (to == me) return;
  ++*c_sw; g_cur = to; sem_post(&T[to].sem);
  while (sem_wait(&T[me].sem) != 0) {}
}
// voluntary scheduling point reached (g_step >= g_next)
static void preempt()
{
  int r[MAXT]; int n = runnable(r); int to = t_me;
  if (g_sp.explicit_sw) { while (g_isw < g_nsw && g_sw[g_isw].first < g_step) g_isw++; if (g_isw < g_nsw && g_sw[g_isw].first == g_step) { int c = g_sw[g_isw].second; g_isw++; if (c >= 0 && c < g_nt && T[c].st == T_RUN) to = c; } }
  else if (g_sp.strategy == 1) { T[t_me].prio = --g_lowprio; g_ipct++; to = pick(r, n); }
  else to = pick(r, n);
  set_next();
  if (to != t_me) { log_switch(to, false); give(to); }
}
// the current thread cannot go on
static void block_switch(bool dying)
{
  int r[MAXT]; int n = runnable(r);
  if (!n) { // a timed wait may expire: time passes only when nobody can run
    for (int i=0;i<g_nt;i++) if (T[i].st == T_BLOCK && T[i].timed) { T[i].timedout = true; T[i].st = T_RUN; r[n++] = i; break; }
  }
  if (!n) rt_die(R_DEADLOCK, "every thread waits for another one", 202);
  int to = -1;
  if (g_sp.explicit_sw) { while (g_isw < g_nsw && g_sw[g_isw].first < g_step) g_isw++; if (g_isw < g_nsw && g_sw[g_isw].first == g_step) { int c = g_sw[g_isw].second; g_isw++; if (c >= 0 && c < g_nt && T[c].st == T_RUN) to = c; } if (to < 0) to = r[0]; }
  else to = pick(r, n);
  log_switch(to, true); set_next();
  if (to == t_me) return;
  ++*c_sw; g_cur = to; int me = t_me; sem_post(&T[to].sem);
  if (dying) return;
  while (sem_wait(&T[me].sem) != 0) {}
}
static inline void tick() { ++g_step; ++*c_ac; if (g_step > g_budget_steps) rt_die(R_HANG, "step budget exhausted", 201); if (g_step >= g_next) preempt(); }

// ---- happens-before -------------------------------------------------------------
struct SyncVC { uptr key; uint32_t vc[MAXT]; };
static const size_t NSYNC = 1 << 14; static SyncVC* g_sync;
static SyncVC* sync_of(const void* p) { uptr k = (uptr)p; size_t i = (k * 0x9e3779b97f4a7c15ull) >> 50; for (size_t n=0;n<NSYNC;n++) { SyncVC& s = g_sync[(i+n) & (NSYNC-1)]; if (s.key == k) return &s; if (!s.key) { s.key = k; return &s; } } rt_die(R_NOTE, "sync table full", 203); }
static void vjoin(uint32_t* a, const uint32_t* b) { for (int i=0;i<MAXT;i++) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire(const void* p) { vjoin(T[t_me].vc, sync_of(p)->vc); }
static void release(const void* p, bool join) { SyncVC* s = sync_of(p); if (join) vjoin(s->vc, T[t_me].vc); else memcpy(s->vc, T[t_me].vc, sizeof s->vc); T[t_me].vc[t_me]++; }

struct Ep { uint32_t clk; uint8_t tid, mask, atomic, pad; };
struct Cell { uptr key; Ep w; Ep r[3]; uptr wpc; };
static const size_t NCELL = 1 << 20; static Cell* g_cells; static uint64_t g_ncells;
static Cell* cell_of(uptr k, bool make) { size_t i = (k * 0x9e3779b97f4a7c15ull) >> 44; for (size_t n=0;n<64;n++) { Cell& c = g_cells[(i+n) & (NCELL-1)]; if (c.key == k) return &c; if (!c.key) { if (!make) return nullptr; c.key = k; return &c; } } if (!make) return nullptr; Cell& c = g_cells[i & (NCELL-1)]; memset(&c, 0, sizeof c); c.key = k; return &c; }
static void describe(uptr pc, char* b, size_t n) { Dl_info d; if (dladdr((void*)pc, &d) && d.dli_sname) { snprintf(b, n, "%s", d.dli_sname); } else snprintf(b, n, "?"); }
static void report(uptr a, bool w, uptr pc, const Ep& o, bool ow, uptr opc)
{
  if (!g_sp.race_check) return;
  char b[900], f1[300], f2[300]; describe(pc, f1, sizeof f1); if (opc) describe(opc, f2, sizeof f2); else snprintf(f2, sizeof f2, "?");
  int n = snprintf(b, sizeof b, "thread %d %s memory that thread %d %s without synchronisation, in %s (other: %s)", t_me, w ? "writes" : "reads", o.tid, ow ? "wrote" : "read", f1, f2);
  rt_log(R_RACE, 0, 0, b, n); _exit(208);
}
static inline bool hb(const Ep& e) { return e.clk <= T[t_me].vc[e.tid]; }
static void access(uptr a, size_t n, bool w, bool at, uptr pc)
{
  if (!multi()) return;
  uptr end = a + n;
  for (uptr k = a >> 3; k <= (end-1) >> 3; k++) {
    uptr lo = k << 3; uint8_t mask = 0; for (int i=0;i<8;i++) if (lo+i >= a && lo+i < end) mask |= 1 << i;
    Cell* c = cell_of(k, true);
    if (c->w.mask & mask && c->w.tid != t_me && !(at && c->w.atomic) && !hb(c->w)) report(a, w, pc, c->w, true, c->wpc);
    if (w) { for (auto& e : c->r) if (e.mask & mask && e.tid != t_me && !(at && e.atomic) && !hb(e)) report(a, w, pc, e, false, 0); }
    Ep ne{T[t_me].vc[t_me], (uint8_t)t_me, mask, (uint8_t)at, 0};
    if (w) { if (c->w.tid == t_me && c->w.clk == ne.clk && c->w.atomic == ne.atomic) c->w.mask |= mask; else { c->w = ne; } c->wpc = pc; }
    else { int s = -1; for (int i=0;i<3;i++) if (c->r[i].mask && c->r[i].tid == t_me) { s = i; break; } if (s < 0) for (int i=0;i<3;i++) if (!c->r[i].mask) { s = i; break; } if (s < 0) for (int i=0;i<3;i++) if (hb(c->r[i])) { s = i; break; } if (s < 0) s = (int)(g_step % 3); if (c->r[s].tid == t_me && c->r[s].clk == ne.clk && c->r[s].atomic == ne.atomic) c->r[s].mask |= mask; else c->r[s] = ne; }
  }
  tick();
}
void tsan_heap_new(void* p, size_t n)
{
  if (!multi()) return; uptr a = (uptr)p; if (n > (1u << 20)) n = 1u << 20;
  for (uptr k = a >> 3; k <= (a + (n ? n : 1) - 1) >> 3; k++) { Cell* c = cell_of(k, false); if (c) { uptr key = c->key; memset(c, 0, sizeof *c); c->key = key; } }
}
void tsan_heap_free(void*, size_t) {}

// memory from malloc changes hands inside libc: a fresh block has no history
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && g_on) tsan_heap_new(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p && g_on) tsan_heap_new(p, a*b); return p; }
void* realloc(void* o, size_t n) { void* p = __libc_realloc(o, n); if (p && p != o && g_on) tsan_heap_new(p, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p && g_on) tsan_heap_new(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; } }

#define PC ((uptr)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(N) void __tsan_read##N(void* p) { if (g_on) access((uptr)p, N, false, false, PC); } void __tsan_write##N(void* p) { if (g_on) access((uptr)p, N, true, false, PC); } \
 void __tsan_unaligned_read##N(void* p) { if (g_on) access((uptr)p, N, false, false, PC); } void __tsan_unaligned_write##N(void* p) { if (g_on) access((uptr)p, N, true, false, PC); } \
 void __tsan_read_write##N(void* p) { if (g_on) access((uptr)p, N, true, false, PC); } void __tsan_unaligned_read_write##N(void* p) { if (g_on) access((uptr)p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* n) { if (g_on && *p != n) access((uptr)p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { if (g_on) access((uptr)p, 8, false, false, PC); }
void __tsan_read_range(void* p, size_t n) { if (g_on && n) access((uptr)p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (g_on && n) access((uptr)p, n, true, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (g_on && n) { access((uptr)s, n, false, false, PC); access((uptr)d, n, true, false, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (g_on && n) { access((uptr)s, n, false, false, PC); access((uptr)d, n, true, false, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (g_on && n) access((uptr)d, n, true, false, PC); return memset(d, c, n); }
}
static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static inline void at_pre(const volatile void* p, size_t n, bool w, uptr pc) { if (multi()) access((uptr)p, n, w, true, pc); }
static inline void at_acq(const volatile void* p, int mo) { if (multi() && acq(mo)) acquire((void*)p); }
static inline void at_rel(const volatile void* p, int mo, bool join) { if (multi() && rel(mo)) release((void*)p, join); }
#define ATOMIC(B, Ty) extern "C" { \
Ty __tsan_atomic##B##_load(const volatile Ty* a, int mo) { at_pre(a, sizeof(Ty), false, PC); at_acq(a, mo); return *a; } \
void __tsan_atomic##B##_store(volatile Ty* a, Ty v, int mo) { at_pre(a, sizeof(Ty), true, PC); at_rel(a, mo, false); *a = v; } \
Ty __tsan_atomic##B##_exchange(volatile Ty* a, Ty v, int mo) { at_pre(a, sizeof(Ty), true, PC); at_acq(a, mo); at_rel(a, mo, true); Ty o = *a; *a = v; return o; } \
Ty __tsan_atomic##B##_fetch_add(volatile Ty* a, Ty v, int mo) { at_pre(a, sizeof(Ty), true, PC); at_acq(a, mo); at_rel(a, mo, true); Ty o = *a; *a = o + v; return o; } \
Ty __tsan_atomic##B##_fetch_sub(volatile Ty* a, Ty v, int mo) { at_pre(a, sizeof(Ty), true, PC); at_acq(a, mo); at_rel(a, mo, true); Ty o = *a; *a = o - v; return o; } \
Ty __tsan_atomic##B##_fetch_and(volatile Ty* a, Ty v, int mo) { at_pre(a, sizeof(Ty), true, PC); at_acq(a, mo); at_rel(a, mo, true); Ty o = *a; *a = o & v; return o; } \
Ty __tsan_atomic##B##_fetch_or(volatile Ty* a, Ty v, int mo) { at_pre(a, sizeof(Ty), true, PC); at_acq(a, mo); at_rel(a, mo, true); Ty o = *a; *a = o | v; return o; } \
Ty __tsan_atomic##B##_fetch_xor(volatile Ty* a, Ty v, int mo) { at_pre(a, sizeof(Ty), true, PC); at_acq(a, mo); at_rel(a, mo, true); Ty o = *a; *a = o ^ v; return o; } \
Ty __tsan_atomic##B##_fetch_nand(volatile Ty* a, Ty v, int mo) { at_pre(a, sizeof(Ty), true, PC); at_acq(a, mo); at_rel(a, mo, true); Ty o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile Ty* a, Ty* e, Ty v, int mo, int fmo) { at_pre(a, sizeof(Ty), true, PC); if (*a == *e) { at_acq(a, mo); at_rel(a, mo, true); *a = v; return 1; } at_acq(a, fmo); *e = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile Ty* a, Ty* e, Ty v, int mo, int fmo) { at_pre(a, sizeof(Ty), true, PC); if (*a == *e) { at_acq(a, mo); at_rel(a, mo, true); *a = v; return 1; } at_acq(a, fmo); *e = *a; return 0; } \
Ty __tsan_atomic##B##_compare_exchange_val(volatile Ty* a, Ty e, Ty v, int mo, int fmo) { at_pre(a, sizeof(Ty), true, PC); Ty o = *a; if (o == e) { at_acq(a, mo); at_rel(a, mo, true); *a = v; } else at_acq(a, fmo); return o; } }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, unsigned __int128)
extern "C" void __tsan_atomic_thread_fence(int) { if (multi()) { acquire((void*)&g_sync); release((void*)&g_sync, true); } }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---- blocking -------------------------------------------------------------------
static void wait_on(const void* what, int why) { Thr& t = T[t_me]; t.st = T_BLOCK; t.waits = (void*)what; t.why = why; block_switch(false); t.waits = nullptr; }
static void wake(const void* what, int why, int max) { int w = 0; for (int i=0;i<g_nt && w < max;i++) if (T[i].st == T_BLOCK && T[i].waits == what && T[i].why == why) { T[i].st = T_RUN; w++; } }
enum { W_MUTEX = 1, W_COND, W_JOIN, W_FUTEX, W_ONCE, W_RW, W_SEM };
template<class F> static F nx(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static inline void sync_point() { ++*c_sy; tick(); }

// mutexes are simulated entirely: owner table
struct Mx { const void* m; int owner, depth; int readers; }; static Mx g_mx[4096]; static int g_nmx;
static Mx* mx(const void* m) { for (int i=0;i<g_nmx;i++) if (g_mx[i].m == m) return &g_mx[i]; if (g_nmx >= 4096) rt_die(R_NOTE, "mutex table full", 203); Mx* x = &g_mx[g_nmx++]; x->m = m; x->owner = -1; x->depth = 0; x->readers = 0; return x; }
static bool on() { return g_on && t_me >= 0; }
static void m_lock(const void* m, bool rec) { sync_point(); Mx* x = mx(m); if (x->owner == t_me) { if (rec) { x->depth++; return; } rt_die(R_DEADLOCK, "a thread locks a mutex it already holds", 202); } while (x->owner >= 0) wait_on(m, W_MUTEX); x->owner = t_me; x->depth = 1; acquire(m); }
static int m_try(const void* m, bool rec) { sync_point(); Mx* x = mx(m); if (x->owner == t_me && rec) { x->depth++; return 0; } if (x->owner >= 0) return EBUSY; x->owner = t_me; x->depth = 1; acquire(m); return 0; }
static void m_unlock(const void* m) { Mx* x = mx(m); if (x->owner != t_me) return; if (--x->depth == 0) { release(m, false); x->owner = -1; wake(m, W_MUTEX, MAXT); } sync_point(); }
static bool is_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if (on()) { m_lock(m, is_rec(m)); return 0; } static auto f = nx<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f ? f(m) : 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (on()) return m_try(m, is_rec(m)); static auto f = nx<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (on()) { m_unlock(m); return 0; } static auto f = nx<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f ? f(m) : 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (on()) { for (int i=0;i<g_nmx;i++) if (g_mx[i].m == m) { g_mx[i].owner = -1; g_mx[i].depth = 0; } return 0; } static auto f = nx<int(*)(pthread_mutex_t*)>("pthread_mutex_destroy"); return f(m); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (on()) { m_unlock(m); wait_on(c, W_COND); m_lock(m, is_rec(m)); acquire(c); return 0; } static auto f = nx<int(*)(pthread_cond_t*,pthread_mutex_t*)>("pthread_cond_wait"); return f(c,m); }
static int cond_timed(pthread_cond_t* c, pthread_mutex_t* m) { T[t_me].timed = true; T[t_me].timedout = false; m_unlock(m); wait_on(c, W_COND); bool to = T[t_me].timedout; T[t_me].timed = T[t_me].timedout = false; m_lock(m, is_rec(m)); return to ? ETIMEDOUT : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (on()) return cond_timed(c, m); static auto f = nx<int(*)(pthread_cond_t*,pthread_mutex_t*,const struct timespec*)>("pthread_cond_timedwait"); return f(c,m,t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (on()) return cond_timed(c, m); static auto f = nx<int(*)(pthread_cond_t*,pthread_mutex_t*,clockid_t,const struct timespec*)>("pthread_cond_clockwait"); return f(c,m,k,t); }
int pthread_cond_signal(pthread_cond_t* c) { if (on()) { release(c, true); wake(c, W_COND, 1); sync_point(); return 0; } static auto f = nx<int(*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (on()) { release(c, true); wake(c, W_COND, MAXT); sync_point(); return 0; } static auto f = nx<int(*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); }
static int rw_rd(const void* m, bool tr) { sync_point(); Mx* x = mx(m); while (x->owner >= 0) { if (tr) return EBUSY; wait_on(m, W_RW); } x->readers++; acquire(m); return 0; }
static int rw_wr(const void* m, bool tr) { sync_point(); Mx* x = mx(m); while (x->owner >= 0 || x->readers) { if (tr) return EBUSY; wait_on(m, W_RW); } x->owner = t_me; acquire(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (on()) return rw_rd(m, false); static auto f = nx<int(*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (on()) return rw_wr(m, false); static auto f = nx<int(*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (on()) return rw_rd(m, true); static auto f = nx<int(*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock"); return f(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (on()) return rw_wr(m, true); static auto f = nx<int(*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock"); return f(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (on()) { Mx* x = mx(m); release(m, true); if (x->owner == t_me) x->owner = -1; else if (x->readers) x->readers--; wake(m, W_RW, MAXT); sync_point(); return 0; } static auto f = nx<int(*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(m); }
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
  if (!on()) { static auto f = nx<int(*)(pthread_once_t*,void(*)(void))>("pthread_once"); return f(o, fn); }
  sync_point(); volatile int* st = (volatile int*)o;   // 0 new, 1 running (simulated), 2 done, as glibc
  while (*st == 0x5151) wait_on(o, W_ONCE);
  if (*st == 2) { acquire(o); return 0; }
  *st = 0x5151;
  try { fn(); } catch (...) { *st = 0; wake(o, W_ONCE, MAXT); throw; }
  release(o, false); *st = 2; wake(o, W_ONCE, MAXT); return 0;
}
int __cxa_guard_acquire(uint64_t* g)
{
  uint8_t* b = (uint8_t*)g;
  if (!on()) { if (b[0]) return 0; b[1] = 1; return 1; }
  sync_point(); while (b[1] == 1 && !b[0]) wait_on(g, W_ONCE);
  if (b[0]) { acquire(g); return 0; } b[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) { uint8_t* b = (uint8_t*)g; b[0] = 1; b[1] = 0; if (on()) { release(g, false); wake(g, W_ONCE, MAXT); } }
void __cxa_guard_abort(uint64_t* g) { uint8_t* b = (uint8_t*)g; b[1] = 0; if (on()) wake(g, W_ONCE, MAXT); }

// a thread is over when the destructors of its thread-local objects have run, so its end is taken from the last round of key destructors
static pthread_key_t g_endkey;
static void thr_end(void* v)
{
  long x = (long)v; int me = (int)(x >> 3);
  if ((x & 7) < 3) { pthread_setspecific(g_endkey, (void*)(x+1)); return; }
  T[me].st = T_DONE; wake(&T[me], W_JOIN, MAXT); t_me = me; block_switch(true); t_me = -1;
}
static void* tramp(void* a)
{
  int me = (int)(long)a; t_me = me; while (sem_wait(&T[me].sem) != 0) {}
  pthread_setspecific(g_endkey, (void*)((long)me << 3));
  T[me].ret = T[me].fn(T[me].arg);
  return T[me].ret;
}
int pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
  static auto f = nx<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create");
  if (!on()) return f(h, at, fn, arg);
  if (g_nt >= MAXT) rt_die(R_NOTE, "too many threads for the simulator", 203);
  if (g_sp.fail_create >= 0 && ++g_created > g_sp.fail_create) { rt_log(R_FAULT, 't', 0, "thread", 6); return EAGAIN; }
  int id = g_nt; Thr& t = T[id]; memset(&t, 0, sizeof t); sem_init(&t.sem, 0, 0); t.fn = fn; t.arg = arg; t.st = T_RUN; t.prio = (int)(rnd() % 1000) + 1;
  memcpy(t.vc, T[t_me].vc, sizeof t.vc); t.vc[id] = 1; T[t_me].vc[t_me]++; 
  int rc = f(h, at, tramp, (void*)(long)id); if (rc) return rc;
  t.h = *h; g_nt++; g_unjoined++; ++*c_th; if (g_next == 0 || g_next == ~0ull) set_next();
  sync_point(); return 0;
}
static int find_thr(pthread_t h) { for (int i=g_nt-1;i>=1;i--) if (pthread_equal(T[i].h, h) && !T[i].joined) return i; return -1; }
int pthread_join(pthread_t h, void** ret)
{
  static auto f = nx<int(*)(pthread_t,void**)>("pthread_join");
  if (!on()) return f(h, ret);
  int k = find_thr(h); if (k < 0) return ESRCH;
  sync_point(); while (T[k].st != T_DONE) wait_on(&T[k], W_JOIN);
  vjoin(T[t_me].vc, T[k].vc); T[k].joined = true; g_unjoined--;
  return f(h, ret);
}
int pthread_detach(pthread_t h) { static auto f = nx<int(*)(pthread_t)>("pthread_detach"); if (on()) { int k = find_thr(h); if (k >= 0) T[k].detached = true; } return f(h); }
int sched_yield() { if (on()) { sync_point(); int r[MAXT]; int n = runnable(r); if (n > 1 && !g_sp.explicit_sw) { int to = r[rnd() % n]; if (to != t_me) { log_switch(to, false); give(to); } } } return 0; }
int nanosleep(const struct timespec*, struct timespec*) { if (on()) sched_yield(); return 0; }
int usleep(useconds_t) { if (on()) sched_yield(); return 0; }
long syscall(long n, ...)
{
  va_list ap; va_start(ap, n); long a[6]; for (auto& x : a) x = va_arg(ap, long); va_end(ap);
  if (on() && n == SYS_futex) {
    int op = (int)a[1] & 0x7f;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { sync_point(); if (*(volatile int*)a[0] != (int)a[2]) { errno = EAGAIN; return -1; } T[t_me].timed = a[3] != 0; T[t_me].timedout = false; wait_on((void*)a[0], W_FUTEX); bool to = T[t_me].timedout; T[t_me].timed = T[t_me].timedout = false; if (to) { errno = ETIMEDOUT; return -1; } return 0; }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { wake((void*)a[0], W_FUTEX, (int)a[2] < 0 ? MAXT : (int)a[2]); sync_point(); return 1; }
  }
  static auto f = nx<long(*)(long,...)>("syscall"); return f(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
}
// std::future waits
namespace std { struct __atomic_futex_unsigned_base { static bool _M_futex_wait_until(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds); static bool _M_futex_wait_until_steady(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds); static void _M_futex_notify_all(unsigned*); };
static bool fwait(unsigned* a, unsigned v, bool timed) { sync_point(); if (*(volatile unsigned*)a != v) return true; T[t_me].timed = timed; T[t_me].timedout = false; wait_on(a, W_FUTEX); bool to = T[t_me].timedout; T[t_me].timed = T[t_me].timedout = false; return !to; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool t, chrono::seconds, chrono::nanoseconds) { if (on()) return fwait(a, v, t); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool t, chrono::seconds, chrono::nanoseconds) { if (on()) return fwait(a, v, t); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { if (on()) { wake(a, W_FUTEX, MAXT); sync_point(); } }
}

void sched_child_begin(const SchedSpec& s)
{
  Counters c = rt_counters(); c_sw = c.switches; c_th = c.threads; c_ac = c.accesses; c_sy = c.syncs;
  if (!s.on) return;
  g_sp = s; g_sw = s.switches.data(); g_nsw = s.switches.size(); g_isw = 0; g_seed = s.seed;
  g_cells = (Cell*)mmap(nullptr, NCELL * sizeof(Cell), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  g_sync = (SyncVC*)mmap(nullptr, NSYNC * sizeof(SyncVC), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  pthread_key_create(&g_endkey, thr_end);
  memset(T, 0, sizeof T); g_nt = 1; t_me = 0; g_cur = 0; T[0].st = T_RUN; T[0].vc[0] = 1; T[0].h = pthread_self(); T[0].prio = (int)(rnd() % 1000) + 1; sem_init(&T[0].sem, 0, 0);
  g_npct = (int)(rnd() % 6); for (int i=0;i<g_npct;i++) g_pctat[i] = 1 + rnd() % (g_sp.period * 40 + 1); for (int i=0;i<g_npct;i++) for (int j=i+1;j<g_npct;j++) if (g_pctat[j] < g_pctat[i]) { uint64_t x = g_pctat[i]; g_pctat[i] = g_pctat[j]; g_pctat[j] = x; }
  g_step = 0; g_next = ~0ull; set_next(); g_unjoined = 0; g_on = true;
}
void sched_child_end() { g_on = false; }
#endif
