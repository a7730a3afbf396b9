#include <atomic>
#include "rt.h"
#include "rt_int.h"
#include <cstdio>
#include <cstdarg>
#include <sys/types.h>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <new>
#include <iostream>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <ext/stdio_sync_filebuf.h>

// ---------------------------------------------------------------------------
// shared region
// ---------------------------------------------------------------------------
static const size_t LOG_CAP = 48u << 20;
static const size_t COV_CAP = 1u << 17;
struct Shared {
  volatile uint64_t steps, allocs, switches, threads, accesses, syncs;
  volatile uint64_t logpos;
  volatile int logfull;
  uint8_t cov[COV_CAP];
  uint8_t log[LOG_CAP];
};
static const int NSHARED = 4;
static Shared* g_shared[NSHARED];
static Shared* g_sh;            // the region of this process
static uint32_t g_nguards = 1;
static uint8_t g_dummycov[COV_CAP];
static uint8_t* g_cov = g_dummycov;
static uint64_t g_budget = ~0ull;
static uint64_t g_dummysteps;
static volatile uint64_t* g_steps = &g_dummysteps;
bool g_child = false;
static const ProcSpec* g_spec;
static std::map<std::string, int (*)(int, char**)>* g_tools;
int (*rt_api_hook)(const ProcSpec&) = nullptr;

bool rt_in_child() { return g_child; }

extern "C" void rt_log(uint8_t type, uint32_t a, uint32_t b, const void* data, size_t n)
{
  if (!g_child || !g_sh) return;
  Shared* s = g_sh;
  size_t need = 13 + n;
  if (s->logpos + need > LOG_CAP - 4096 && type != R_RUNAWAY) rt_die(R_RUNAWAY, "more I/O than any run of this size can need", 204);
  if (s->logpos + need > LOG_CAP) { s->logfull = 1; _exit(203); }
  uint8_t* p = s->log + s->logpos;
  uint32_t nn = (uint32_t)n;
  p[0] = type; memcpy(p+1,&a,4); memcpy(p+5,&b,4); memcpy(p+9,&nn,4);
  if (n) memcpy(p+13, data, n);
  s->logpos = s->logpos + need;
}

[[noreturn]] void rt_die(uint8_t rec, const char* why, int code)
{
  rt_log(rec, 0, 0, why, strlen(why));
  _exit(code);
}
Counters rt_counters() { Counters c; if (g_sh) { c.switches=&g_sh->switches; c.threads=&g_sh->threads; c.accesses=&g_sh->accesses; c.syncs=&g_sh->syncs; } else { static volatile uint64_t d; c.switches=c.threads=c.accesses=c.syncs=&d; } return c; }

#ifdef SIM_GUARD
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
  if (start == stop || *start) return;
  for (uint32_t* x = start; x < stop; x++) { *x = g_nguards < COV_CAP-1 ? g_nguards++ : COV_CAP-1; }
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard)
{
  g_cov[*guard] = 1;
  if (++*g_steps > g_budget) {
    g_budget = ~0ull;
    rt_die(R_HANG, "step budget exhausted", 201);
  }
}
#endif
uint64_t rt_cov_edges_total() { return g_nguards-1; }
static std::vector<uint8_t>* g_accum;
const std::vector<uint8_t>& rt_cov_accum() { return *g_accum; }
void rt_cov_absorb(const uint8_t* p, size_t n) { for (size_t i=0;i<n && i<COV_CAP;i++) (*g_accum)[i] |= p[i]; }

// ---------------------------------------------------------------------------
// allocator seam (operator new/delete)
// ---------------------------------------------------------------------------
struct SplitMix { uint64_t s; uint64_t next() { uint64_t z=(s+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);} };

#ifndef SIM_ASAN
static const uint32_t AMAGIC = 0x51a110c8u;
struct AHdr { uint32_t magic; uint32_t cls; uint64_t size; };
static const int NCLS = 64 + 64;   // 16..1024 step 16, then powers of two
struct AArena {
  char* base; char* cur; char* end;
  struct FreeNode { FreeNode* next; };
  FreeNode* fl[NCLS];
  uint64_t live;
  int mode; SplitMix rng; uint8_t junk;
};
static AArena g_ar[2];
static int g_arsel = 0;
static uint64_t g_newcount = 0, g_newfail_at = ~0ull; static bool g_newfail_sticky = false; static bool g_newfired = false;
static const size_t ARENA_SZ = 6ull << 30;
static void arena_init(int i)
{
  void* want = (void*)(i == 0 ? 0x200000000000ull : 0x280000000000ull);
  void* p = mmap(want, ARENA_SZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) { static const char m[]="arena mmap failed\n"; if (write(2,m,sizeof m)) {} _exit(99); }
  AArena& a = g_ar[i]; memset(&a, 0, sizeof a); a.base = a.cur = (char*)p; a.end = a.base + ARENA_SZ;
}
static inline int acls(size_t n, size_t& real)
{
  if (n <= 1024) { int c = n ? (int)((n+15)/16) : 1; real = (size_t)c*16; return c-1; }
  int c = 64; size_t r = 2048; while (r < n) { r <<= 1; c++; } real = r; return c;
}
#ifdef SIM_TSAN
// only one simulated thread runs at a time, but the C library does some work of its own when a thread begins and ends
static std::atomic_flag g_arlock = ATOMIC_FLAG_INIT; struct ArLock { ArLock() { while (g_arlock.test_and_set(std::memory_order_acquire)) {} } ~ArLock() { g_arlock.clear(std::memory_order_release); } };
#else
struct ArLock { ArLock() {} };
#endif
static void* arena_alloc(size_t n)
{
  ArLock lock;
  if (!g_ar[0].base) arena_init(0);
  AArena& a = g_ar[g_arsel];
  size_t real; int c = acls(n, real);
  if (!a.fl[c]) {
    int cnt = (a.mode && real <= 1024) ? 16 : 1;
    if (a.cur + (real+16)*cnt > a.end) return nullptr;
    char* first = a.cur; a.cur += (real+16)*cnt;
    int ord[16]; for (int i=0;i<cnt;i++) ord[i]=i;
    if (a.mode) for (int i=cnt-1;i>0;i--) { int j=a.rng.next()%(i+1); int t=ord[i]; ord[i]=ord[j]; ord[j]=t; }
    for (int i=cnt-1;i>=0;i--) {
      AHdr* h = (AHdr*)(first + (real+16)*ord[i]); h->magic = 0; h->cls = c; h->size = 0;
      AArena::FreeNode* f = (AArena::FreeNode*)(h+1); f->next = a.fl[c]; a.fl[c] = f;
    }
  }
  AArena::FreeNode** pp = &a.fl[c];
  if (a.mode) { int k = a.rng.next() % 4; while (k-- && (*pp)->next) pp = &(*pp)->next; }
  AArena::FreeNode* f = *pp; *pp = f->next;
  AHdr* h = ((AHdr*)f)-1; h->magic = AMAGIC; h->size = n;
  a.live += n;
  if (a.mode) memset(f, a.junk ? a.junk + (uint8_t)(n) : 0, real);
  else memset(f, 0xA5, real < 64 ? real : 64);
  return f;
}
static void arena_free(void* p)
{
  if (!p) return;
  AHdr* h = ((AHdr*)p)-1;
  if (h->magic != AMAGIC) {
    if (g_child) { rt_log(R_MISUSE,0,0,"delete of a pointer that is not a live allocation",49); _exit(206); }
    abort();
  }
  ArLock lock;
  int i = ((char*)p >= g_ar[0].base && (char*)p < g_ar[0].end) ? 0 : 1;
  AArena& a = g_ar[i];
  a.live -= h->size; h->magic = 0xdeaddea0;
  size_t real; acls(h->size, real);
  if (a.mode) memset(p, 0xDD, real);
  AArena::FreeNode* f = (AArena::FreeNode*)p; f->next = a.fl[h->cls]; a.fl[h->cls] = f;
}
static void* sim_new(size_t n, bool nothrow)
{
  if (g_child) {
    g_sh->allocs = ++g_newcount;
    if (g_newcount == g_newfail_at || (g_newfail_sticky && g_newcount > g_newfail_at)) {
      if (!g_newfired) { g_newfired = true; rt_log(R_FAULT, F_NEW, 0, "new", 3); }
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
  }
  void* p = arena_alloc(n);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
#ifdef SIM_TSAN
  tsan_heap_new(p, n);
#endif
  return p;
}
static void sim_del(void* p)
{
#ifdef SIM_TSAN
  if (p) tsan_heap_free(p, (((AHdr*)p)-1)->size);
#endif
  arena_free(p);
}
void* operator new(size_t n) { return sim_new(n, false); }
void* operator new[](size_t n) { return sim_new(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void operator delete(void* p) noexcept { sim_del(p); }
void operator delete[](void* p) noexcept { sim_del(p); }
void operator delete(void* p, size_t) noexcept { sim_del(p); }
void operator delete[](void* p, size_t) noexcept { sim_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_del(p); }
uint64_t rt_live_bytes() { struct mallinfo2 m = mallinfo2(); return g_ar[1].live + g_ar[0].live + m.uordblks + m.hblkhd; }
// what earlier calls could have left on the stack
static __attribute__((noinline)) void dirty_stack(uint64_t seed)
{
  volatile char* p = (volatile char*)__builtin_alloca(600000); SplitMix r; r.s = seed; int how = seed ? (int)(r.next() % 4) : 0; uint8_t j = (uint8_t)r.next();
  for (size_t i = 0; i < 600000; i++) p[i] = (char)(how == 0 ? 0 : how == 1 ? 1 : how == 2 ? j : r.next());
}
static void child_alloc_setup(const ProcSpec& sp)
{
  AArena& a = g_ar[1];
  a.mode = sp.alloc_mode; a.rng.s = sp.alloc_seed; a.junk = sp.alloc_seed % 5 == 0 ? 0 : (uint8_t)(sp.alloc_seed * 37 + 11);
#ifdef SIM_STACK
  dirty_stack(sp.alloc_mode ? sp.alloc_seed : 0);
#endif
  if (sp.alloc_mode) mallopt(M_PERTURB, (int)((sp.alloc_seed % 254) + 1));
  for (auto& f : sp.faults) if (f.op == F_NEW) { g_newfail_at = f.pos; g_newfail_sticky = f.sticky; }
  g_newcount = 0;
  g_arsel = 1;
}
static void parent_alloc_setup() { if (!g_ar[0].base) arena_init(0); arena_init(1); }
#else
uint64_t rt_live_bytes() { return 0; }
static void child_alloc_setup(const ProcSpec&) {}
static void parent_alloc_setup() {}
#endif

// ---------------------------------------------------------------------------
// simulated disk, stdin, stdout
// ---------------------------------------------------------------------------
struct SFile {                 // disk file (child side)
  char name[200];
  const char* ro; size_t len;  // current contents
  char* own; size_t cap;
  bool exists; uint32_t id;
};
static SFile g_files[96]; static int g_nfiles;
struct CF { uint32_t code; int op; uint64_t pos; int err; bool sticky; bool fired; char file[200]; };
static CF g_faults[64]; static int g_nfaults;
struct SOpen { SFile* f; uint64_t pos; bool wr; bool used; int rsz; bool isfd; bool eofseen; char name[200]; uint64_t wrote; };
static SOpen g_opens[256];
static int g_rsizes[64]; static int g_nrsizes;
static const char* g_in; static size_t g_inlen, g_inpos; static Chunk g_chunks[4096]; static int g_nchunks, g_ci; static uint64_t g_cdone;
static uint64_t g_outbytes, g_outnuls; static uint64_t g_outpos, g_errpos;
static bool g_memprobe;
static int g_coord_req = -1, g_coord_resp = -1;
static uint64_t g_eofreads;

static bool sim_path(const char* p) { return g_child && p && p[0] && (p[0] != '/' || strncmp(p, "/sim/", 5) == 0); }
static SFile* find_file(const char* p)
{
  while (p[0]=='.' && p[1]=='/') p += 2;
  for (int i=0;i<g_nfiles;i++) if (g_files[i].exists && !strcmp(g_files[i].name, p)) return &g_files[i];
  return nullptr;
}
static CF* fault_hit(const char* file, int op, uint64_t from, uint64_t n, uint64_t* limit)
{
  for (int i=0;i<g_nfaults;i++) {
    CF& c = g_faults[i];
    if (c.op != op || (strcmp(c.file, file) && strcmp(c.file,"*"))) continue;
    if (c.fired && !c.sticky) continue;
    if (c.fired && c.sticky) { if (limit) *limit = 0; return &c; }
    if (op == F_OPEN || op == F_CLOSE) return &c;
    if (c.pos < from + n || (op == F_READ && n == 0)) {
      if (limit) *limit = c.pos > from ? c.pos - from : 0;
      return &c;
    }
  }
  return nullptr;
}
static void fired(CF* c)
{
  c->fired = true;
  char b[300]; int n = snprintf(b, sizeof b, "%c %s %d", c->op, c->file, c->err);
  rt_log(R_FAULT, c->op, c->err, b, n);
}

static ssize_t coord_call(char op, const void* data, size_t n, void* out, size_t outn)
{
  // talk to the pipeline coordinator (one request, one reply)
  uint32_t h[2] = { (uint32_t)op, (uint32_t)n };
  auto wr = [](int fd, const void* p, size_t k) { const char* c=(const char*)p; while (k) { ssize_t r = write(fd,c,k); if (r<=0) _exit(207); c+=r; k-=r; } };
  auto rd = [](int fd, void* p, size_t k) { char* c=(char*)p; while (k) { ssize_t r = read(fd,c,k); if (r<=0) _exit(207); c+=r; k-=r; } };
  wr(g_coord_req, h, 8);
  if (op == 'w') wr(g_coord_req, data, n);
  int32_t r; rd(g_coord_resp, &r, 4);
  if (op == 'r' && r > 0) { if ((size_t)r > outn) _exit(207); rd(g_coord_resp, out, r); }
  return r;
}

static ssize_t in_read(void*, char* buf, size_t n)
{
  if (g_memprobe) { uint64_t l = rt_live_bytes(); rt_log(R_MEM, (uint32_t)(l>>32), (uint32_t)l, nullptr, 0); }
  if (g_coord_req >= 0) {
    ssize_t r = coord_call('r', nullptr, n, buf, n);
    if (r < 0) { errno = (int)-r; return -1; }
    if (r == 0) rt_log(R_SEOF, 0, 0, nullptr, 0); else rt_log(R_SREAD, (uint32_t)n, (uint32_t)r, nullptr, 0);
    return r;
  }
  uint64_t lim = 0;
  size_t avail;
  while (g_ci < g_nchunks && g_cdone >= g_chunks[g_ci].n) { g_ci++; g_cdone = 0; }
  if (g_nchunks == 0) avail = g_inlen - g_inpos;
  else if (g_ci >= g_nchunks) avail = 0;
  else {
    Chunk& c = g_chunks[g_ci];
    if (c.after_replies >= 0 && (uint64_t)c.after_replies > g_outnuls) {
      rt_die(R_DEADLOCK, "tool waits for input while the client waits for a reply", 202);
    }
    avail = c.n - g_cdone;
    if (avail > g_inlen - g_inpos) avail = g_inlen - g_inpos;
  }
  size_t k = avail < n ? avail : n;
  CF* c = fault_hit("<in>", F_READ, g_inpos, k, &lim);
  if (c) {
    if (lim == 0) { if (!c->fired || c->sticky) fired(c); errno = c->err; return -1; }
    k = lim;
  }
  memcpy(buf, g_in + g_inpos, k);
  g_inpos += k; g_cdone += k;
  if (k == 0) { rt_log(R_SEOF, 0, 0, nullptr, 0); if (++g_eofreads > 1000000) rt_die(R_HANG, "reads past end of input forever", 201); }
  else rt_log(R_SREAD, (uint32_t)n, (uint32_t)k, nullptr, 0);
  return (ssize_t)k;
}
static uint64_t g_out_budget;
static ssize_t std_write(void* ck, const char* buf, size_t n)
{
  bool is_err = ck != nullptr;
  const char* nm = is_err ? "<err>" : "<out>";
  uint64_t& pos = is_err ? g_errpos : g_outpos;
  if (!is_err && g_coord_req >= 0) {
    g_outbytes += n;
    if (g_outbytes > g_out_budget) rt_die(R_RUNAWAY, "output without bound", 204);
    ssize_t r = coord_call('w', buf, n, nullptr, 0);
    if (r < 0) { rt_log(R_NOTE, 0, 0, "EPIPE", 5); errno = (int)-r; return 0; }
    rt_log(R_OUT, 0, 0, buf, n);
    return (ssize_t)n;
  }
  size_t k = n;
  CF* cr = fault_hit(nm, F_CRASH, pos, n, nullptr);
  uint64_t lim = 0;
  if (cr) { uint64_t l2 = cr->pos > pos ? cr->pos - pos : 0; rt_log(is_err?R_ERR:R_OUT,0,0,buf,l2); fired(cr); rt_die(R_CRASH, "crash", 205); }
  CF* c = fault_hit(nm, F_WRITE, pos, n, &lim);
  if (c) k = lim < n ? lim : n;
  if (k) rt_log(is_err ? R_ERR : R_OUT, 0, 0, buf, k);
  pos += k;
  if (!is_err) { for (size_t i=0;i<k;i++) if (!buf[i]) g_outnuls++; }
  g_outbytes += n;
  if (g_outbytes > g_out_budget) rt_die(R_RUNAWAY, "output without bound", 204);
  if (c) { fired(c); errno = c->err; return (ssize_t)k; }
  return (ssize_t)n;
}
static int std_close(void* ck)
{
  const char* nm = ck ? "<err>" : "<out>";
  CF* c = fault_hit(nm, F_CLOSE, 0, 0, nullptr);
  if (c) { fired(c); errno = c->err; return -1; }
  return 0;
}

static ssize_t f_read(void* ck, char* buf, size_t n)
{
  SOpen* o = (SOpen*)ck;
  size_t avail = o->pos < o->f->len ? o->f->len - o->pos : 0;
  size_t k = avail < n ? avail : n;
  if (g_nrsizes && k) { int r = g_rsizes[o->rsz++ % g_nrsizes]; if (r > 0 && (size_t)r < k) k = r; }
  uint64_t lim = 0;
  CF* c = fault_hit(o->name, F_READ, o->pos, k, &lim);
  if (c) {
    if (lim == 0) { fired(c); errno = c->err; return -1; }
    if (lim < k) k = lim;
  }
  memcpy(buf, o->f->ro + o->pos, k);
  o->pos += k;
  if (!k && ++g_eofreads > 1000000) rt_die(R_HANG, "reads past end of file forever", 201);
  return (ssize_t)k;
}
static void f_reserve(SFile* f, size_t n)
{
  if (!f->own || f->cap < n) {
    size_t c = f->cap ? f->cap : 4096; while (c < n) c *= 2;
    char* p = (char*)mmap(nullptr, c, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    if (f->len) memcpy(p, f->ro, f->len);
    f->own = p; f->cap = c; f->ro = p;
  }
}
static ssize_t f_write(void* ck, const char* buf, size_t n)
{
  SOpen* o = (SOpen*)ck;
  CF* cr = fault_hit(o->name, F_CRASH, o->pos, n, nullptr);
  size_t k = n; uint64_t lim = 0;
  if (cr) { k = cr->pos > o->pos ? cr->pos - o->pos : 0; rt_log(R_FWRITE, o->f->id, (uint32_t)o->pos, buf, k); fired(cr); rt_die(R_CRASH, "crash", 205); }
  CF* c = fault_hit(o->name, F_WRITE, o->pos, n, &lim);
  if (c && lim < k) k = lim;
  if (o->pos + k > o->f->len) { f_reserve(o->f, o->pos + k); o->f->len = o->pos + k; }
  memcpy(o->f->own + o->pos, buf, k);
  rt_log(R_FWRITE, o->f->id, (uint32_t)o->pos, buf, k);
  o->pos += k;
  g_outbytes += n;
  if (g_outbytes > g_out_budget) rt_die(R_RUNAWAY, "output without bound", 204);
  if (c) { fired(c); errno = c->err; return (ssize_t)k; }
  return (ssize_t)n;
}
static int f_seek(void* ck, off64_t* off, int wh)
{
  SOpen* o = (SOpen*)ck;
  off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)o->pos : (off64_t)o->f->len;
  if (b + *off < 0) { errno = EINVAL; return -1; }
  o->pos = b + *off; *off = o->pos; return 0;
}
static int f_close(void* ck)
{
  SOpen* o = (SOpen*)ck;
  int r = 0;
  if (o->wr) {
    CF* cr = fault_hit(o->name, F_CLOSE, 0, 0, nullptr);
    if (cr) { fired(cr); errno = cr->err; r = -1; }
    rt_log(R_CLOSE, o->f->id, 0, o->name, strlen(o->name));
  }
  o->used = false;
  return r;
}
static SOpen* new_open(const char* path, SFile* f, bool wr)
{
  for (auto& o : g_opens) if (!o.used) {
    memset(&o, 0, sizeof o); o.used = true; o.f = f; o.wr = wr;
    while (path[0]=='.' && path[1]=='/') path += 2;
    snprintf(o.name, sizeof o.name, "%s", path);
    return &o;
  }
  errno = EMFILE; return nullptr;
}
static SFile* create_file(const char* path)
{
  while (path[0]=='.' && path[1]=='/') path += 2;
  SFile* f = find_file(path);
  if (!f) {
    if (g_nfiles >= 96) { errno = ENOSPC; return nullptr; }
    f = &g_files[g_nfiles]; memset(f, 0, sizeof *f); f->id = g_nfiles++; snprintf(f->name, sizeof f->name, "%s", path); f->exists = true; f->ro = "";
  }
  return f;
}
static SOpen* sim_open(const char* path, bool rd, bool wr, bool creat, bool trunc, bool append)
{
  const char* nm = path; while (nm[0]=='.' && nm[1]=='/') nm += 2;
  CF* c = fault_hit(nm, F_OPEN, 0, 0, nullptr);
  if (c) { fired(c); errno = c->err; return nullptr; }
  SFile* f = find_file(nm);
  if (!f && !creat) { errno = ENOENT; return nullptr; }
  if (wr) {
    if (!f) f = create_file(nm);
    if (!f) return nullptr;
    if (trunc) { f->len = 0; f->own = nullptr; f->cap = 0; f->ro = ""; f_reserve(f, 1); }
    else { f_reserve(f, f->len ? f->len : 1); }
    rt_log(R_OPENW, f->id, trunc ? 1 : 0, nm, strlen(nm));
  } else rt_log(R_OPENR, f->id, 0, nm, strlen(nm));
  SOpen* o = new_open(nm, f, wr);
  if (o && append) o->pos = f->len;
  (void)rd;
  return o;
}
FILE* rt_sim_fopen(const char* path, const char* mode)
{
  bool r = strchr(mode,'r'), w = strchr(mode,'w'), a = strchr(mode,'a'), plus = strchr(mode,'+');
  SOpen* o = sim_open(path, r||plus, w||a||plus, w||a, w, a);
  if (!o) return nullptr;
  cookie_io_functions_t io = { (r||plus) ? f_read : nullptr, (w||a||plus) ? f_write : nullptr, f_seek, f_close };
  FILE* fp = fopencookie(o, mode, io);
  return fp;
}
// --- interposed libc entry points -------------------------------------------
template<class F> static F nextsym(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
FILE* fopen(const char* p, const char* m) { if (sim_path(p)) return rt_sim_fopen(p,m); static auto f = nextsym<FILE*(*)(const char*,const char*)>("fopen"); return f(p,m); }
FILE* fopen64(const char* p, const char* m) { if (sim_path(p)) return rt_sim_fopen(p,m); static auto f = nextsym<FILE*(*)(const char*,const char*)>("fopen64"); return f(p,m); }
static const int FDBASE = 5000000;
static int sim_fd_open(const char* p, int fl)
{
  bool wr = (fl & O_ACCMODE) != O_RDONLY;
  SOpen* o = sim_open(p, true, wr, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND);
  if (!o) return -1;
  o->isfd = true; return FDBASE + (int)(o - g_opens);
}
static SOpen* fdo(int fd) { if (!g_child || fd < FDBASE || fd >= FDBASE+256) return nullptr; SOpen* o = &g_opens[fd-FDBASE]; return o->used ? o : nullptr; }
int open(const char* p, int fl, ...) { mode_t m=0; va_list ap; va_start(ap,fl); if (fl&O_CREAT) m=(mode_t)va_arg(ap,int); va_end(ap); if (sim_path(p)) return sim_fd_open(p,fl); static auto f = nextsym<int(*)(const char*,int,...)>("open"); return f(p,fl,m); }
int open64(const char* p, int fl, ...) { mode_t m=0; va_list ap; va_start(ap,fl); if (fl&O_CREAT) m=(mode_t)va_arg(ap,int); va_end(ap); if (sim_path(p)) return sim_fd_open(p,fl); static auto f = nextsym<int(*)(const char*,int,...)>("open64"); return f(p,fl,m); }
ssize_t read(int fd, void* b, size_t n) { if (SOpen* o = fdo(fd)) return f_read(o,(char*)b,n); if (g_child && fd == 0) return in_read(nullptr,(char*)b,n); static auto f = nextsym<ssize_t(*)(int,void*,size_t)>("read"); return f(fd,b,n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd,b,n); }
ssize_t write(int fd, const void* b, size_t n)
{
  if (SOpen* o = fdo(fd)) { errno = 0; ssize_t r = f_write(o,(const char*)b,n); return r == 0 && n && errno ? -1 : r; }
  if (g_child && (fd == 1 || fd == 2)) { errno = 0; ssize_t r = std_write(fd==2?(void*)1:nullptr,(const char*)b,n); return r == 0 && n && errno ? -1 : r; }
  static auto f = nextsym<ssize_t(*)(int,const void*,size_t)>("write"); return f(fd,b,n);
}
int close(int fd) { if (SOpen* o = fdo(fd)) return f_close(o); if (g_child && fd < 3) return 0; static auto f = nextsym<int(*)(int)>("close"); return f(fd); }
off_t lseek(int fd, off_t o, int w) { if (SOpen* s = fdo(fd)) { off64_t x=o; return f_seek(s,&x,w)?-1:(off_t)x; } static auto f = nextsym<off_t(*)(int,off_t,int)>("lseek"); return f(fd,o,w); }
off64_t lseek64(int fd, off64_t o, int w) { if (SOpen* s = fdo(fd)) { off64_t x=o; return f_seek(s,&x,w)?-1:x; } static auto f = nextsym<off64_t(*)(int,off64_t,int)>("lseek64"); return f(fd,o,w); }
static int sim_stat(const char* p, void* st, size_t sz)
{
  SFile* f = find_file(p); if (!f) { errno = ENOENT; return -1; }
  struct stat s; memset(&s,0,sizeof s); s.st_mode = S_IFREG|0644; s.st_size = f->len; s.st_blksize = 4096; s.st_nlink = 1;
  memcpy(st, &s, sz < sizeof s ? sz : sizeof s); return 0;
}
int stat(const char* __restrict p, struct stat* __restrict s) { if (sim_path(p)) return sim_stat(p,s,sizeof *s); static auto f = nextsym<int(*)(const char*,struct stat*)>("stat"); return f(p,s); }
int stat64(const char* __restrict p, struct stat64* __restrict s) { if (sim_path(p)) return sim_stat(p,s,sizeof *s); static auto f = nextsym<int(*)(const char*,struct stat64*)>("stat64"); return f(p,s); }
int lstat(const char* __restrict p, struct stat* __restrict s) { if (sim_path(p)) return sim_stat(p,s,sizeof *s); static auto f = nextsym<int(*)(const char*,struct stat*)>("lstat"); return f(p,s); }
int access(const char* p, int m) { if (sim_path(p)) { if (find_file(p)) return 0; errno = ENOENT; return -1; } static auto f = nextsym<int(*)(const char*,int)>("access"); return f(p,m); }
static int sim_rename(const char* a, const char* b)
{
  SFile* f = find_file(a); if (!f) { errno = ENOENT; return -1; }
  char buf[420]; int n = snprintf(buf,sizeof buf,"%s\n%s",f->name,b); rt_log(R_RENAME, f->id, 0, buf, n);
  SFile* t = find_file(b); if (t) t->exists = false;
  snprintf(f->name,sizeof f->name,"%s",b); return 0;
}
int rename(const char* a, const char* b) { if (sim_path(a)) return sim_rename(a,b); static auto f = nextsym<int(*)(const char*,const char*)>("rename"); return f(a,b); }
static int sim_unlink(const char* a) { SFile* f = find_file(a); if (!f) { errno = ENOENT; return -1; } rt_log(R_UNLINK,f->id,0,f->name,strlen(f->name)); f->exists=false; return 0; }
int unlink(const char* a) { if (sim_path(a)) return sim_unlink(a); static auto f = nextsym<int(*)(const char*)>("unlink"); return f(a); }
int remove(const char* a) { if (sim_path(a)) return sim_unlink(a); static auto f = nextsym<int(*)(const char*)>("remove"); return f(a); }
}

// ---------------------------------------------------------------------------
// running a simulated process
// ---------------------------------------------------------------------------
void rt_note(const std::string& s) { rt_log(R_NOTE, 0, 0, s.data(), s.size()); }
void rt_api_result(const std::string& s) { rt_log(R_API, 0, 0, s.data(), s.size()); }

void rt_init()
{
  parent_alloc_setup();
  for (int i=0;i<NSHARED;i++) {
    g_shared[i] = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (g_shared[i] == MAP_FAILED) { perror("mmap"); _exit(99); }
  }
  if (!g_tools) g_tools = new std::map<std::string, int (*)(int, char**)>();
  g_accum = new std::vector<uint8_t>(COV_CAP, 0);
  struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE, &rl);
}
void rt_fresh_shared()
{ // after forking a worker: give it regions of its own
  for (int i=0;i<NSHARED;i++) {
    g_shared[i] = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (g_shared[i] == MAP_FAILED) { perror("mmap"); _exit(99); }
  }
}
void rt_register_tool(const std::string& n, int (*m)(int, char**)) { if (!g_tools) g_tools = new std::map<std::string, int (*)(int, char**)>(); (*g_tools)[n] = m; }
bool rt_has_tool(const std::string& n) { return g_tools && g_tools->count(n); }

static void child_main(const ProcSpec& sp, const Disk& disk, Shared* sh, int reqfd, int respfd)
{
  g_sh = sh; g_spec = &sp;
  struct rlimit rl = {20, 25}; setrlimit(RLIMIT_CPU, &rl);
  // disk
  g_nfiles = 0;
  for (auto& kv : disk) {
    if (g_nfiles >= 90) break;
    SFile* f = &g_files[g_nfiles]; memset(f, 0, sizeof *f); f->id = g_nfiles++; snprintf(f->name, sizeof f->name, "%s", kv.first.c_str());
    f->ro = kv.second.data(); f->len = kv.second.size(); f->exists = true;
  }
  g_nfaults = 0;
  for (auto& f : sp.faults) { if (g_nfaults >= 64) break; CF& c = g_faults[g_nfaults++]; memset(&c,0,sizeof c); c.op=f.op; c.pos=f.pos; c.err=f.err; c.sticky=f.sticky; snprintf(c.file,sizeof c.file,"%s",f.file.c_str()); }
  g_nrsizes = 0; for (int r : sp.file_read_sizes) if (g_nrsizes < 64) g_rsizes[g_nrsizes++] = r;
  g_in = sp.input.data(); g_inlen = sp.input.size(); g_inpos = 0;
  g_nchunks = 0; g_ci = 0; g_cdone = 0;
  for (auto& c : sp.chunks) if (g_nchunks < 4096) g_chunks[g_nchunks++] = c;
  g_memprobe = sp.mem_probe; g_out_budget = sp.out_budget;
  g_coord_req = reqfd; g_coord_resp = respfd;
  for (auto& e : sp.env) setenv(e.first.c_str(), e.second.c_str(), 1);
  // argv lives in malloc memory
  int argc = (int)sp.args.size() + 1;
  char** argv = (char**)calloc(argc+1, sizeof(char*));
  argv[0] = strdup(sp.tool.c_str());
  for (int i=1;i<argc;i++) argv[i] = strdup(sp.args[i-1].c_str());
  int (*m)(int,char**) = nullptr;
  bool api = sp.tool.rfind("api:",0)==0;
  if (!api) { auto it = g_tools->find(sp.tool); if (it == g_tools->end()) _exit(198); m = it->second; }

  g_child = true;
  cookie_io_functions_t ioi = { in_read, nullptr, nullptr, nullptr };
  cookie_io_functions_t ioo = { nullptr, std_write, nullptr, std_close };
  FILE* si = fopencookie(nullptr, "r", ioi);
  FILE* so = fopencookie(nullptr, "w", ioo);
  FILE* se = fopencookie((void*)1, "w", ioo);
  // buffers are real anonymous memory so that they never move between runs
  char* ib = (char*)malloc(sp.ibuf + 16); char* ob = (char*)malloc(sp.obuf + 16);
  if (sp.ibuf <= 1) setvbuf(si, nullptr, _IONBF, 0); else setvbuf(si, ib, _IOFBF, sp.ibuf);
  setvbuf(so, ob, _IOFBF, sp.obuf < 1 ? 1 : sp.obuf);
  setvbuf(se, nullptr, _IONBF, 0);
  stdin = si; stdout = so; stderr = se;
  auto* ob1 = new __gnu_cxx::stdio_sync_filebuf<char>(stdout);
  auto* ob2 = new __gnu_cxx::stdio_sync_filebuf<char>(stderr);
  auto* ib1 = new __gnu_cxx::stdio_sync_filebuf<char>(stdin);
  std::cout.rdbuf(ob1); std::cerr.rdbuf(ob2); std::clog.rdbuf(ob2); std::cin.rdbuf(ib1);
  std::cout.clear(); std::cerr.clear();
  signal(SIGPIPE, SIG_IGN);
  child_alloc_setup(sp);
  g_cov = sh->cov; g_steps = &sh->steps; g_budget = sp.step_budget + 20000ull * sp.input.size(); for (auto& a : sp.args) if (a == "-e" && g_budget < 2000000000ull) g_budget = 2000000000ull;   // decompounding is slow (exponential), not endless
  { const char* e = getenv("SIM_BUDGET"); if (e) g_budget = strtoull(e,nullptr,10); }
#ifdef SIM_TSAN
  sched_child_begin(sp.sched);
#endif
  int rc;
  if (api) rc = rt_api_hook(sp);
  else rc = m(argc, argv);
#ifdef SIM_TSAN
  sched_child_end();
#endif
  exit(rc);
}

std::string ProcResult::status() const
{
  if (hang) return "hang"; if (runaway) return "runaway"; if (deadlock) return "deadlock"; if (crashed) return "crash";
  if (race) return "race"; if (misuse) return "misuse"; if (infra) return "infra";
  if (exited) return "exit" + std::to_string(code);
  return "sig" + std::to_string(sig);
}

static uint64_t fnv(uint64_t h, const void* d, size_t n) { const uint8_t* p=(const uint8_t*)d; for (size_t i=0;i<n;i++) { h ^= p[i]; h *= 0x100000001b3ull; } return h; }

struct Started { pid_t pid; Shared* sh; int req, resp; };
static Started start(const ProcSpec& spec, const Disk& disk, int slot, bool coord)
{
  Started st; st.sh = g_shared[slot]; st.req = st.resp = -1;
  Shared* sh = st.sh;
  sh->steps = sh->allocs = sh->switches = sh->threads = sh->accesses = sh->syncs = 0; sh->logpos = 0; sh->logfull = 0;
  memset(sh->cov, 0, (g_nguards + 63) & ~63u);
  int a[2] = {-1,-1}, b[2] = {-1,-1};
  if (coord) { if (pipe(a) || pipe(b)) { perror("pipe"); _exit(99); } }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(99); }
  if (pid == 0) {
    if (coord) { close(a[0]); close(b[1]); }
    child_main(spec, disk, sh, coord ? a[1] : -1, coord ? b[0] : -1);
    _exit(199);
  }
  if (coord) { close(a[1]); close(b[0]); st.req = a[0]; st.resp = b[1]; fcntl(st.req,F_SETFD,FD_CLOEXEC); }
  st.pid = pid;
  return st;
}
static ProcResult finish(const Started& st, const Disk& disk)
{
  int ws = 0;
  while (waitpid(st.pid, &ws, 0) < 0) { if (errno != EINTR) { perror("waitpid"); _exit(99); } }
  Shared* sh = st.sh;
  ProcResult r;
  r.steps = sh->steps; r.allocs = sh->allocs; r.switches = sh->switches; r.threads = sh->threads; r.accesses = sh->accesses; r.syncs = sh->syncs;
  if (WIFEXITED(ws)) { r.exited = true; r.code = WEXITSTATUS(ws); } else if (WIFSIGNALED(ws)) r.sig = WTERMSIG(ws);
  r.disk = disk;
  std::map<uint32_t,std::string> idname; { uint32_t i=0; for (auto& kv : disk) idname[i++] = kv.first; }
  size_t p = 0, end = sh->logpos; if (end > LOG_CAP) end = LOG_CAP;
  uint64_t h = 0xcbf29ce484222325ull;
  while (p + 13 <= end) {
    Rec q; uint32_t n; q.type = sh->log[p]; memcpy(&q.a, sh->log+p+1, 4); memcpy(&q.b, sh->log+p+5, 4); memcpy(&n, sh->log+p+9, 4);
    q.data.assign((char*)sh->log+p+13, n); if (q.type != R_MEM) h = fnv(h, sh->log+p, 13+n); p += 13 + n; // absolute heap sizes are an observation, not part of the history
    switch (q.type) {
      case R_OUT: r.out += q.data; break;
      case R_ERR: r.err += q.data; break;
      case R_OPENW: { r.opened_w.insert(q.data); idname[q.a] = q.data; Bytes& f = r.disk[q.data]; if (q.b) f.clear(); break; }
      case R_FWRITE: { Bytes& f = r.disk[idname[q.a]]; if (f.size() < q.b + q.data.size()) f.resize(q.b + q.data.size()); memcpy(&f[0] + q.b, q.data.data(), q.data.size()); break; }
      case R_RENAME: { size_t k = q.data.find('\n'); std::string a = q.data.substr(0,k), b = q.data.substr(k+1); r.disk[b] = r.disk[a]; r.disk.erase(a); idname[q.a] = b; r.opened_w.insert(b); break; }
      case R_UNLINK: r.disk.erase(q.data); break;
      case R_FAULT: r.fired[q.data]++; break;
      case R_HANG: r.hang = true; break;
      case R_RUNAWAY: r.runaway = true; break;
      case R_DEADLOCK: r.deadlock = true; break;
      case R_CRASH: r.crashed = true; break;
      case R_RACE: r.race = true; r.race_text += q.data + "\n"; break;
      case R_MISUSE: r.misuse = true; r.race_text += q.data + "\n"; break;
      case R_MEM: r.mem.push_back(((uint64_t)q.a << 32) | q.b); break;
      case R_NOTE: r.notes.push_back(q.data); break;
      case R_API: r.api.push_back(q.data); break;
      default: break;
    }
    if (q.type != R_MEM) r.log.push_back(std::move(q));
  }
  if (sh->logfull || (r.exited && (r.code == 207 || r.code == 198 || r.code == 199))) r.infra = true;
  if (r.sig == SIGXCPU || r.sig == SIGKILL) { if (r.sig == SIGXCPU) r.hang = true; else r.infra = true; }
  r.loghash = fnv(h, r.status().data(), r.status().size());
  uint64_t ch = 0xcbf29ce484222325ull; ch = fnv(ch, sh->cov, g_nguards);
  r.covhash = ch;
  for (uint32_t i=0;i<g_nguards;i++) (*g_accum)[i] |= sh->cov[i];
  return r;
}
ProcResult rt_run(const ProcSpec& spec, const Disk& disk)
{
  Started st = start(spec, disk, 0, false);
  return finish(st, disk);
}

// ---------------------------------------------------------------------------
// pipelines: several simulated processes joined by bounded pipes.  Exactly one
// process runs at a time; who runs next is decided here, from the seed.
// ---------------------------------------------------------------------------
static bool rdall(int fd, void* p, size_t k) { char* c=(char*)p; while (k) { ssize_t r = read(fd,c,k); if (r<0 && errno==EINTR) continue; if (r<=0) return false; c+=r; k-=r; } return true; }
static bool wrall(int fd, const void* p, size_t k) { const char* c=(const char*)p; while (k) { ssize_t r = write(fd,c,k); if (r<0 && errno==EINTR) continue; if (r<=0) return false; c+=r; k-=r; } return true; }

PipeResult rt_pipeline(const PipeSpec& ps, const Disk& disk)
{
  PipeResult out;
  int n = (int)ps.stages.size();
  signal(SIGPIPE, SIG_IGN);
  struct St { Started s; bool alive=true; char want=0; uint32_t nwant=0; Bytes wbuf; size_t woff=0; } ;
  std::vector<St> st(n);
  std::vector<Bytes> pipebuf(n+1);           // pipebuf[i]: input of stage i; [n]: final sink
  std::vector<bool> weof(n+1,false), rdead(n+1,false);
  Bytes srcq = ps.input; size_t srcpos = 0;
  std::vector<Chunk> chunks = ps.chunks; size_t ci = 0; uint64_t cd = 0;
  uint64_t nuls = 0;
  SplitMix rng{ps.seed};
  auto fetch = [&](int i) {                   // let stage i run until its next request
    uint32_t h[2];
    if (!rdall(st[i].s.req, h, 8)) { st[i].alive = false; st[i].want = 0; return; }
    st[i].want = (char)h[0]; st[i].nwant = h[1];
    if (st[i].want == 'w') { st[i].wbuf.resize(h[1]); st[i].woff = 0; if (!rdall(st[i].s.req, &st[i].wbuf[0], h[1])) { st[i].alive=false; st[i].want=0; } }
  };
  for (int i=0;i<n;i++) { st[i].s = start(ps.stages[i], disk, i, true); fetch(i); if (!st[i].alive) { weof[i+1] = true; rdead[i] = true; } }
  uint64_t events = 0;
  auto reply = [&](int i, int32_t r, const char* d) { wrall(st[i].s.resp, &r, 4); if (r > 0 && d) wrall(st[i].s.resp, d, r); fetch(i); if (!st[i].alive) { weof[i+1]=true; rdead[i]=true; } };
  bool sinkdead = false;
  while (true) {
    // collect enabled actions
    std::vector<std::pair<int,int>> acts;    // (kind, stage)
    // source delivers
    if (srcpos < srcq.size() && !rdead[0]) {
      while (ci < chunks.size() && cd >= chunks[ci].n) { ci++; cd = 0; }
      bool gate = true; if (ci < chunks.size() && chunks[ci].after_replies >= 0) gate = nuls >= (uint64_t)chunks[ci].after_replies;
      if (gate && pipebuf[0].size() < (size_t)ps.pipe_cap) acts.push_back({0,0});
    } else if (!weof[0]) weof[0] = true;
    for (int i=0;i<n;i++) if (st[i].alive) {
      if (st[i].want == 'r' && (!pipebuf[i].empty() || weof[i])) acts.push_back({1,i});
      if (st[i].want == 'w' && (rdead[i+1] || pipebuf[i+1].size() < (size_t)ps.pipe_cap)) acts.push_back({2,i});
    }
    if (!pipebuf[n].empty() && !sinkdead) acts.push_back({3,n});
    if (ps.kill_stage >= 0 && !out.killed && events >= ps.kill_at) {
      out.killed = true;
      if (ps.kill_stage >= n) { sinkdead = true; rdead[n] = true; pipebuf[n].clear(); out.trace += "K" + std::to_string(n) + " "; }
      else if (st[ps.kill_stage].alive) {
        int k = ps.kill_stage; kill(st[k].s.pid, SIGKILL); st[k].alive = false; st[k].want = 0; weof[k+1] = true; rdead[k] = true; out.trace += "K" + std::to_string(k) + " ";
      }
      continue;
    }
    if (acts.empty()) break;
    if (++events > ps.max_events) { out.stuck = true; break; }
    auto act = acts[rng.next() % acts.size()];
    int i = act.second;
    out.trace += "SRWD"[act.first]; out.trace += (char)('0'+i); out.trace += ' ';
    switch (act.first) {
      case 0: {
        size_t room = ps.pipe_cap - pipebuf[0].size();
        size_t k = srcq.size() - srcpos; if (ci < chunks.size()) k = std::min<size_t>(k, chunks[ci].n - cd);
        k = std::min(k, room); size_t lim = 1 + rng.next() % (size_t)ps.pipe_cap; k = std::min(k, lim);
        pipebuf[0].append(srcq, srcpos, k); srcpos += k; cd += k; break; }
      case 1: {
        if (pipebuf[i].empty()) { reply(i, 0, nullptr); break; }
        size_t k = std::min<size_t>(pipebuf[i].size(), st[i].nwant); size_t lim = 1 + rng.next() % k; k = std::min(k, lim);
        Bytes d = pipebuf[i].substr(0,k); pipebuf[i].erase(0,k); reply(i, (int32_t)k, d.data()); break; }
      case 2: {
        if (rdead[i+1]) { out.epipes++; reply(i, -EPIPE, nullptr); break; }
        size_t room = ps.pipe_cap - pipebuf[i+1].size();
        size_t k = std::min(room, st[i].wbuf.size() - st[i].woff);
        pipebuf[i+1].append(st[i].wbuf, st[i].woff, k); st[i].woff += k;
        if (st[i].woff >= st[i].wbuf.size()) reply(i, (int32_t)st[i].wbuf.size(), nullptr);   // data not echoed
        break; }
      case 3: {
        size_t k = 1 + rng.next() % pipebuf[n].size();
        for (size_t j=0;j<k;j++) if (!pipebuf[n][j]) nuls++;
        out.out.append(pipebuf[n],0,k); pipebuf[n].erase(0,k); break; }
    }
  }
  out.events = events;
  for (int i=0;i<n;i++) if (st[i].alive) { out.stuck = true; out.blocked += std::to_string(i) + st[i].want + " "; kill(st[i].s.pid, SIGKILL); }
  for (int i=0;i<n;i++) { close(st[i].s.req); close(st[i].s.resp); out.res.push_back(finish(st[i].s, disk)); if (out.res.back().sig == SIGKILL) out.res.back().infra = false; }
  return out;
}

#ifdef SIM_ASAN
// what a sanitizer says becomes part of the history, without addresses and process numbers
extern "C" void __sanitizer_on_print(const char* s)
{
  if (!rt_in_child()) return;
  static thread_local bool busy = false; if (busy) return; busy = true;
  const char* p = s;
  while (*p) {
    const char* e = strchr(p, '\n'); size_t n = e ? (size_t)(e-p) : strlen(p);
    char b[400]; size_t k = 0; bool keep = memmem(p, n, "ERROR: ", 7) || memmem(p, n, "runtime error", 13) || memmem(p, n, "SUMMARY", 7) || memmem(p, n, " #0 ", 4) || memmem(p, n, " #1 ", 4) || memmem(p, n, " #2 ", 4) || memmem(p, n, " #3 ", 4);
    if (keep) {
      for (size_t i=0;i<n && k<390;i++) {
        if (p[i]=='=' && i+1<n && p[i+1]=='=') { size_t j=i+2; while (j<n && isdigit((unsigned char)p[j])) j++; if (j+1<n && p[j]=='=' && p[j+1]=='=') { i=j+1; continue; } }
        if (p[i]=='0' && i+1<n && p[i+1]=='x') { size_t j=i+2; while (j<n && isxdigit((unsigned char)p[j])) j++; b[k++]='?'; i=j-1; continue; }
        b[k++]=p[i];
      }
      b[k++]='\n'; rt_log(R_ERR, 0, 0, b, k);
    }
    if (!e) break; p = e+1;
  }
  busy = false;
}
#endif
