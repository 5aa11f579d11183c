// The runtime behind sched.hpp: fibers, interposed pthread primitives, the ThreadSanitizer instrumentation hooks with a
// vector-clock data race detector, and deferred frees.  Nothing here uses library templates: instrumented copies of
// them would call back into this file.
#include "sched.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void * __libc_malloc(size_t);
void __libc_free(void *);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
void * __libc_memalign(size_t, size_t);
extern char __libc_single_threaded;
struct hx_eh_globals {void * caught; unsigned uncaught;};
hx_eh_globals * hx_eh(void) __asm__("__cxa_get_globals");
void hx_switch(void ** save, void * to);
}
__asm__(
  ".text\n.globl hx_switch\n.type hx_switch,@function\nhx_switch:\n"
  "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
  "  movq %rsp, (%rdi)\n  movq %rsi, %rsp\n"
  "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
  ".size hx_switch,.-hx_switch\n");

namespace
{
using sched::MAXT;
constexpr size_t STK = 512 * 1024;
enum Pend {RUN, P_POINT, P_LOCK, P_RD, P_WR, P_COND, P_TCOND, P_JOIN, P_FLAG, P_ANY, P_SEM, P_YIELD, P_SPIN, DONE};
struct VC {uint32_t c[MAXT];};
struct Sync
{
  uintptr_t key; uint32_t stamp;
  int owner, count, readers; int rd[MAXT];
  int value;                     // semaphores
  VC vc, rvc;
};
struct Fiber
{
  void * sp; char * stack; void (*fn)(void *); void * arg; void * (*pfn)(void *); void * pret;
  Pend pend; Sync * s; Sync * s2; const volatile int * flag; int join; bool signaled, timedout, track; VC vc;
  hx_eh_globals eh; int err; bool detached;
  void (*hook)(void *); void * hook_arg;
  // the last atomic operation that changed nothing: repeating it is a spin, which waits for another value
  const volatile void * sp_addr; void * sp_pc; uint64_t sp_val; int sp_size; bool spin, idle;
};
Fiber F[MAXT];
int NF = 1, cur = 0;
bool running = false, races_on = false, startup = false;
void * main_sp;
const int * pre; int npre, pbound, preempts;
sched::Choice tr[sched::MAXSTEP]; int ntr;
uint64_t npoints; int alone, last_run;
bool pre_bad;
char errbuf[2048]; bool has_err;
char racebuf[2048]; bool has_race;
uint32_t stamp = 1;

constexpr unsigned NSYNC = 4096;
Sync syncs[NSYNC];
Sync * sync_of(const void * p)
{
  uintptr_t k = reinterpret_cast<uintptr_t>(p);
  unsigned h = static_cast<unsigned>((k >> 3) * 2654435761u) % NSYNC;
  for (unsigned i = 0; i < NSYNC; ++i, h = (h + 1) % NSYNC) {
    Sync & s = syncs[h];
    if (s.stamp == stamp) {if (s.key == k) {return &s;} continue;}
    memset(&s, 0, sizeof s); s.key = k; s.stamp = stamp; s.owner = -1; return &s;
  }
  fprintf(stderr, "sched: too many synchronization objects\n"); _exit(3);
}
void vjoin(VC & a, const VC & b) {for (int i = 0; i < MAXT; ++i) {if (b.c[i] > a.c[i]) {a.c[i] = b.c[i];}}}
void acquire(VC & from) {vjoin(F[cur].vc, from);}
void release(VC & to) {vjoin(to, F[cur].vc); F[cur].vc.c[cur]++;}

void fail(const char * f, ...) __attribute__((format(printf, 1, 2)));
void fail(const char * f, ...)
{
  if (has_err) {return;}
  va_list a; va_start(a, f); vsnprintf(errbuf, sizeof errbuf, f, a); va_end(a); has_err = true;
}

// ------------------------------------------------------------- scheduling
uint64_t peek(const volatile void * p, int n)
{
  switch (n) {
    case 1: return *static_cast<const volatile uint8_t *>(p);
    case 2: return *static_cast<const volatile uint16_t *>(p);
    case 4: return *static_cast<const volatile uint32_t *>(p);
    default: return *static_cast<const volatile uint64_t *>(p);
  }
}
// (threads that yield or spin go last; see reschedule)
bool passive(int t) {return (F[t].pend == P_YIELD || F[t].pend == P_SPIN) && !F[t].idle;}
bool enabled(int t)
{
  Fiber & f = F[t];
  switch (f.pend) {
    case P_YIELD: return f.idle;
    case P_SPIN: return f.idle || peek(f.sp_addr, f.sp_size) != f.sp_val;
    case RUN: case P_POINT: case P_ANY: return true;
    case P_LOCK: case P_WR: return f.s->owner < 0 && f.s->readers == 0;
    case P_RD: return f.s->owner < 0;
    case P_COND: return f.signaled && f.s->owner < 0;
    case P_TCOND: return f.s->owner < 0;
    case P_JOIN: return F[f.join].pend == DONE;
    case P_FLAG: return *f.flag != 0;
    case P_SEM: return f.s->value > 0;
    case DONE: return false;
  }
  return false;
}
const char * pname(Pend p)
{
  static const char * n[] = {"running", "point", "mutex", "read lock", "write lock", "condition", "timed condition", "join", "harness flag", "lock", "semaphore", "others (yield)", "an atomic variable", "done"};
  return n[p];
}
// thread-local variables of the executable: one OS thread runs all fibers, so its block is swapped on every switch
char * tls, * tls_store; const char * tls_image; size_t tls_size, tls_file; bool tls_known;
int tls_find(struct dl_phdr_info * i, size_t, void *)
{
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    const auto & h = i->dlpi_phdr[k];
    if (h.p_type == PT_TLS) {
      tls = static_cast<char *>(i->dlpi_tls_data); tls_size = h.p_memsz; tls_file = h.p_filesz; tls_image = reinterpret_cast<const char *>(i->dlpi_addr + h.p_vaddr);
    }
  }
  return 1;   // the first object is the executable
}
void tls_init()
{
  if (tls_known) {return;}
  tls_known = true; dl_iterate_phdr(tls_find, nullptr);
  if (!tls) {tls_size = 0; return;}
  tls_store = static_cast<char *>(mmap(nullptr, tls_size * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (tls_store == MAP_FAILED) {_exit(3);}
}
void copy_bytes(void * d, const void * s, size_t n) {__asm__ volatile ("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");}
void tls_fresh(int t)
{
  char * d = tls_store + tls_size * static_cast<size_t>(t); copy_bytes(d, tls_image, tls_file);
  for (size_t i = tls_file; i < tls_size; ++i) {static_cast<volatile char *>(d)[i] = 0;}
}
struct Dtor {void (*fn)(void *); void * obj;};
constexpr int NDTOR = 256;
Dtor dtors[MAXT][NDTOR]; int ndtor[MAXT];
void save_tls(Fiber & f) {f.err = errno; f.eh = *hx_eh(); if (tls_size) {copy_bytes(tls_store + tls_size * static_cast<size_t>(&f - F), tls, tls_size);}}
void load_tls(Fiber & f) {errno = f.err; *hx_eh() = f.eh; if (tls_size) {copy_bytes(tls, tls_store + tls_size * static_cast<size_t>(&f - F), tls_size);}}
void to_main() {Fiber & f = F[cur]; save_tls(f); cur = 0; load_tls(F[0]); hx_switch(&f.sp, main_sp);}
void to_fiber(int t)
{
  Fiber & o = F[cur]; save_tls(o); int from = cur; cur = t; load_tls(F[t]);
  if (from == 0) {hx_switch(&main_sp, F[t].sp);} else {hx_switch(&o.sp, F[t].sp);}
}
// The current thread has set its pending operation.  Chooses who goes on.
void reschedule()
{
  if (startup) {to_main(); return;}
  // whoever yielded may go on once another thread has run, or when nobody else can; so may whoever spins, in that case
  for (int t = 1; t < NF; ++t) {if (t != cur && F[t].pend == P_YIELD) {F[t].idle = true;}}
  {
    bool any = false; for (int t = 1; t < NF; ++t) {any = any || enabled(t);}
    if (!any) {for (int t = 1; t < NF; ++t) {if (passive(t)) {F[t].idle = true;}}}
  }
  int list[MAXT], n = 0; bool ce = cur > 0 && enabled(cur);
  if (ce) {list[n++] = cur;}
  for (int t = 1; t < NF; ++t) {if (t != cur && enabled(t)) {list[n++] = t;}}
  npoints++;
  // a thread that keeps running for long (a spin lock, say) lets the others go first
  alone = ce && cur == last_run ? alone + 1 : 0; last_run = cur;
  if (ce && n > 1 && alone > 300) {list[0] = list[n - 1]; list[n - 1] = cur; alone = 0;}
  if (n == 0 || has_err) {to_main(); return;}
  int c = 0, lim = (ce && pbound >= 0 && preempts >= pbound) ? 1 : n;
  if (lim > 1) {
    if (ntr >= sched::MAXSTEP) {fail("execution does not end: more than %d scheduling decisions", sched::MAXSTEP); to_main(); return;}
    if (ntr < npre) {c = pre[ntr]; if (c < 0 || c >= lim) {pre_bad = true; c = 0;}}
    tr[ntr].n = static_cast<uint8_t>(lim); tr[ntr].c = static_cast<uint8_t>(c); tr[ntr].cur_enabled = ce; ntr++;
    if (ce && c) {preempts++;}
  } else if (npoints > sched::MAXSTEP * 5) {fail("execution does not end: only one thread keeps running"); to_main(); return;}
  int t = list[c];
  if (t != cur) {to_fiber(t);}
}
void resumed()
{
  Fiber & f = F[cur];
  if (f.hook) {auto h = f.hook; bool tk = f.track; f.track = false; f.hook = nullptr; h(f.hook_arg); f.track = tk;}
}
void block(Pend p)
{
  F[cur].pend = p; F[cur].idle = false; if (p != P_POINT && p != P_YIELD && p != P_SPIN) {F[cur].sp_addr = nullptr;}
  reschedule(); F[cur].pend = RUN; resumed();
}
void fiber_main()
{
  Fiber & f = F[cur];
  if (f.pfn) {f.pret = f.pfn(f.arg);} else {f.fn(f.arg);}
  while (ndtor[cur] > 0) {Dtor d = dtors[cur][--ndtor[cur]]; d.fn(d.obj);}   // thread-local objects
  F[cur].track = false;
  F[cur].pend = DONE;
  reschedule();
  fprintf(stderr, "sched: finished thread resumed\n"); _exit(3);
}
extern "C" void hx_entry(void);
__asm__(".text\n.globl hx_entry\n.type hx_entry,@function\nhx_entry:\n  xorl %ebp, %ebp\n  subq $8, %rsp\n  callq *%rbx\n  hlt\n.size hx_entry,.-hx_entry\n");
char * stacks;
int make_fiber()
{
  if (NF >= MAXT) {fprintf(stderr, "sched: too many threads\n"); _exit(3);}
  if (!stacks) {
    stacks = static_cast<char *>(mmap(nullptr, STK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (stacks == MAP_FAILED) {_exit(3);}
    for (int i = 0; i < MAXT; ++i) {mprotect(stacks + STK * static_cast<size_t>(i), 4096, PROT_NONE);}
  }
  int t = NF++; Fiber & f = F[t]; memset(&f, 0, sizeof f);
  f.stack = stacks + STK * static_cast<size_t>(t);
  void ** sp = reinterpret_cast<void **>(f.stack + STK - 64);
  *--sp = nullptr; *--sp = reinterpret_cast<void *>(hx_entry); *--sp = nullptr;                      // return address, rbp
  *--sp = reinterpret_cast<void *>(fiber_main);                                                      // rbx
  *--sp = nullptr; *--sp = nullptr; *--sp = nullptr; *--sp = nullptr;                                // r12-r15
  f.sp = sp; f.pend = P_POINT;
  f.vc = F[cur].vc; F[cur].vc.c[cur]++; f.vc.c[t] = 1;
  tls_init(); ndtor[t] = 0; if (tls_size) {tls_fresh(t);}
  return t;
}

// ------------------------------------------------------------- shadow memory
struct Cell
{
  uintptr_t key; uint32_t stamp; uint8_t wmask, wtid, freed; uint32_t wclk; void * wpc;
  uint8_t rmask[MAXT]; uint32_t rclk[MAXT]; void * rpc[MAXT];
};
constexpr unsigned NCELL = 1u << 17;
Cell * cells; unsigned used;
Cell * cell(uintptr_t k)
{
  if (!cells) {
    cells = static_cast<Cell *>(mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (cells == MAP_FAILED) {_exit(3);}
  }
  unsigned h = static_cast<unsigned>((k * 0x9e3779b97f4a7c15ull) >> 40) % NCELL;
  for (;; h = (h + 1) % NCELL) {
    Cell & c = cells[h];
    if (c.stamp == stamp) {if (c.key == k) {return &c;} continue;}
    if (++used > NCELL * 3 / 4) {fprintf(stderr, "sched: shadow memory full\n"); _exit(3);}
    c.key = k; c.stamp = stamp; c.wmask = c.wtid = c.freed = 0; memset(c.rmask, 0, sizeof c.rmask); return &c;
  }
}
const char * sym(void * pc, char * b, size_t n)
{
  Dl_info i;
  if (dladdr(pc, &i) && i.dli_sname) {
    int st; char * d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    snprintf(b, n, "%.160s", d ? d : i.dli_sname); __libc_free(d);
  } else {snprintf(b, n, "%p", pc);}
  return b;
}
void report(const char * what, uintptr_t a, int t1, void * p1, int t2, void * p2)
{
  if (has_race) {return;}
  has_race = true; char x[200], y[200]; bool tk = F[cur].track; F[cur].track = false;
  snprintf(racebuf, sizeof racebuf, "%s at %#lx: thread %d in %s, thread %d in %s", what, static_cast<unsigned long>(a), t1, sym(p1, x, sizeof x), t2, sym(p2, y, sizeof y));
  F[cur].track = tk;
}
inline void access1(uintptr_t g, uint8_t mask, bool wr, void * pc)
{
  Cell * c = cell(g); Fiber & f = F[cur];
  if (c->freed && (c->wmask & mask)) {report("use of freed memory", g << 3, c->wtid, c->wpc, cur, pc); return;}
  if ((c->wmask & mask) && c->wtid != cur && c->wclk > f.vc.c[c->wtid]) {report(wr ? "write/write data race" : "write/read data race", g << 3, c->wtid, c->wpc, cur, pc);}
  if (wr) {
    for (int t = 1; t < NF; ++t) {
      if (t != cur && (c->rmask[t] & mask) && c->rclk[t] > f.vc.c[t]) {report("read/write data race", g << 3, t, c->rpc[t], cur, pc);}
    }
    if (c->wtid == cur && c->wclk == f.vc.c[cur]) {c->wmask |= mask;} else {c->wmask = mask;}
    c->wtid = static_cast<uint8_t>(cur); c->wclk = f.vc.c[cur]; c->wpc = pc;
  } else {
    if (c->rclk[cur] == f.vc.c[cur]) {c->rmask[cur] |= mask;} else {c->rmask[cur] = mask;}
    c->rclk[cur] = f.vc.c[cur]; c->rpc[cur] = pc;
  }
}
bool busy;   // inside the detector: calls it makes itself are not accesses of the program
inline bool watching() {return running && races_on && cur && F[cur].track && !has_race && !busy;}
void access(const void * p, size_t n, bool wr, void * pc)
{
  if (!watching() || !n) {return;}
  uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + n;
  Fiber & f = F[cur];
  if (a >= reinterpret_cast<uintptr_t>(f.stack) && a < reinterpret_cast<uintptr_t>(f.stack) + STK) {return;}
  if (tls && a >= reinterpret_cast<uintptr_t>(tls) && a < reinterpret_cast<uintptr_t>(tls) + tls_size) {return;}
  busy = true;
  for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; ++g) {
    unsigned lo = g == a >> 3 ? a & 7 : 0, hi = g == (e - 1) >> 3 ? (e - 1) & 7 : 7;
    access1(g, static_cast<uint8_t>(((1u << (hi - lo + 1)) - 1) << lo), wr, pc);
  }
  busy = false;
}
// deferred frees: memory released during an execution is not reused in it
constexpr unsigned NDEF = 1u << 18;
void ** deferred; unsigned ndef;
void do_free(void * p, void * pc)
{
  if (!p) {return;}
  if (!running || cur == 0) {__libc_free(p); return;}
  if (watching()) {
    size_t n = malloc_usable_size(p);
    access(p, n, true, pc);
    for (uintptr_t g = reinterpret_cast<uintptr_t>(p) >> 3; g < (reinterpret_cast<uintptr_t>(p) + n) >> 3; ++g) {Cell * c = cell(g); c->freed = 1;}
  }
  if (!deferred) {deferred = static_cast<void **>(mmap(nullptr, sizeof(void *) * NDEF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));}
  if (ndef < NDEF) {deferred[ndef++] = p;}   // else leaked
}

int lock_op(Sync * s, pthread_mutex_t * m, Pend timed)
{
  int kind = m->__data.__kind & 3;
  if (s->owner == cur && kind == PTHREAD_MUTEX_RECURSIVE) {s->count++; return 0;}
  if (s->owner == cur && kind == PTHREAD_MUTEX_ERRORCHECK) {return EDEADLK;}
  F[cur].s = s;
  block(timed);
  if (s->owner >= 0 || s->readers) {return timed == P_ANY ? ETIMEDOUT : EBUSY;}
  s->owner = cur; s->count = 1; acquire(s->vc);
  return 0;
}
bool in_thread() {return running && cur > 0;}
template<class T> T real(const char * n) {return reinterpret_cast<T>(dlsym(RTLD_NEXT, n));}
}  // namespace

namespace sched
{
void begin(const int * prefix, int n, int bound, bool races)
{
  __libc_single_threaded = 0;
  stamp++; used = 0; NF = 1; cur = 0; ntr = 0; npre = n; pre = prefix; pbound = bound; preempts = 0; npoints = 0; alone = last_run = 0; pre_bad = false;
  has_err = has_race = false; races_on = races;
  memset(&F[0], 0, sizeof F[0]); F[0].vc.c[0] = 1;
}
int spawn(void (*fn)(void *), void * arg) {int t = make_fiber(); F[t].fn = fn; F[t].arg = arg; return t;}
const char * run()
{
  running = true;
  // every thread runs up to its first scheduling point; the exploration starts there
  startup = true;
  for (int t = 1, n = NF; t < n; ++t) {to_fiber(t);}
  startup = false;
  reschedule();   // returns when nothing is enabled any more
  bool all = true; int stuck = 0;
  for (int t = 1; t < NF; ++t) {if (F[t].pend != DONE) {all = false; stuck++;}}
  if (!all && !has_err) {
    char b[1024]; size_t k = 0; b[0] = 0;
    for (int t = 1; t < NF; ++t) {
      if (F[t].pend == DONE) {continue;}
      int n = snprintf(b + k, sizeof b - k, " thread %d waits for %s", t, pname(F[t].pend));
      if (n > 0) {k += static_cast<size_t>(n);}
      if ((F[t].pend == P_LOCK || F[t].pend == P_WR || F[t].pend == P_RD) && k < sizeof b) {n = snprintf(b + k, sizeof b - k, " held by thread %d", F[t].s->owner); if (n > 0) {k += static_cast<size_t>(n);}}
      if (k < sizeof b) {n = snprintf(b + k, sizeof b - k, ";"); if (n > 0) {k += static_cast<size_t>(n);}}
    }
    fail("deadlock:%s", b);
  }
  running = false; (void)stuck;
  for (int t = 1; t < NF; ++t) {vjoin(F[0].vc, F[t].vc);}
  return has_err ? errbuf : nullptr;
}
const char * race() {return has_race ? racebuf : nullptr;}
int ntrace() {return ntr;}
const Choice * trace() {return tr;}
bool prefix_ok() {return !pre_bad;}
void finish() {for (unsigned i = 0; i < ndef; ++i) {__libc_free(deferred[i]);} ndef = 0;}
void point() {if (in_thread()) {block(P_POINT);}}
void wait_for(const volatile int * flag) {if (in_thread()) {F[cur].flag = flag; block(P_FLAG);}}
int self() {return running ? cur : 0;}
void track(bool on) {if (in_thread()) {F[cur].track = on;}}
bool tracking() {return in_thread() && F[cur].track;}
void on_next_resume(void (*fn)(void *), void * arg) {if (in_thread()) {F[cur].hook = fn; F[cur].hook_arg = arg;} else {fn(arg);}}
uint64_t points() {return npoints;}
}  // namespace sched

// ------------------------------------------------------------- interposed primitives
extern "C" {
int pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a)
{
  memset(m, 0, sizeof *m); if (a) {int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k;}
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t * m)
{
  if (in_thread()) {Sync * s = sync_of(m); if (s->owner >= 0) {fail("a locked mutex is destroyed");}}
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t * m)
{
  Sync * s = sync_of(m);
  if (!in_thread()) {s->owner = 0; s->count++; vjoin(F[0].vc, s->vc); return 0;}
  return lock_op(s, m, P_LOCK);
}
int pthread_mutex_trylock(pthread_mutex_t * m)
{
  Sync * s = sync_of(m);
  if (!in_thread()) {s->owner = 0; s->count++; return 0;}
  int kind = m->__data.__kind & 3;
  if (s->owner == cur && kind == PTHREAD_MUTEX_RECURSIVE) {s->count++; return 0;}
  block(P_POINT);
  if (s->owner >= 0 || s->readers) {return EBUSY;}
  s->owner = cur; s->count = 1; acquire(s->vc); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec *)
{
  if (!in_thread()) {return pthread_mutex_lock(m);}
  return lock_op(sync_of(m), m, P_ANY);
}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t, const struct timespec * t) {return pthread_mutex_timedlock(m, t);}
int pthread_mutex_unlock(pthread_mutex_t * m)
{
  Sync * s = sync_of(m);
  if (!in_thread()) {if (s->count > 0) {s->count--;} if (!s->count) {s->owner = -1;} return 0;}
  if (s->owner != cur) {fail("thread %d unlocks a mutex it does not hold", cur); return EPERM;}
  if (--s->count == 0) {s->owner = -1; release(s->vc);}
  return 0;
}
int pthread_spin_init(pthread_spinlock_t *, int) {return 0;}
int pthread_spin_destroy(pthread_spinlock_t *) {return 0;}
int pthread_spin_lock(pthread_spinlock_t * l)
{
  Sync * s = sync_of(const_cast<int *>(l));
  if (!in_thread()) {s->owner = 0; return 0;}
  F[cur].s = s; block(P_LOCK); s->owner = cur; acquire(s->vc); return 0;
}
int pthread_spin_unlock(pthread_spinlock_t * l)
{
  Sync * s = sync_of(const_cast<int *>(l)); s->owner = -1; if (in_thread()) {release(s->vc);} return 0;
}
int pthread_rwlock_init(pthread_rwlock_t * l, const pthread_rwlockattr_t *) {memset(l, 0, sizeof *l); return 0;}
int pthread_rwlock_destroy(pthread_rwlock_t *) {return 0;}
static int rwlock_op(pthread_rwlock_t * l, bool wr, Pend p)
{
  Sync * s = sync_of(l);
  if (!in_thread()) {if (wr) {s->owner = 0;} else {s->readers++; s->rd[0]++;} return 0;}
  F[cur].s = s; block(p);
  if (wr ? s->owner >= 0 || s->readers : s->owner >= 0) {return p == P_POINT ? EBUSY : ETIMEDOUT;}
  acquire(s->vc);
  if (wr) {acquire(s->rvc); s->owner = cur;} else {s->readers++; s->rd[cur]++;}
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t * l) {return rwlock_op(l, false, P_RD);}
int pthread_rwlock_wrlock(pthread_rwlock_t * l) {return rwlock_op(l, true, P_WR);}
int pthread_rwlock_tryrdlock(pthread_rwlock_t * l) {return rwlock_op(l, false, P_POINT);}
int pthread_rwlock_trywrlock(pthread_rwlock_t * l) {return rwlock_op(l, true, P_POINT);}
int pthread_rwlock_timedrdlock(pthread_rwlock_t * l, const struct timespec *) {return rwlock_op(l, false, P_ANY);}
int pthread_rwlock_timedwrlock(pthread_rwlock_t * l, const struct timespec *) {return rwlock_op(l, true, P_ANY);}
int pthread_rwlock_clockrdlock(pthread_rwlock_t * l, clockid_t, const struct timespec *) {return rwlock_op(l, false, P_ANY);}
int pthread_rwlock_clockwrlock(pthread_rwlock_t * l, clockid_t, const struct timespec *) {return rwlock_op(l, true, P_ANY);}
int pthread_rwlock_unlock(pthread_rwlock_t * l)
{
  Sync * s = sync_of(l); int me = in_thread() ? cur : 0;
  if (s->owner == me) {s->owner = -1; if (me) {release(s->vc);}} else if (s->readers > 0 && s->rd[me] > 0) {s->readers--; s->rd[me]--; if (me) {release(s->rvc);}} else if (me) {
    fail("thread %d unlocks a lock it does not hold", cur);
  }
  return 0;
}
int pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t *) {memset(c, 0, sizeof *c); return 0;}
int pthread_cond_destroy(pthread_cond_t *) {return 0;}
static int cond_op(pthread_cond_t * c, pthread_mutex_t * m, Pend p)
{
  if (!in_thread()) {return p == P_TCOND ? ETIMEDOUT : 0;}
  Sync * s = sync_of(m), * cs = sync_of(c); Fiber & f = F[cur];
  if (s->owner != cur) {fail("thread %d waits on a condition without holding the mutex", cur); return EPERM;}
  int cnt = s->count; s->owner = -1; s->count = 0; release(s->vc);
  f.s = s; f.s2 = cs; f.signaled = false; block(p);
  bool sig = f.signaled; f.s2 = nullptr; f.signaled = false;
  s->owner = cur; s->count = cnt; acquire(s->vc);
  if (sig) {acquire(cs->vc);}
  return sig ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {return cond_op(c, m, P_COND);}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec *) {return cond_op(c, m, P_TCOND);}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const struct timespec *) {return cond_op(c, m, P_TCOND);}
static void wake(pthread_cond_t * c, bool all)
{
  if (!in_thread()) {return;}
  Sync * cs = sync_of(c); release(cs->vc);
  for (int t = 1; t < NF; ++t) {
    Fiber & f = F[t];
    if ((f.pend == P_COND || f.pend == P_TCOND) && f.s2 == cs && !f.signaled) {f.signaled = true; if (!all) {return;}}
  }
}
int pthread_cond_signal(pthread_cond_t * c) {wake(c, false); return 0;}
int pthread_cond_broadcast(pthread_cond_t * c) {wake(c, true); return 0;}
int sem_init(sem_t * x, int, unsigned v) {sync_of(x)->value = static_cast<int>(v); return 0;}
int sem_destroy(sem_t *) {return 0;}
int sem_wait(sem_t * x) {Sync * s = sync_of(x); if (in_thread()) {F[cur].s = s; block(P_SEM); acquire(s->vc);} s->value--; return 0;}
int sem_trywait(sem_t * x)
{
  Sync * s = sync_of(x); if (in_thread()) {block(P_POINT);}
  if (s->value <= 0) {errno = EAGAIN; return -1;}
  s->value--; if (in_thread()) {acquire(s->vc);} return 0;
}
int sem_post(sem_t * x) {Sync * s = sync_of(x); s->value++; if (in_thread()) {release(s->vc);} return 0;}
int pthread_once(pthread_once_t * o, void (*fn)(void))
{
  Sync * s = sync_of(o);
  if (*o == 2) {if (in_thread()) {acquire(s->vc);} return 0;}   // done for good: no scheduling point
  if (in_thread()) {F[cur].s = s; block(P_LOCK); s->owner = cur; acquire(s->vc);}
  if (*o != 2) {fn(); *o = 2;}
  if (in_thread()) {s->owner = -1; release(s->vc);}
  return 0;
}
int __cxa_guard_acquire(uint64_t * g)
{
  char * b = reinterpret_cast<char *>(g);
  if (!in_thread()) {if (*b) {return 0;} return 1;}
  Sync * s = sync_of(g); F[cur].s = s; block(P_LOCK); acquire(s->vc);
  if (*b) {return 0;}
  s->owner = cur; return 1;
}
void __cxa_guard_release(uint64_t * g)
{
  *reinterpret_cast<char *>(g) = 1;
  if (in_thread()) {Sync * s = sync_of(g); s->owner = -1; release(s->vc);}
}
void __cxa_guard_abort(uint64_t * g) {if (in_thread()) {Sync * s = sync_of(g); s->owner = -1; release(s->vc);}}
// threads created by the code under test
int pthread_create(pthread_t * t, const pthread_attr_t * a, void * (*fn)(void *), void * arg)
{
  if (!in_thread()) {static auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *)>("pthread_create"); return r(t, a, fn, arg);}
  int k = make_fiber(); F[k].pfn = fn; F[k].arg = arg; F[k].track = F[cur].track; *t = static_cast<pthread_t>(k) + 0x7000; return 0;
}
int pthread_join(pthread_t t, void ** r)
{
  if (t < 0x7000 || t >= 0x7000 + MAXT) {static auto f = real<int (*)(pthread_t, void **)>("pthread_join"); return f(t, r);}
  int k = static_cast<int>(t - 0x7000);
  if (in_thread()) {F[cur].join = k; block(P_JOIN); vjoin(F[cur].vc, F[k].vc);}
  if (r) {*r = F[k].pret;}
  return 0;
}
int pthread_detach(pthread_t t)
{
  if (t < 0x7000 || t >= 0x7000 + MAXT) {static auto f = real<int (*)(pthread_t)>("pthread_detach"); return f(t);}
  return 0;
}
pthread_t pthread_self(void)
{
  if (in_thread()) {return static_cast<pthread_t>(cur) + 0x7000;}
  static pthread_t (*r)(void) = real<pthread_t (*)(void)>("pthread_self"); return r();
}
int sched_yield(void) {if (in_thread()) {block(P_YIELD);} return 0;}
int nanosleep(const struct timespec * a, struct timespec * b)
{
  if (in_thread()) {block(P_YIELD); return 0;}
  static auto r = real<int (*)(const struct timespec *, struct timespec *)>("nanosleep"); return r(a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec * a, struct timespec * b)
{
  if (in_thread()) {block(P_YIELD); return 0;}
  static auto r = real<int (*)(clockid_t, int, const struct timespec *, struct timespec *)>("clock_nanosleep"); return r(c, f, a, b);
}
int usleep(useconds_t u)
{
  if (in_thread()) {block(P_YIELD); return 0;}
  static auto r = real<int (*)(useconds_t)>("usleep"); return r(u);
}

// ------------------------------------------------------------- memory
void * malloc(size_t n) {return __libc_malloc(n);}
void free(void * p) {do_free(p, __builtin_return_address(0));}
void * calloc(size_t a, size_t b) {return __libc_calloc(a, b);}
void * realloc(void * p, size_t n)
{
  if (!in_thread()) {return __libc_realloc(p, n);}
  void * q = __libc_malloc(n ? n : 1);
  if (q && p) {
    size_t o = malloc_usable_size(p), k = o < n ? o : n; access(p, k, false, __builtin_return_address(0));
    for (size_t i = 0; i < k; ++i) {static_cast<volatile char *>(q)[i] = static_cast<char *>(p)[i];}
    do_free(p, __builtin_return_address(0));
  }
  return q;
}
void * memcpy(void * d, const void * s, size_t n)
{
  if (watching()) {void * pc = __builtin_return_address(0); access(s, n, false, pc); access(d, n, true, pc);}
  void * r = d; __asm__ volatile ("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r;
}
void * memmove(void * d, const void * s, size_t n)
{
  if (watching()) {void * pc = __builtin_return_address(0); access(s, n, false, pc); access(d, n, true, pc);}
  void * r = d;
  if (d <= s || static_cast<char *>(d) >= static_cast<const char *>(s) + n) {__asm__ volatile ("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");} else {
    void * e = static_cast<char *>(d) + n - 1; const void * f = static_cast<const char *>(s) + n - 1;
    __asm__ volatile ("std\n rep movsb\n cld" : "+D"(e), "+S"(f), "+c"(n) : : "memory");
  }
  return r;
}
void * memset(void * d, int c, size_t n)
{
  if (watching()) {access(d, n, true, __builtin_return_address(0));}
  void * r = d; __asm__ volatile ("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r;
}
int memcmp(const void * a, const void * b, size_t n)
{
  if (watching()) {void * pc = __builtin_return_address(0); access(a, n, false, pc); access(b, n, false, pc);}
  const volatile unsigned char * x = static_cast<const unsigned char *>(a), * y = static_cast<const unsigned char *>(b);
  for (size_t i = 0; i < n; ++i) {if (x[i] != y[i]) {return x[i] < y[i] ? -1 : 1;}}
  return 0;
}
size_t strlen(const char * s)
{
  const volatile char * p = s; size_t n = 0; while (p[n]) {n++;}
  if (watching()) {access(s, n + 1, false, __builtin_return_address(0));}
  return n;
}

// the C library's own writes into buffers of the program
static int vprint(char * d, size_t n, const char * f, va_list a, void * pc)
{
  static auto r = real<int (*)(char *, size_t, const char *, va_list)>("vsnprintf");
  int k = r(d, n, f, a);
  if (watching() && n && k >= 0) {access(d, static_cast<size_t>(k) < n ? static_cast<size_t>(k) + 1 : n, true, pc);}
  return k;
}
int vsnprintf(char * d, size_t n, const char * f, va_list a) {return vprint(d, n, f, a, __builtin_return_address(0));}
int __vsnprintf_chk(char * d, size_t n, int, size_t, const char * f, va_list a) {return vprint(d, n, f, a, __builtin_return_address(0));}
int snprintf(char * d, size_t n, const char * f, ...) {va_list a; va_start(a, f); int k = vprint(d, n, f, a, __builtin_return_address(0)); va_end(a); return k;}
int __snprintf_chk(char * d, size_t n, int, size_t, const char * f, ...) {va_list a; va_start(a, f); int k = vprint(d, n, f, a, __builtin_return_address(0)); va_end(a); return k;}
int sprintf(char * d, const char * f, ...) {va_list a; va_start(a, f); int k = vprint(d, 1u << 20, f, a, __builtin_return_address(0)); va_end(a); return k;}
int __sprintf_chk(char * d, int, size_t n, const char * f, ...) {va_list a; va_start(a, f); int k = vprint(d, n < (1u << 20) ? n : (1u << 20), f, a, __builtin_return_address(0)); va_end(a); return k;}
static size_t text_copy(char * d, const char * s, size_t n, void * pc)   // n: most characters taken from s
{
  size_t k = 0; while (k < n && static_cast<const volatile char *>(s)[k]) {k++;}
  if (watching()) {access(s, k < n ? k + 1 : k, false, pc); access(d, k < n ? k + 1 : k, true, pc);}
  copy_bytes(d, s, k); return k;
}
char * strcpy(char * d, const char * s) {size_t k = text_copy(d, s, SIZE_MAX, __builtin_return_address(0)); d[k] = 0; return d;}
char * __strcpy_chk(char * d, const char * s, size_t) {size_t k = text_copy(d, s, SIZE_MAX, __builtin_return_address(0)); d[k] = 0; return d;}
char * strncpy(char * d, const char * s, size_t n)
{
  size_t k = text_copy(d, s, n, __builtin_return_address(0)); if (k < n) {if (watching()) {access(d + k, n - k, true, __builtin_return_address(0));} for (; k < n; ++k) {static_cast<volatile char *>(d)[k] = 0;}} return d;
}
char * __strncpy_chk(char * d, const char * s, size_t n, size_t) {return strncpy(d, s, n);}
char * strcat(char * d, const char * s) {char * e = d; while (*static_cast<volatile char *>(e)) {e++;} size_t k = text_copy(e, s, SIZE_MAX, __builtin_return_address(0)); e[k] = 0; return d;}
char * __strcat_chk(char * d, const char * s, size_t) {return strcat(d, s);}
char * strncat(char * d, const char * s, size_t n) {char * e = d; while (*static_cast<volatile char *>(e)) {e++;} size_t k = text_copy(e, s, n, __builtin_return_address(0)); e[k] = 0; return d;}
char * __strncat_chk(char * d, const char * s, size_t n, size_t) {return strncat(d, s, n);}
int strcmp(const char * a, const char * b)
{
  size_t i = 0; const volatile unsigned char * x = reinterpret_cast<const volatile unsigned char *>(a), * y = reinterpret_cast<const volatile unsigned char *>(b);
  while (x[i] && x[i] == y[i]) {i++;}
  if (watching()) {access(a, i + 1, false, __builtin_return_address(0)); access(b, i + 1, false, __builtin_return_address(0));}
  return x[i] < y[i] ? -1 : x[i] > y[i];
}
void * __memcpy_chk(void * d, const void * s, size_t n, size_t) {return memcpy(d, s, n);}
void * __memmove_chk(void * d, const void * s, size_t n, size_t) {return memmove(d, s, n);}
void * __memset_chk(void * d, int c, size_t n, size_t) {return memset(d, c, n);}
// destructors of thread-local objects run at the end of their fiber
int __cxa_thread_atexit(void (*fn)(void *), void * obj, void * dso)
{
  if (in_thread()) {if (ndtor[cur] < NDTOR) {dtors[cur][ndtor[cur]].fn = fn; dtors[cur][ndtor[cur]++].obj = obj;} return 0;}
  static auto r = real<int (*)(void (*)(void *), void *, void *)>("__cxa_thread_atexit_impl"); return r(fn, obj, dso);
}

// list and red-black tree internals of libstdc++: a change of a list counts as a write of the node it happens at
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(void * x, void * pos)
{
  static auto r = real<void (*)(void *, void *)>("_ZNSt8__detail15_List_node_base7_M_hookEPS0_"); void * pc = __builtin_return_address(0); access(x, 16, true, pc); access(pos, 16, true, pc); r(x, pos);
}
void _ZNSt8__detail15_List_node_base9_M_unhookEv(void * x)
{
  static auto r = real<void (*)(void *)>("_ZNSt8__detail15_List_node_base9_M_unhookEv"); void * pc = __builtin_return_address(0);
  access(static_cast<void **>(x)[0], 16, true, pc); access(static_cast<void **>(x)[1], 16, true, pc); access(x, 16, true, pc); r(x);
}
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(void * x, void * a, void * b)
{
  static auto r = real<void (*)(void *, void *, void *)>("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_"); void * pc = __builtin_return_address(0); access(x, 16, true, pc); access(a, 16, true, pc); access(b, 16, true, pc); r(x, a, b);
}
// red-black tree internals of libstdc++ are not instrumented: a change of a tree counts as a write of its header,
// a step as a read of the node
void * _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(void * x)
{
  static auto r = real<void * (*)(void *)>("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
  access(x, 32, false, __builtin_return_address(0)); return r(x);
}
const void * _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const void * x)
{
  static auto r = real<const void * (*)(const void *)>("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
  access(x, 32, false, __builtin_return_address(0)); return r(x);
}
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void * x, void * p, void * h)
{
  static auto r = real<void (*)(bool, void *, void *, void *)>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
  void * pc = __builtin_return_address(0); access(h, 32, true, pc); access(x, 32, true, pc); access(p, 32, true, pc); r(l, x, p, h);
}
void * _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void * z, void * h)
{
  static auto r = real<void * (*)(void *, void *)>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
  void * pc = __builtin_return_address(0); access(h, 32, true, pc); access(z, 32, true, pc); return r(z, h);
}

// ------------------------------------------------------------- instrumentation hooks
#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read ## n(void * p) {access(p, n, false, PC);} \
  void __tsan_write ## n(void * p) {access(p, n, true, PC);} \
  void __tsan_unaligned_read ## n(void * p) {access(p, n, false, PC);} \
  void __tsan_unaligned_write ## n(void * p) {access(p, n, true, PC);} \
  void __tsan_volatile_read ## n(void * p) {access(p, n, false, PC);} \
  void __tsan_volatile_write ## n(void * p) {access(p, n, true, PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, size_t n) {access(p, n, false, PC);}
void __tsan_write_range(void * p, size_t n) {access(p, n, true, PC);}
void __tsan_vptr_update(void ** p, void *) {access(p, 8, true, PC);}
void __tsan_vptr_read(void ** p) {access(p, 8, false, PC);}
static void apoint(const volatile void * p, int ld, int st)
{
  if (!in_thread()) {return;}
  // every atomic access is a scheduling point
  block(F[cur].spin ? P_SPIN : P_POINT); F[cur].spin = false;
  Sync * s = sync_of(const_cast<const void *>(p));
  if (ld == __ATOMIC_CONSUME || ld == __ATOMIC_ACQUIRE || ld == __ATOMIC_ACQ_REL || ld == __ATOMIC_SEQ_CST) {acquire(s->vc);}
  if (st == __ATOMIC_RELEASE || st == __ATOMIC_ACQ_REL || st == __ATOMIC_SEQ_CST) {release(s->vc);}
}
// after an atomic operation that read `o`: the same one again with the same result means that the thread spins
static void aspin(const volatile void * p, uint64_t o, int n, void * pc)
{
  if (!in_thread()) {return;}
  Fiber & f = F[cur]; f.spin = false;
  if (peek(p, n) != o) {f.sp_addr = nullptr; return;}
  f.spin = f.sp_addr == p && f.sp_pc == pc && f.sp_val == o;
  f.sp_addr = p; f.sp_pc = pc; f.sp_val = o; f.sp_size = n;
}
#define AT(b, T) \
  T __tsan_atomic ## b ## _load(const volatile T * p, int mo) {apoint(p, mo, -1); T o = *p; aspin(p, o, sizeof(T), PC); return o;} \
  void __tsan_atomic ## b ## _store(volatile T * p, T v, int mo) {apoint(p, -1, mo); *p = v;} \
  T __tsan_atomic ## b ## _exchange(volatile T * p, T v, int mo) {apoint(p, mo, mo); T o = *p; *p = v; aspin(p, o, sizeof(T), PC); return o;} \
  T __tsan_atomic ## b ## _fetch_add(volatile T * p, T v, int mo) {apoint(p, mo, mo); T o = *p; *p = static_cast<T>(o + v); aspin(p, o, sizeof(T), PC); return o;} \
  T __tsan_atomic ## b ## _fetch_sub(volatile T * p, T v, int mo) {apoint(p, mo, mo); T o = *p; *p = static_cast<T>(o - v); aspin(p, o, sizeof(T), PC); return o;} \
  T __tsan_atomic ## b ## _fetch_and(volatile T * p, T v, int mo) {apoint(p, mo, mo); T o = *p; *p = static_cast<T>(o & v); aspin(p, o, sizeof(T), PC); return o;} \
  T __tsan_atomic ## b ## _fetch_or(volatile T * p, T v, int mo) {apoint(p, mo, mo); T o = *p; *p = static_cast<T>(o | v); aspin(p, o, sizeof(T), PC); return o;} \
  T __tsan_atomic ## b ## _fetch_xor(volatile T * p, T v, int mo) {apoint(p, mo, mo); T o = *p; *p = static_cast<T>(o ^ v); aspin(p, o, sizeof(T), PC); return o;} \
  T __tsan_atomic ## b ## _fetch_nand(volatile T * p, T v, int mo) {apoint(p, mo, mo); T o = *p; *p = static_cast<T>(~(o & v)); aspin(p, o, sizeof(T), PC); return o;} \
  int __tsan_atomic ## b ## _compare_exchange_strong(volatile T * p, T * e, T v, int mo, int) \
  {apoint(p, mo, mo); T o = *p; bool k = o == *e; if (k) {*p = v;} else {*e = o;} aspin(p, o, sizeof(T), PC); return k;} \
  int __tsan_atomic ## b ## _compare_exchange_weak(volatile T * p, T * e, T v, int mo, int) \
  {apoint(p, mo, mo); T o = *p; bool k = o == *e; if (k) {*p = v;} else {*e = o;} aspin(p, o, sizeof(T), PC); return k;} \
  T __tsan_atomic ## b ## _compare_exchange_val(volatile T * p, T e, T v, int mo, int) \
  {apoint(p, mo, mo); T o = *p; if (o == e) {*p = v;} aspin(p, o, sizeof(T), PC); return o;}
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
  if (!in_thread()) {return;}
  static char fence; Sync * s = sync_of(&fence); acquire(s->vc); release(s->vc);
}
void __tsan_atomic_signal_fence(int) {}
}
