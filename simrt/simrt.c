/* In-process deterministic simulator runtime for instrumented Rust binaries.
 *
 * Linked statically into the program under test. It owns every source of
 * nondeterminism the program has: which thread runs (one at a time; the baton
 * moves only at atomic operations, futex calls, I/O calls, thread and time
 * calls), the clocks, the random numbers, the results of file I/O, the heap
 * addresses. The whole execution is a function of the configuration found in
 * the file named by SIMRT_CFG. Without SIMRT_CFG the program runs normally. */
#define _GNU_SOURCE
#include "simrt.h"
#define MAX_JUMPS 300
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netdb.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

/* ------------------------------------------------------------- raw syscalls */
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
#define raw(n, a, b, c, d) raw6((n), (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)
static long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

/* ------------------------------------------------------------------- state */
#define MAXT 96
enum { T_FREE, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_EXITED };
struct thr {
  int tid, state;
  volatile int go;
  uint32_t lstep;
  uint32_t *addr;         /* futex */
  uint64_t deadline;      /* 0 = none */
  int wait_ret;           /* 0 woken, 1 timed out */
  int join_tid;
  uint64_t prio;
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
  uint64_t rnd_n;
  uint64_t wait_seq;
  int yielded;
};
static struct simcfg *C;         /* null: pass through */
static struct thr T[MAXT];
static int NT;
static __thread int me_;         /* tid of this thread, main = 0 */
static int cur;                  /* thread holding the baton */
static uint64_t rng_s[2];
static uint64_t now_ns;          /* simulated monotonic time since start */
static uint32_t run_len;         /* consecutive points of cur while others runnable */
static uint32_t burst_left;
static uint64_t wait_seq;
static uint64_t pct_points[64];
static uint64_t pct_low;
static int inited, ending;
static pthread_key_t exit_key;
#define EPOCH_REAL 1700000000ULL
#define NS 1000000000ULL

static uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
static uint64_t rnd(void) {
  uint64_t a = rng_s[0], b = rng_s[1];
  rng_s[0] = b;
  a ^= a << 23;
  rng_s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
  return rng_s[1] + b;
}
static uint32_t rnd_below(uint32_t n) { return n ? (uint32_t)((rnd() >> 11) % n) : 0; }
static void fold(uint64_t v) { C->ev_hash = mix(C->ev_hash ^ v); }

static void finish(int verdict, const char *msg, int code) {
  if (!ending) {
    ending = 1;
    C->verdict = verdict;
    C->sim_ns = now_ns;
    C->nthreads = NT;
    if (msg) strncpy(C->msg, msg, sizeof C->msg - 1);
  }
  if (code >= 0) raw(SYS_exit_group, code, 0, 0, 0);
}
static void die(const char *msg) { finish(V_INTERNAL, msg, 98); }

/* -------------------------------------------------------------- baton moves */
static void park(struct thr *t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
    raw(SYS_futex, &t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void give(struct thr *t) {
  cur = t->tid;
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, &t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0);
}

static void log_dec(int kind, int tid, uint32_t lstep, uint32_t arg, uint32_t pc) {
  if (C->n_log < MAX_LOG) {
    struct dec *d = &C->log[C->n_log++];
    d->kind = kind; d->tid = tid; d->lstep = lstep; d->arg = arg; d->pc = pc;
  } else C->log_over = 1;
}
/* replay lookup: decisions are hashed by (kind, tid, lstep) once at start */
static uint32_t *dtab;
static uint32_t dmask;
static void build_dtab(void) {
  uint32_t n = 64;
  while (n < C->n_dec * 2 + 2) n *= 2;
  dtab = (uint32_t *)mmap(0, n * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  dmask = n - 1;
  for (uint32_t i = 0; i < C->n_dec; i++) {
    struct dec *d = &C->decs[i];
    uint32_t h = (uint32_t)mix(((uint64_t)d->kind << 48) ^ ((uint64_t)d->tid << 32) ^ d->lstep) & dmask;
    while (dtab[h]) h = (h + 1) & dmask;
    dtab[h] = i + 1;
  }
}
static struct dec *find_dec(int kind, int tid, uint32_t lstep) {
  uint32_t h = (uint32_t)mix(((uint64_t)kind << 48) ^ ((uint64_t)tid << 32) ^ lstep) & dmask;
  while (dtab[h]) {
    struct dec *d = &C->decs[dtab[h] - 1];
    if (d->kind == kind && d->tid == tid && d->lstep == lstep) return d;
    h = (h + 1) & dmask;
  }
  return 0;
}

/* ------------------------------------------------------------------- timers */
static int earliest(void) {
  int best = -1;
  for (int i = 0; i < NT; i++)
    if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline &&
        (best < 0 || T[i].deadline < T[best].deadline))
      best = i;
  return best;
}
static void fire(int i) {
  T[i].state = T_RUN;
  T[i].wait_ret = 1;
  T[i].deadline = 0;
  T[i].addr = 0;
  C->ctr[C_TIMEOUT]++;
}
static void fire_due(void) {
  for (int i = 0; i < NT; i++)
    if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline && T[i].deadline <= now_ns) fire(i);
}

static int runnable(int *out, int except) {
  int n = 0;
  for (int i = 0; i < NT; i++)
    if (T[i].state == T_RUN && i != except) out[n++] = i;
  return n;
}
static int best_prio(int *r, int n) {
  int b = r[0];
  for (int i = 1; i < n; i++)
    if (T[r[i]].prio > T[b].prio) b = r[i];
  return b;
}
static int rr_next(int *r, int n, int from) {
  for (int i = 0; i < n; i++)
    if (r[i] > from) return r[i];
  return r[0];
}

static void switch_to(int to, int kind, uint32_t pc) {
  struct thr *self = &T[me_];
  C->ctr[C_SWITCH]++;
  C->sched_hash = mix(C->sched_hash ^ ((uint64_t)me_ << 56) ^ ((uint64_t)to << 48) ^ pc);
  if (C->trace_on && C->n_trace < MAX_TRACE) {
    struct trace *t = &C->tr[C->n_trace++];
    t->step = C->steps; t->from = me_; t->to = to; t->kind = kind; t->pc = pc; t->lstep = self->lstep;
  }
  run_len = 0;
  if (C->policy == POL_BURST) {
    burst_left = 1 + rnd_below(2 * (C->burst_mean ? C->burst_mean : 1));
  }
  give(&T[to]);
  if (self->state != T_EXITED) park(self);
}

/* the calling thread is not runnable any more: somebody else has to go on */
static void block(int kind, uint32_t pc) {
  int r[MAXT], n;
  struct thr *self = &T[me_];
  for (;;) {
    fire_due();
    n = runnable(r, -1);
    if (n) break;
    int e = earliest();
    if (e < 0) finish(V_DEADLOCK, "no thread can run and no timer is pending", 97);
    if (T[e].deadline > now_ns) {
      C->idle_ns += T[e].deadline - now_ns;
      now_ns = T[e].deadline;
    }
    if (C->max_sim_ns && C->idle_ns > C->max_sim_ns)
      finish(V_TIMELIMIT, "idle time limit: the program only waits", 97);
    fire_due();
  }
  int to;
  if (n == 1) to = r[0];
  else if (C->mode == MODE_REPLAY) {
    struct dec *d = find_dec(D_NEXT, me_, self->lstep);
    to = -1;
    if (d)
      for (int i = 0; i < n; i++)
        if (r[i] == (int)d->arg) to = r[i];
    if (to < 0) to = rr_next(r, n, me_);
  } else {
    switch (C->policy) {
      case POL_PCT: to = best_prio(r, n); break;
      case POL_STARVE: {
        to = r[rnd_below(n)];
        if (to == (int)C->starve_tid && rnd_below(65536) >= C->starve_p) {
          int k = 0;
          for (int i = 0; i < n; i++) if (r[i] != (int)C->starve_tid) r[k++] = r[i];
          to = r[rnd_below(k)];
        }
        break;
      }
      case POL_SERIAL: to = rr_next(r, n, me_); break;
      default: to = r[rnd_below(n)];
    }
    if (to != rr_next(r, n, me_)) log_dec(D_NEXT, me_, self->lstep, to, pc);
  }
  if (to == me_) { run_len = 0; return; }
  switch_to(to, kind, pc);
}

static struct fault *step_fault(void);

static void point(int kind, uint32_t pc) {
  if (!C || ending) return;
  if (me_ != cur) die("a thread ran without the baton");
  struct thr *self = &T[me_];
  C->steps++;
  self->lstep++;
  now_ns += 1000;
  switch (kind) {
    case K_ATOMIC: C->ctr[C_ATOMICS]++; break;
    case K_IO: C->ctr[C_IO]++; break;
    default: C->ctr[C_OTHER_PT]++;
  }
  fold(((uint64_t)kind << 56) ^ ((uint64_t)me_ << 48) ^ pc);
  if (C->steps >= C->max_steps) finish(V_STEPLIMIT, "step limit: no end within the bound", 97);
  if (step_fault()) {
    C->ctr[C_F_CRASH]++;
    finish(V_CRASH, "crash", -1);
    raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0), SIGKILL, 0, 0);
    for (;;) raw(SYS_pause, 0, 0, 0, 0);
  }
  if (C->mode == MODE_RANDOM && C->steps == C->max_steps / 4 && (C->policy == POL_PCT || C->policy == POL_STARVE)) {
    /* progress is only owed under a fair scheduler, so end every run with one */
    C->policy = POL_RANDOM;
    C->p_switch = 1000;
  }
  /* time jumps: every timer up to the earliest deadline fires although others could run */
  if (C->mode == MODE_REPLAY) {
    if (C->n_dec && find_dec(D_JUMP, me_, self->lstep)) {
      int e = earliest();
      if (e >= 0) { if (T[e].deadline > now_ns) now_ns = T[e].deadline; C->ctr[C_JUMP]++; }
    }
  } else if (C->p_jump && C->ctr[C_JUMP] < MAX_JUMPS && (rnd() & 0xfffff) < C->p_jump) {
    /* capped: tickers that always come due again would starve everything else */
    int e = earliest();
    if (e >= 0) {
      if (T[e].deadline > now_ns) now_ns = T[e].deadline;
      C->ctr[C_JUMP]++;
      log_dec(D_JUMP, me_, self->lstep, 0, pc);
    }
  }
  fire_due();
  int r[MAXT];
  int n = runnable(r, me_);
  if (!n) { run_len = 0; return; }
  run_len++;
  int to = -1;
  if (C->mode == MODE_REPLAY) {
    struct dec *d = C->n_dec ? find_dec(D_PREEMPT, me_, self->lstep) : 0;
    if (d)
      for (int i = 0; i < n; i++)
        if (r[i] == (int)d->arg) to = r[i];
    if (to < 0 && kind == K_YIELD) to = rr_next(r, n, me_);
    else if (to < 0 && run_len >= C->max_run) { to = rr_next(r, n, me_); C->ctr[C_FORCED]++; }
  } else {
    int ok = (C->kind_mask >> kind) & 1;
    switch (C->policy) {
      case POL_PCT: {
        for (uint32_t i = 0; i < C->pct_depth && i < 64; i++)
          if (pct_points[i] == C->steps) { self->prio = pct_low--; }
        if (kind == K_YIELD) self->prio = pct_low--;
        int b = best_prio(r, n);
        if (T[b].prio > self->prio) to = b;
        break;
      }
      case POL_BURST:
        if (ok) {
          if (burst_left) burst_left--;
          else to = r[rnd_below(n)];
        }
        break;
      case POL_STARVE:
        if (me_ == (int)C->starve_tid) {
          if (rnd_below(65536) >= C->starve_p) to = r[rnd_below(n)];
        } else if (ok && rnd_below(65536) < C->p_switch) {
          to = r[rnd_below(n)];
          if (to == (int)C->starve_tid && rnd_below(65536) >= C->starve_p) to = -1;
        }
        break;
      case POL_SERIAL: break;
      default:
        if (ok && rnd_below(65536) < C->p_switch) to = r[rnd_below(n)];
    }
    if (to < 0 && kind == K_YIELD) to = rr_next(r, n, me_);
    else if (to < 0 && run_len >= C->max_run) {
      to = rr_next(r, n, me_);
      C->ctr[C_FORCED]++;
      if (C->policy == POL_PCT) self->prio = pct_low--;
    } else if (to >= 0) {
      if (!(kind == K_YIELD && to == rr_next(r, n, me_)) )
        log_dec(D_PREEMPT, me_, self->lstep, to, pc);
    }
  }
  if (to >= 0) {
    C->ctr[C_PREEMPT]++;
    switch_to(to, kind, pc);
  }
}
#define PC() ((uint32_t)(uintptr_t)__builtin_return_address(0))

/* -------------------------------------------------------------- init / exit */
static int (*real_pthread_join)(pthread_t, void **);
static int (*real_pthread_detach)(pthread_t);
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static DIR *(*real_opendir)(const char *);
static struct dirent64 *(*real_readdir64)(DIR *);
static int (*real_closedir)(DIR *);

static void thread_gone(void *v);

static void build_dtab(void);
extern char **environ;
static void do_init(void) {
  if (inited) return;
  inited = 1;
  real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  real_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach");
  real_opendir = dlsym(RTLD_NEXT, "opendir");
  real_readdir64 = dlsym(RTLD_NEXT, "readdir64");
  real_closedir = dlsym(RTLD_NEXT, "closedir");
  const char *p = 0;
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, "SIMRT_CFG=", 10)) p = *e + 10;
  if (!p) return;
  int fd = (int)raw(SYS_open, p, O_RDWR | O_CLOEXEC, 0, 0);
  if (fd < 0) { raw(SYS_exit_group, 96, 0, 0, 0); }
  void *m = (void *)raw6(SYS_mmap, 0x7e0000000000L, sizeof(struct simcfg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
  raw(SYS_close, fd, 0, 0, 0);
  if ((long)m < 0 && (long)m > -4096) raw(SYS_exit_group, 96, 0, 0, 0);
  struct simcfg *c = m;
  if (c->magic != SIMRT_MAGIC) raw(SYS_exit_group, 96, 0, 0, 0);
  C = c;
  rng_s[0] = mix(c->sched_seed);
  rng_s[1] = mix(c->sched_seed ^ 0x5555);
  build_dtab();
  T[0].tid = 0;
  T[0].state = T_RUN;
  T[0].prio = 1ULL << 40;
  T[0].pt = pthread_self();
  if (c->policy == POL_PCT && c->mode == MODE_RANDOM) {
    for (uint32_t i = 0; i < c->pct_depth && i < 64; i++) pct_points[i] = 1 + rnd() % (c->pct_range ? c->pct_range : 1000);
    T[0].prio = (1ULL << 40) + rnd_below(1 << 20);
  }
  pct_low = 1ULL << 30;
  NT = 1;
  cur = 0;
  c->ctr[C_THREADS] = 1;
  pthread_key_create(&exit_key, thread_gone);
}
__attribute__((constructor(101))) static void init(void) { do_init(); }
__attribute__((destructor)) static void fini(void) {
  if (C) finish(V_EXIT, 0, -1);
}
void __tsan_init(void) { do_init(); }

/* --------------------------------------------------------------------- heap */
/* size classes in powers of two with quarter steps, bump allocated at a fixed
 * address: addresses depend on the request history alone */
#define HEAP_BASE ((char *)0x600000000000UL)
#define HEAP_SIZE (24UL << 30)
struct hdr { uint64_t size; uint32_t cls; uint32_t off; }; /* 16 bytes before the block */
static char *heap_p, *heap_end;
static void *freel[256];
static volatile int heap_lock;
static void hlock(void) { while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE)) ; }
static void hunlock(void) { __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE); }
static int cls_of(size_t n, size_t *rounded) {
  if (n < 16) n = 16;
  int b = 63 - __builtin_clzl(n);
  size_t base = 1UL << b;
  size_t q = base / 4;
  if (q < 16) q = 16;
  size_t k = (n - base + q - 1) / q;
  if (base + k * q >= base * 2) { b++; base *= 2; k = 0; q = base / 4; if (q < 16) q = 16; }
  *rounded = base + k * q;
  return b * 4 + (int)k;
}
static void *halloc(size_t n, size_t align) {
  if (!heap_p) {
    heap_p = (char *)raw6(SYS_mmap, (long)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    heap_end = heap_p + HEAP_SIZE;
  }
  if (C && C->alloc_limit && n >= C->alloc_limit) {
    C->ctr[C_F_ALLOC]++;
    errno = ENOMEM;
    return 0;
  }
  if (n > (16UL << 30)) { errno = ENOMEM; return 0; }
  if (align < 16) align = 16;
  size_t want = n, r;
  if (align > 16) want = n + align;
  int c = cls_of(want, &r);
  hlock();
  char *blk;
  if (freel[c]) {
    blk = freel[c];
    freel[c] = *(void **)blk;
  } else {
    if (heap_p + r + 16 > heap_end) { hunlock(); errno = ENOMEM; return 0; }
    blk = heap_p + 16;
    heap_p += r + 16;
  }
  hunlock();
  char *p = blk;
  if (align > 16) p = (char *)(((uintptr_t)blk + align - 1) & ~(align - 1));
  struct hdr *h = (struct hdr *)(p - 16);
  if (p != blk) { /* keep the block's own header usable through off */
    ;
  }
  h->size = n;
  h->cls = c;
  h->off = (uint32_t)(p - blk);
  return p;
}
void *malloc(size_t n) { return halloc(n, 16); }
void free(void *p) {
  if (!p) return;
  struct hdr *h = (struct hdr *)((char *)p - 16);
  char *blk = (char *)p - h->off;
  int c = h->cls;
  hlock();
  *(void **)blk = freel[c];
  freel[c] = blk;
  hunlock();
}
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
  void *p = halloc(n, 16);
  if (p) memset(p, 0, n);
  return p;
}
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  struct hdr *h = (struct hdr *)((char *)p - 16);
  size_t old = h->size;
  size_t r0, r1;
  if (!h->off && cls_of(old, &r0) == cls_of(n, &r1) && !(C && C->alloc_limit && n >= C->alloc_limit)) { h->size = n; return p; }
  void *q = halloc(n, 16);
  if (!q) return 0;
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
void *memalign(size_t a, size_t n) { return halloc(n, a); }
void *aligned_alloc(size_t a, size_t n) { return halloc(n, a); }
int posix_memalign(void **out, size_t a, size_t n) {
  void *p = halloc(n, a);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
size_t malloc_usable_size(void *p) { return p ? ((struct hdr *)((char *)p - 16))->size : 0; }

/* ------------------------------------------------------------------ threads */
static void thread_gone(void *v) {
  /* re-armed so that this runs in the last round of key destructors */
  uintptr_t k = (uintptr_t)v;
  if (!C || ending) return;
  if (k < 4) { pthread_setspecific(exit_key, (void *)(k + 1)); return; }
  struct thr *t = &T[me_];
  point(K_EXIT, 0);
  t->state = T_EXITED;
  for (int i = 0; i < NT; i++)
    if (T[i].state == T_JOIN && T[i].join_tid == me_) T[i].state = T_RUN;
  block(K_EXIT, 0);
  for (;;) raw(SYS_pause, 0, 0, 0, 0);
}
static void *tramp(void *v) {
  struct thr *t = v;
  me_ = t->tid;
  park(t);
  pthread_setspecific(exit_key, (void *)1);
  return t->fn(t->arg);
}
/* a persistent fault: this call and every later one of its kind on the file */
#define NTH_FROM 0x80000000u
static struct fault *want(int cls, const char *path, uint32_t nth);
static void fired(struct fault *f, int cls, const char *path, uint32_t nth, int action, int arg, int ctr);
static uint32_t n_thread_ops;
int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!inited) do_init();
  if (!C || ending) return real_pthread_create(out, a, fn, arg);
  uint32_t nth = n_thread_ops++;
  struct fault *f = want(F_THREAD, "", nth);
  if (f) { fired(f, F_THREAD, "", nth, A_ERR, EAGAIN, C_F_THREAD); return EAGAIN; }
  if (NT >= MAXT) die("too many threads");
  struct thr *t = &T[NT];
  t->tid = NT;
  t->fn = fn;
  t->arg = arg;
  t->prio = (1ULL << 40) + (C->mode == MODE_RANDOM && C->policy == POL_PCT ? rnd_below(1 << 20) : 0);
  t->go = 0;
  int rc = real_pthread_create(&t->pt, a, tramp, t);
  if (rc) return rc;
  *out = t->pt;
  t->state = T_RUN;
  NT++;
  C->ctr[C_THREADS]++;
  point(K_THREAD, PC());
  return 0;
}
int pthread_join(pthread_t pt, void **ret) {
  if (!C) return real_pthread_join(pt, ret);
  if (ending) return 0;
  point(K_THREAD, PC());
  for (int i = 0; i < NT; i++)
    if (T[i].pt == pt) {
      while (T[i].state != T_EXITED) {
        T[me_].state = T_JOIN;
        T[me_].join_tid = i;
        block(K_THREAD, PC());
      }
      if (ret) *ret = 0;
      return 0;
    }
  return ESRCH;
}
int pthread_detach(pthread_t pt) { return C ? 0 : real_pthread_detach(pt); }
int sched_yield(void) {
  if (!C || ending) return 0;
  point(K_YIELD, PC());
  return 0;
}

/* --------------------------------------------------------------------- time */
static void get_ts(clockid_t id, struct timespec *ts) {
  uint64_t t = now_ns + 1000 * NS;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t = now_ns + EPOCH_REAL * NS;
  ts->tv_sec = t / NS;
  ts->tv_nsec = t % NS;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!C) return (int)ret_errno(raw(SYS_clock_gettime, id, ts, 0, 0));
  get_ts(id, ts);
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (!C) return (int)ret_errno(raw(SYS_gettimeofday, tv, tz, 0, 0));
  struct timespec ts;
  get_ts(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *o) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
static void sim_sleep(uint64_t ns, int kind, uint32_t pc) {
  struct thr *t = &T[me_];
  t->state = T_SLEEP;
  t->deadline = now_ns + (ns ? ns : 1);
  C->ctr[C_SLEEP]++;
  block(kind, pc);
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
  if (!C || ending) return (int)ret_errno(raw(SYS_nanosleep, req, rem, 0, 0));
  point(K_TIME, PC());
  sim_sleep((uint64_t)req->tv_sec * NS + req->tv_nsec, K_TIME, PC());
  return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
  if (!C || ending) return (int)-raw(SYS_clock_nanosleep, id, flags, req, rem);
  point(K_TIME, PC());
  uint64_t v = (uint64_t)req->tv_sec * NS + req->tv_nsec;
  if (flags & TIMER_ABSTIME) {
    struct timespec ts;
    get_ts(id, &ts);
    uint64_t n = (uint64_t)ts.tv_sec * NS + ts.tv_nsec;
    v = v > n ? v - n : 0;
  }
  sim_sleep(v, K_TIME, PC());
  return 0;
}

/* ------------------------------------------------------------------- random */
static void fill_random(void *buf, size_t n) {
  struct thr *t = &T[me_];
  unsigned char *p = buf;
  uint64_t v = 0;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) v = mix(C->sys_seed ^ mix(((uint64_t)me_ << 48) ^ t->rnd_n++));
    p[i] = (unsigned char)(v >> (8 * (i % 8)));
  }
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (!C) return ret_errno(raw(SYS_getrandom, buf, n, flags, 0));
  fill_random(buf, n);
  return n;
}
int getentropy(void *buf, size_t n) {
  if (!C) return raw(SYS_getrandom, buf, n, 0, 0) == (long)n ? 0 : -1;
  fill_random(buf, n);
  return 0;
}

/* -------------------------------------------------------------------- futex */
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t pc) {
  int cmd = op & 127;
  struct thr *t = &T[me_];
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point(K_FUTEX_WAIT, pc);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    uint64_t dl = 0;
    if (to) {
      uint64_t v = (uint64_t)to->tv_sec * NS + to->tv_nsec;
      if (cmd == FUTEX_WAIT) dl = now_ns + v;
      else {
        uint64_t base = (op & FUTEX_CLOCK_REALTIME) ? EPOCH_REAL * NS : 1000 * NS;
        dl = v > base ? v - base : 1;
      }
      if (dl <= now_ns) { errno = ETIMEDOUT; C->ctr[C_TIMEOUT]++; return -1; }
    }
    if (C->mode == MODE_REPLAY) {
      if (C->n_dec && find_dec(D_SPUR, me_, t->lstep)) { C->ctr[C_SPUR]++; return 0; }
    } else if (C->p_spur && (rnd() & 0xfffff) < C->p_spur) {
      C->ctr[C_SPUR]++;
      log_dec(D_SPUR, me_, t->lstep, 0, pc);
      return 0;
    }
    t->state = T_FUTEX;
    t->addr = addr;
    t->deadline = dl;
    t->wait_ret = 0;
    t->wait_seq = ++wait_seq;
    C->ctr[C_FUTEX_BLOCK]++;
    block(K_FUTEX_WAIT, pc);
    if (t->wait_ret == 1) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    point(K_FUTEX_WAKE, pc);
    long woken = 0;
    while ((uint32_t)woken < val) {
      int w[MAXT], n = 0;
      for (int i = 0; i < NT; i++)
        if (T[i].state == T_FUTEX && T[i].addr == addr) w[n++] = i;
      if (!n) break;
      int first = w[0];
      for (int i = 1; i < n; i++) if (T[w[i]].wait_seq < T[first].wait_seq) first = w[i];
      int who = first;
      if (n > 1 && val == 1) {
        if (C->mode == MODE_REPLAY) {
          struct dec *d = C->n_dec ? find_dec(D_WAKE, me_, t->lstep) : 0;
          if (d) for (int i = 0; i < n; i++) if (w[i] == (int)d->arg) who = w[i];
        } else {
          who = w[rnd_below(n)];
          if (who != first) log_dec(D_WAKE, me_, t->lstep, who, pc);
        }
      }
      T[who].state = T_RUN;
      T[who].deadline = 0;
      T[who].addr = 0;
      T[who].wait_ret = 0;
      C->ctr[C_WAKES]++;
      woken++;
    }
    return woken;
  }
  die("unsupported futex operation");
  return -1;
}
/* numbers of processes and threads, which panic messages contain, are those of the simulated world */
pid_t gettid(void) { return C && !ending ? 4000 + (int)(C->sys_seed % 1000) + me_ : (pid_t)raw(SYS_gettid, 0, 0, 0, 0); }
pid_t getpid(void) { return C && !ending ? 4000 + (int)(C->sys_seed % 1000) : (pid_t)raw(SYS_getpid, 0, 0, 0, 0); }
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (C && !ending) {
    if (n == SYS_futex) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, PC());
    if (n == SYS_getrandom) return getrandom((void *)a, b, c);
    if (n == SYS_clock_gettime) return clock_gettime((clockid_t)a, (struct timespec *)b);
    if (n == SYS_sched_yield) return sched_yield();
    if (n == SYS_gettid) return gettid();
    if (n == SYS_getpid) return getpid();
  }
  return ret_errno(raw6(n, a, b, c, d, e, f));
}

/* ---------------------------------------------------------------------- I/O */
#define MAXP 512
#define MAXFD 1024
struct pathrec { char p[PATHLEN]; uint32_t n[16]; uint32_t full; };
static struct pathrec P[MAXP];
static int NP;
static int fdp[MAXFD]; /* fd -> path index + 1 */
static uint64_t fs_used;
static int path_of(const char *s) {
  if (s[0] == '.' && s[1] == '/') s += 2;
  for (int i = 0; i < NP; i++)
    if (!strncmp(P[i].p, s, PATHLEN - 1)) return i;
  if (NP >= MAXP) return -1;
  strncpy(P[NP].p, s, PATHLEN - 1);
  return NP++;
}
static int tracked(const char *s) { return C && !ending && s && s[0] && s[0] != '/'; }
static int fd_path(int fd) {
  if (!C || ending || fd < 0 || fd >= MAXFD) return -1;
  if (fdp[fd]) return fdp[fd] - 1;
  if (fd == 1 || fd == 2) {
    int i = path_of(fd == 1 ? "<stdout>" : "<stderr>");
    fdp[fd] = i + 1;
    return i;
  }
  return -1;
}
static struct fault *step_fault(void) {
  for (uint32_t i = 0; i < C->n_faults; i++)
    if (C->faults[i].cls == F_STEP && C->faults[i].nth == C->steps) { C->faults[i].fired = 1; return &C->faults[i]; }
  return 0;
}
static struct fault *want(int cls, const char *path, uint32_t nth) {
  for (uint32_t i = 0; i < C->n_faults; i++) {
    struct fault *f = &C->faults[i];
    if (f->cls == (uint32_t)cls &&
        ((f->nth & NTH_FROM) ? nth >= (f->nth & ~NTH_FROM) : f->nth == nth) && !strncmp(f->path, path, PATHLEN - 1)) return f;
  }
  return 0;
}
static void fired(struct fault *f, int cls, const char *path, uint32_t nth, int action, int arg, int ctr) {
  if (f) f->fired++;
  C->ctr[ctr]++;
  if (C->n_flog < MAX_FLOG) {
    struct fault *g = &C->flog[C->n_flog++];
    g->cls = cls; g->nth = nth; g->action = action; g->arg = arg; g->tid = me_;
    strncpy(g->path, path, PATHLEN - 1);
  } else {
    C->log_over = 1;
    if (f) { /* a planned fault is never lost among the soft ones */
      static uint32_t over;
      struct fault *g = &C->flog[MAX_FLOG - 1 - over++ % 16];
      g->cls = cls; g->nth = nth; g->action = action; g->arg = arg; g->tid = me_;
      strncpy(g->path, path, PATHLEN - 1);
    }
  }
}
static void crash_now(void) {
  finish(V_CRASH, "crash", -1);
  raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0), SIGKILL, 0, 0);
  for (;;) raw(SYS_pause, 0, 0, 0, 0);
}
static uint64_t io_rnd(int pi, int cls, uint32_t nth, int salt) {
  uint64_t h = C->io_seed;
  for (const char *s = P[pi].p; *s; s++) h = mix(h ^ (unsigned char)*s);
  return mix(h ^ ((uint64_t)cls << 40) ^ ((uint64_t)salt << 48) ^ nth);
}
static int err_ctr(int cls) {
  switch (cls) {
    case F_OPEN: return C_F_OPEN_ERR;
    case F_READ: return C_F_READ_ERR;
    case F_WRITE: return C_F_WRITE_ERR;
    case F_CLOSE: return C_F_CLOSE;
    case F_STAT: return C_F_STAT_ERR;
    case F_MKDIR: return C_F_MKDIR;
    default: return C_F_DIR_ERR;
  }
}
/* common part of the simple calls: 0 to go on, errno to fail with */
static int simple_op(int pi, int cls, uint32_t pc) {
  point(K_IO, pc);
  if (pi < 0) return 0;
  uint32_t nth = P[pi].n[cls]++;
  struct fault *f = want(cls, P[pi].p, nth);
  if (f) {
    if (f->action == A_CRASH) { fired(f, cls, P[pi].p, nth, A_CRASH, 0, C_F_CRASH); crash_now(); }
    if (f->action == A_DELAY) { fired(f, cls, P[pi].p, nth, A_DELAY, f->arg, C_F_DELAY); sim_sleep((uint64_t)f->arg * 1000000, K_IO, pc); return 0; }
    fired(f, cls, P[pi].p, nth, A_ERR, f->arg, err_ctr(cls));
    return f->arg;
  }
  return 0;
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode, uint32_t pc) {
  int tr = tracked(path) && dirfd == AT_FDCWD;
  int pi = -1;
  if (tr) {
    pi = path_of(path);
    int e = simple_op(pi, F_OPEN, pc);
    if (e) { errno = e; return -1; }
    if (C->fs_capacity && (flags & O_CREAT) && fs_used >= C->fs_capacity) {
      struct stat st;
      if (raw(SYS_newfstatat, AT_FDCWD, path, &st, 0) < 0) { C->ctr[C_F_ENOSPC]++; errno = ENOSPC; return -1; }
    }
  }
  int fd = (int)ret_errno(raw(SYS_openat, dirfd, path, flags, mode));
  if (fd >= 0 && fd < MAXFD) fdp[fd] = tr ? pi + 1 : 0;
  return fd;
}
int open64(const char *path, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  return do_open(AT_FDCWD, path, flags, m, PC());
}
int open(const char *path, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  return do_open(AT_FDCWD, path, flags, m, PC());
}
int openat64(int d, const char *path, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  return do_open(d, path, flags, m, PC());
}
int openat(int d, const char *path, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  return do_open(d, path, flags, m, PC());
}
static ssize_t do_read(int fd, void *buf, size_t n, uint32_t pc) {
  int pi = fd_path(fd);
  if (pi < 0) return ret_errno(raw(SYS_read, fd, buf, n, 0));
  point(K_IO, pc);
  uint32_t nth = P[pi].n[F_READ]++;
  const char *path = P[pi].p;
  size_t lim = n;
  int flip = -1;
  struct fault *f = want(F_READ, path, nth);
  if (f) {
    switch (f->action) {
      case A_ERR:
        fired(f, F_READ, path, nth, A_ERR, f->arg, f->arg == EINTR ? C_F_EINTR : C_F_READ_ERR);
        errno = f->arg;
        return -1;
      case A_SHORT:
        if ((size_t)f->arg < lim && f->arg > 0) lim = f->arg;
        fired(f, F_READ, path, nth, A_SHORT, f->arg, C_F_READ_SHORT);
        break;
      case A_DELAY:
        fired(f, F_READ, path, nth, A_DELAY, f->arg, C_F_DELAY);
        sim_sleep((uint64_t)f->arg * 1000000, K_IO, pc);
        break;
      case A_EOF:
        fired(f, F_READ, path, nth, A_EOF, 0, C_F_READ_EOF);
        P[pi].full = 1;
        break;
      case A_FLIP: flip = f->arg; break;
      case A_CRASH:
        fired(f, F_READ, path, nth, A_CRASH, 0, C_F_CRASH);
        crash_now();
    }
  } else if (C->mode == MODE_RANDOM) {
    if (C->p_eintr && (io_rnd(pi, F_READ, nth, 1) & 0xffff) < C->p_eintr) {
      fired(0, F_READ, path, nth, A_ERR, EINTR, C_F_EINTR);
      errno = EINTR;
      return -1;
    }
    if (C->p_delay && (io_rnd(pi, F_READ, nth, 2) & 0xffff) < C->p_delay) {
      int ms = 1 + (int)(io_rnd(pi, F_READ, nth, 3) % (C->delay_max_ms ? C->delay_max_ms : 1));
      fired(0, F_READ, path, nth, A_DELAY, ms, C_F_DELAY);
      sim_sleep((uint64_t)ms * 1000000, K_IO, pc);
    } else if (C->p_short && (io_rnd(pi, F_READ, nth, 4) & 0xffff) < C->p_short) {
      int k = 1 + (int)(io_rnd(pi, F_READ, nth, 5) % (C->short_max ? C->short_max : 1));
      if ((size_t)k < lim) {
        lim = k;
        fired(0, F_READ, path, nth, A_SHORT, k, C_F_READ_SHORT);
      }
    }
  }
  if (P[pi].full == 1) return 0; /* truncated from here on */
  ssize_t r = ret_errno(raw(SYS_read, fd, buf, lim, 0));
  if (flip >= 0 && r > 0) {
    ((unsigned char *)buf)[flip % r] ^= (unsigned char)(1 << ((flip / 7) & 7));
    fired(f, F_READ, path, nth, A_FLIP, flip, C_F_READ_FLIP);
  }
  fold((uint64_t)r ^ 0x7ead);
  return r;
}
ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n, PC()); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (fd_path(fd) < 0) return ret_errno(raw(SYS_readv, fd, v, c, 0));
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, PC());
  return 0;
}
static ssize_t do_write(int fd, const void *buf, size_t n, uint32_t pc) {
  int pi = fd_path(fd);
  if (pi < 0) return ret_errno(raw(SYS_write, fd, buf, n, 0));
  point(K_IO, pc);
  uint32_t nth = P[pi].n[F_WRITE]++;
  const char *path = P[pi].p;
  size_t lim = n;
  int torn = 0;
  struct fault *f = want(F_WRITE, path, nth);
  if (P[pi].full == 2) { C->ctr[C_F_ENOSPC]++; errno = ENOSPC; return -1; }
  if (f) {
    switch (f->action) {
      case A_ERR:
        fired(f, F_WRITE, path, nth, A_ERR, f->arg, f->arg == EINTR ? C_F_EINTR : f->arg == ENOSPC ? C_F_ENOSPC : C_F_WRITE_ERR);
        errno = f->arg;
        return -1;
      case A_SHORT:
        if ((size_t)f->arg < lim && f->arg > 0) lim = f->arg;
        fired(f, F_WRITE, path, nth, A_SHORT, f->arg, C_F_WRITE_SHORT);
        break;
      case A_DELAY:
        fired(f, F_WRITE, path, nth, A_DELAY, f->arg, C_F_DELAY);
        sim_sleep((uint64_t)f->arg * 1000000, K_IO, pc);
        break;
      case A_FULL: /* some bytes still fit, then the disk stays full */
        fired(f, F_WRITE, path, nth, A_FULL, f->arg, C_F_ENOSPC);
        P[pi].full = 2;
        if (f->arg <= 0 || n == 0) { errno = ENOSPC; return -1; }
        if ((size_t)f->arg < lim) lim = f->arg;
        break;
      case A_CRASH: /* torn write, then gone */
        fired(f, F_WRITE, path, nth, A_CRASH, f->arg, C_F_CRASH);
        torn = 1;
        if ((size_t)f->arg < lim) lim = f->arg;
        break;
    }
  } else if (C->mode == MODE_RANDOM && fd != 2) {
    if (C->p_eintr && (io_rnd(pi, F_WRITE, nth, 1) & 0xffff) < C->p_eintr) {
      fired(0, F_WRITE, path, nth, A_ERR, EINTR, C_F_EINTR);
      errno = EINTR;
      return -1;
    }
    if (C->p_short && (io_rnd(pi, F_WRITE, nth, 4) & 0xffff) < C->p_short) {
      int k = 1 + (int)(io_rnd(pi, F_WRITE, nth, 5) % (C->short_max ? C->short_max : 1));
      if ((size_t)k < lim) {
        lim = k;
        fired(0, F_WRITE, path, nth, A_SHORT, k, C_F_WRITE_SHORT);
      }
    }
  }
  if (C->fs_capacity && fd > 2) {
    uint64_t room = fs_used < C->fs_capacity ? C->fs_capacity - fs_used : 0;
    if (room == 0 && lim) { C->ctr[C_F_ENOSPC]++; errno = ENOSPC; return -1; }
    if (lim > room) lim = room;
  }
  ssize_t r = lim ? ret_errno(raw(SYS_write, fd, buf, lim, 0)) : 0;
  if (r > 0 && fd > 2) fs_used += r;
  if (torn) crash_now();
  fold((uint64_t)r ^ 0x377e);
  return r;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, PC()); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (fd_path(fd) < 0) return ret_errno(raw(SYS_writev, fd, v, c, 0));
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, PC());
  return 0;
}
// no network: a program that looks for a file in the hub finds nobody
int getaddrinfo(const char *restrict n, const char *restrict sv, const struct addrinfo *restrict h, struct addrinfo **restrict r) {
  (void)n; (void)sv; (void)h; (void)r;
  return EAI_FAIL;
}
int socket(int d, int t, int p) {
  (void)d; (void)t; (void)p;
  errno = EACCES;
  return -1;
}
int close(int fd) {
  int pi = fd_path(fd);
  int e = 0;
  if (pi >= 0) e = simple_op(pi, F_CLOSE, PC());
  if (fd >= 0 && fd < MAXFD) fdp[fd] = 0;
  long r = raw(SYS_close, fd, 0, 0, 0);
  if (e) { errno = e; return -1; }
  return (int)ret_errno(r);
}
int statx(int d, const char *restrict path, int flags, unsigned mask, struct statx *restrict buf) {
  const char *volatile pp = path; /* std probes with a null path; the header says nonnull */
  if (d == AT_FDCWD && tracked(pp)) {
    int e = simple_op(path_of(path), F_STAT, PC());
    if (e) { errno = e; return -1; }
  }
  return (int)ret_errno(raw6(SYS_statx, d, (long)path, flags, mask, (long)buf, 0));
}
static int do_stat(const char *path, struct stat *st, int flags, uint32_t pc) {
  if (tracked(path)) {
    int e = simple_op(path_of(path), F_STAT, pc);
    if (e) { errno = e; return -1; }
  }
  return (int)ret_errno(raw(SYS_newfstatat, AT_FDCWD, path, st, flags));
}
int stat64(const char *path, struct stat64 *st) { return do_stat(path, (struct stat *)st, 0, PC()); }
int lstat64(const char *path, struct stat64 *st) { return do_stat(path, (struct stat *)st, AT_SYMLINK_NOFOLLOW, PC()); }
int stat(const char *path, struct stat *st) { return do_stat(path, st, 0, PC()); }
int lstat(const char *path, struct stat *st) { return do_stat(path, st, AT_SYMLINK_NOFOLLOW, PC()); }
int mkdir(const char *path, mode_t m) {
  if (tracked(path)) {
    int e = simple_op(path_of(path), F_MKDIR, PC());
    if (e) { errno = e; return -1; }
  }
  return (int)ret_errno(raw(SYS_mkdir, path, m, 0, 0));
}
int rename(const char *a, const char *b) {
  if (tracked(a)) point(K_IO, PC());
  return (int)ret_errno(raw(SYS_rename, a, b, 0, 0));
}
int unlink(const char *a) {
  if (tracked(a)) point(K_IO, PC());
  return (int)ret_errno(raw(SYS_unlink, a, 0, 0, 0));
}

/* directory listings: read completely, sorted, then shuffled by the seed */
#define MAXD 64
struct dirrec { DIR *d; int pi; struct dirent64 *e; int n, at, loaded; };
static struct dirrec D[MAXD];
DIR *opendir(const char *path) {
  if (!inited) do_init();
  if (!tracked(path)) return real_opendir(path);
  int pi = path_of(path);
  int e = simple_op(pi, F_OPENDIR, PC());
  if (e) { errno = e; return 0; }
  DIR *d = real_opendir(path);
  if (d)
    for (int i = 0; i < MAXD; i++)
      if (!D[i].d) { D[i].d = d; D[i].pi = pi; D[i].e = 0; D[i].n = D[i].at = D[i].loaded = 0; break; }
  return d;
}
static int ent_cmp(const void *a, const void *b) {
  return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
}
struct dirent64 *readdir64(DIR *d) {
  if (!inited) do_init();
  struct dirrec *r = 0;
  if (C && !ending)
    for (int i = 0; i < MAXD; i++)
      if (D[i].d == d) r = &D[i];
  if (!r) return real_readdir64(d);
  int e = simple_op(r->pi, F_READDIR, PC());
  if (e) { errno = e; return 0; }
  if (!r->loaded) {
    r->loaded = 1;
    int cap = 16;
    r->e = malloc(cap * sizeof *r->e);
    struct dirent64 *x;
    while ((x = real_readdir64(d))) {
      if (r->n == cap) { cap *= 2; r->e = realloc(r->e, cap * sizeof *r->e); }
      size_t len = x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x;
      memset(&r->e[r->n], 0, sizeof *x);
      memcpy(&r->e[r->n], x, len);
      r->n++;
    }
    qsort(r->e, r->n, sizeof *r->e, ent_cmp);
    for (int i = r->n - 1; i > 0; i--) {
      int j = (int)(io_rnd(r->pi, F_READDIR, (uint32_t)i, 9) % (uint64_t)(i + 1));
      struct dirent64 t = r->e[i];
      r->e[i] = r->e[j];
      r->e[j] = t;
    }
  }
  if (r->at >= r->n) return 0;
  return &r->e[r->at++];
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
  if (!inited) do_init();
  for (int i = 0; i < MAXD; i++)
    if (D[i].d == d) { free(D[i].e); D[i].d = 0; }
  return real_closedir(d);
}

/* ------------------------------------------------------------------ atomics */
#define DEF(bits, type)                                                                             \
  type __tsan_atomic##bits##_load(const volatile type *a, int mo) { (void)mo; point(K_ATOMIC, PC()); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile type *a, type v, int mo) { (void)mo; point(K_ATOMIC, PC()); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_exchange(volatile type *a, type v, int mo) { (void)mo; point(K_ATOMIC, PC()); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_add(volatile type *a, type v, int mo) { (void)mo; point(K_ATOMIC, PC()); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_sub(volatile type *a, type v, int mo) { (void)mo; point(K_ATOMIC, PC()); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_and(volatile type *a, type v, int mo) { (void)mo; point(K_ATOMIC, PC()); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_or(volatile type *a, type v, int mo) { (void)mo; point(K_ATOMIC, PC()); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_xor(volatile type *a, type v, int mo) { (void)mo; point(K_ATOMIC, PC()); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_nand(volatile type *a, type v, int mo) { (void)mo; point(K_ATOMIC, PC()); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type *a, type c, type v, int mo, int fmo) { \
    (void)mo; (void)fmo; point(K_ATOMIC, PC());                                                     \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
DEF(8, uint8_t)
DEF(16, uint16_t)
DEF(32, uint32_t)
DEF(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
