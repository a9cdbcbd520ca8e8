/* Layout shared between the in-process simulator runtime (simrt.c) and the
 * driver (simdrv, Rust repr(C) mirror in simdrv/src/rt.rs). Keep in step. */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>

#define SIMRT_MAGIC 0x57494d4244534951ULL
#define MAX_FAULTS 512
#define MAX_DEC 131072
#define MAX_LOG 131072
#define MAX_FLOG 4096
#define MAX_TRACE 8192
#define PATHLEN 88
#define NCTR 48

enum { MODE_RANDOM = 0, MODE_REPLAY = 1 };
enum { POL_RANDOM = 0, POL_PCT = 1, POL_BURST = 2, POL_STARVE = 3, POL_IO = 4, POL_SERIAL = 5 };

/* kinds of scheduling point */
enum { K_ATOMIC = 1, K_FUTEX_WAIT = 2, K_FUTEX_WAKE = 3, K_IO = 4, K_THREAD = 5, K_TIME = 6, K_YIELD = 7, K_EXIT = 8 };

/* fault classes (system call families) */
enum { F_OPEN = 1, F_READ = 2, F_WRITE = 3, F_CLOSE = 4, F_STAT = 5, F_READDIR = 6, F_OPENDIR = 7,
       F_THREAD = 8, F_ALLOC = 9, F_MKDIR = 10, F_STEP = 11 };
/* fault actions */
enum { A_ERR = 1, A_SHORT = 2, A_DELAY = 3, A_CRASH = 4, A_EOF = 5, A_FLIP = 6, A_FULL = 7 };

/* decision kinds */
enum { D_PREEMPT = 1, D_NEXT = 2, D_JUMP = 3, D_WAKE = 4, D_SPUR = 5 };

enum { V_NONE = 0, V_EXIT = 1, V_DEADLOCK = 2, V_STEPLIMIT = 3, V_TIMELIMIT = 4, V_CRASH = 5, V_INTERNAL = 6 };

struct fault { uint32_t cls, nth, action; int32_t arg; char path[PATHLEN]; uint32_t fired; uint32_t tid; };
struct dec { uint16_t kind; uint16_t tid; uint32_t lstep; uint32_t arg; uint32_t pc; };
struct trace { uint64_t step; uint16_t from, to; uint16_t kind; uint16_t pad; uint32_t pc; uint32_t lstep; };

struct simcfg {
  uint64_t magic;
  uint64_t sched_seed, io_seed, sys_seed;
  uint32_t mode, policy;
  uint32_t p_switch;      /* per 65536, at each point */
  uint32_t p_jump;        /* per 2^20 */
  uint32_t p_spur;        /* per 2^20, spurious futex return */
  uint32_t pct_depth;
  uint64_t pct_range;
  uint32_t burst_mean;
  uint32_t starve_tid;
  uint32_t starve_p;      /* per 65536: chance the starved thread may run at a point */
  uint32_t kind_mask;     /* bit per K_*: which points may preempt */
  uint32_t max_run;       /* fairness: consecutive points of one thread while others can run */
  uint32_t p_short, p_delay, p_eintr; /* per 65536 per tracked read/write */
  uint32_t short_max;
  uint32_t delay_max_ms;
  uint64_t max_steps;
  uint64_t max_sim_ns;
  uint64_t alloc_limit;   /* allocations of at least this size fail when >0 */
  uint64_t fs_capacity;   /* bytes that may be written to tracked files before ENOSPC, 0 = unlimited */
  uint32_t trace_on;
  uint32_t n_faults;
  uint32_t n_dec;
  uint32_t dup_errno;
  /* ---- outputs ---- */
  uint32_t verdict;
  uint32_t exit_seen;
  char msg[256];
  uint64_t steps, sim_ns, idle_ns, ev_hash, sched_hash;
  uint32_t nthreads, log_over;
  uint64_t ctr[NCTR];
  uint32_t n_log, n_flog, n_trace, pad2;
  struct fault faults[MAX_FAULTS];
  struct fault flog[MAX_FLOG];
  struct trace tr[MAX_TRACE];
  struct dec log[MAX_LOG];
  struct dec decs[MAX_DEC];
};

/* counters */
enum { C_SWITCH = 0, C_PREEMPT = 1, C_JUMP = 2, C_SPUR = 3, C_TIMEOUT = 4, C_FUTEX_BLOCK = 5,
       C_F_OPEN_ERR = 6, C_F_READ_ERR = 7, C_F_READ_SHORT = 8, C_F_READ_EOF = 9, C_F_READ_FLIP = 10,
       C_F_WRITE_ERR = 11, C_F_WRITE_SHORT = 12, C_F_ENOSPC = 13, C_F_DELAY = 14, C_F_EINTR = 15,
       C_F_CRASH = 16, C_F_THREAD = 17, C_F_ALLOC = 18, C_F_STAT_ERR = 19, C_F_DIR_ERR = 20,
       C_FORCED = 21, C_ATOMICS = 22, C_IO = 23, C_THREADS = 24, C_F_CLOSE = 25, C_SLEEP = 26, C_OTHER_PT = 27, C_F_MKDIR = 28, C_WAKES = 29 };
#endif
