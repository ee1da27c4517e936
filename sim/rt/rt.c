// Deterministic simulation runtime.
//
// The crate under test, its dependencies and the harness are compiled with the
// thread-sanitizer *instrumentation pass* but are linked with this file instead of the
// sanitizer's run-time library.  Every atomic access therefore calls into this file,
// which makes it a scheduling point of a seeded scheduler running all simulated threads
// as fibers of one OS thread, and every plain access feeds a vector-clock race detector
// and a heap-state check.  Nothing here draws on a clock, on addresses or on real
// randomness, so one schedule seed (or one recorded decision list) is one execution.
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef __uint128_t u128;

#define MAXF 64
#define STACK_SZ (768 * 1024)
#define ARENA_BASE ((u8 *)0x500000000000ull)
#define ARENA_SZ (1ull << 30)
#define HSTATE_BASE ((u8 *)0x510000000000ull)       // 1 byte per 8 byte granule
#define SHADOW_BASE ((u8 *)0x520000000000ull)       // 32 bytes per 8 byte granule

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

// ------------------------------------------------------------------ configuration

enum { STRAT_TRACE = 0, STRAT_RANDOM = 1, STRAT_PCT = 2, STRAT_RR = 3, STRAT_BURST = 4 };

typedef struct {
  u32 strategy;
  u32 fine;        // scheduling points at plain accesses too
  u64 seed;
  u32 p_mille;     // STRAT_RANDOM: switch probability (per 1000)
  u32 quantum;     // STRAT_RR / STRAT_BURST
  u32 pct_depth;   // STRAT_PCT
  u32 est_len;     // STRAT_PCT / stalls: steps among which points are chosen
  u32 nstalls;     // number of stall faults to inject
  u32 race;        // race detector on
  u64 max_steps;
  const u64 *trace; // triples (fiber uid, fiber step, target uid | STALL bit)
  u32 ntrace;
  u32 stall_max;    // steps after which a stalled fiber goes on (0: only when nobody else can)
} rt_cfg;

typedef struct {
  u64 steps, switches, preemptions, stalls, blocked, fibers, max_live, atomics, plains, cas_fail,
      races, futex_waits, sleeps, sched_hash, heap_bytes, parallel_steps, pct_changes, blocked_by_stall;
} rt_stats;

enum { RES_OK = 0, RES_DEADLOCK = 1, RES_STEPCAP = 2, RES_TOOMANY = 3 };

typedef struct {
  u32 kind; // 1 race, 2 freed-memory access, 3 unallocated heap access
  u32 fiber_a, fiber_b;
  u32 write_a, write_b;
  u32 size;
  u64 addr_off;
  u64 pc;
  u64 pc_b;
} rt_race;

#define MAXRACES 8
extern char __executable_start;
static rt_race races[MAXRACES];
static u32 nraces;
static rt_stats st;
static rt_cfg cfg;

// ------------------------------------------------------------------ fibers

enum { F_FREE = 0, F_RUN, F_BLOCKED, F_DONE };

typedef struct fiber {
  void *sp;
  u8 *stack;
  int state;
  u32 slot;
  u64 uid;
  u64 seq;        // creation order
  u64 nchild;
  u64 step;       // own scheduling points so far
  int quiet;      // no scheduling points, no recording
  int nopre;      // no scheduling points
  int stalled;
  u64 stalled_at;
  u64 prio;
  const void *wait; // blocked on this address
  u64 qleft;
  void (*fn)(void *);
  void *arg;
  int waited;     // somebody joined it
  int futex;      // blocked in a futex wait
  int started;
  u32 vc[MAXF];
  u32 relf[MAXF]; // clock at last release fence
  u32 acqp[MAXF]; // clocks read by relaxed loads (for acquire fences)
  int has_relf, has_acqp;
} fiber;

static fiber F[MAXF];
static u32 nslots;   // slots ever used in this run
static u32 nlive;    // fibers not done
static fiber *cur;
// Only the OS thread that runs the simulation is simulated; the one that waits for it is not.
static __thread int sim_on;
static int multi;    // more than one live fiber
static u64 seqctr;
static u64 gseq;     // global event sequence number
static u64 vtime;    // simulated nanoseconds (only advanced by sleeps and steps)
static void *main_sp;
static int result_code;
static u64 rng[2];
static u64 pct_pts[64];
static u32 npct;
static u64 stall_pts[8];
static u32 nstall;
static u64 pct_low;
static int (*panicking_cb)(void);
static u64 *tr_out;
static u32 tr_len, tr_cap, tr_pos;
static u64 shash;
static u64 alone;
static fiber *last;

#define STALL_BIT (1ull << 63)

static inline u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline u64 rnd(void) {
  u64 s1 = rng[0], s0 = rng[1];
  u64 r = s0 + s1;
  rng[0] = s0;
  s1 ^= s1 << 23;
  rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}
static inline u64 rndn(u64 n) { return n ? (rnd() >> 11) % n : 0; }

void rt_switch_asm(void **save_sp, void *load_sp);
__asm__(".text\n"
        ".globl rt_switch_asm\n"
        "rt_switch_asm:\n"
        "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
        "  movq %rsp, (%rdi)\n"
        "  movq %rsi, %rsp\n"
        "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n"
        "  ret\n");

static void fatal(const char *what);

// ------------------------------------------------------------------ race detector

typedef struct { u32 ep; u8 mask; u8 flags; u16 pcx; } slot_t; // ep = slot<<24 | clock
typedef struct { slot_t s[4]; } cell_t;
_Static_assert(sizeof(cell_t) == 32, "cell");
#define FL_W 1
#define FL_A 2

static u32 *shadow_pages; // list of touched 4K shadow pages
static u32 nshadow_pages, cap_shadow_pages;
static u8 *shadow_bitmap;
#define SH_PAGES (ARENA_SZ * 4 / 4096)
static u8 *arena_ptr = ARENA_BASE;
static u8 *arena_hi = ARENA_BASE;
static int arena_on;
static int mem_ready;

// pcs are kept in a side table so that a report can name both sides
#define NPC 65536
static u64 *pctab;
static u16 pc_intern(u64 pc) {
  u32 h = (u32)(mix64(pc) & (NPC - 1));
  for (int i = 0; i < 64; i++) {
    u32 k = (h + i) & (NPC - 1);
    if (k == 0) continue;
    if (pctab[k] == pc) return (u16)k;
    if (!pctab[k]) { pctab[k] = pc; return (u16)k; }
  }
  return 0;
}

static void mem_init(void) {
  if (mem_ready) return;
  void *a = mmap(ARENA_BASE, ARENA_SZ, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *b = mmap(HSTATE_BASE, ARENA_SZ / 8, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *c = mmap(SHADOW_BASE, ARENA_SZ * 4, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != ARENA_BASE || b != HSTATE_BASE || c != SHADOW_BASE) {
    fprintf(stderr, "rt: cannot map arena\n");
    _exit(70);
  }
  shadow_bitmap = calloc(1, SH_PAGES / 8);
  pctab = calloc(NPC, 8);
  mem_ready = 1;
}

static inline int in_arena(const void *p) {
  return (u64)((const u8 *)p - ARENA_BASE) < ARENA_SZ;
}

static void report(u32 kind, const void *addr, u32 size, u64 pc, u32 wa, u32 fb, u32 wb, u64 pcb) {
  st.races++;
  if (nraces < MAXRACES) {
    rt_race *r = &races[nraces++];
    r->kind = kind;
    r->fiber_a = cur ? cur->slot : 0;
    r->fiber_b = fb;
    r->write_a = wa;
    r->write_b = wb;
    r->size = size;
    r->addr_off = (u64)addr - (u64)ARENA_BASE;
    r->pc = pc - (u64)&__executable_start;
    r->pc_b = pcb ? pcb - (u64)&__executable_start : 0;
  }
}

static inline void hs_check(const u8 *a, u32 size, u64 pc, u32 w) {
  // heap state: 0 never allocated, 1 live, 2 freed
  u64 g0 = (u64)(a - ARENA_BASE) >> 3, g1 = (u64)(a + size - 1 - ARENA_BASE) >> 3;
  u8 s0 = HSTATE_BASE[g0], s1 = HSTATE_BASE[g1];
  if (unlikely(s0 != 1 || s1 != 1)) {
    u8 bad = s0 != 1 ? s0 : s1;
    report(bad == 2 ? 2 : 3, a, size, pc, w, 0, 0, 0);
  }
}

static inline cell_t *cell_of(const u8 *a) {
  u64 g = (u64)(a - ARENA_BASE) >> 3;
  u64 pg = g >> 7; // 128 cells of 32 bytes per 4K page
  if (unlikely(!(shadow_bitmap[pg >> 3] & (1 << (pg & 7))))) {
    shadow_bitmap[pg >> 3] |= 1 << (pg & 7);
    if (nshadow_pages == cap_shadow_pages) {
      cap_shadow_pages = cap_shadow_pages ? cap_shadow_pages * 2 : 4096;
      shadow_pages = realloc(shadow_pages, cap_shadow_pages * sizeof(u32));
    }
    shadow_pages[nshadow_pages++] = (u32)pg;
  }
  return (cell_t *)SHADOW_BASE + g;
}

static void shadow_clear(void) {
  for (u32 i = 0; i < nshadow_pages; i++) {
    u32 pg = shadow_pages[i];
    memset(SHADOW_BASE + (u64)pg * 4096, 0, 4096);
    shadow_bitmap[pg >> 3] &= ~(1 << (pg & 7));
  }
  nshadow_pages = 0;
}

static inline void check_cell(const u8 *a8, u8 mask, u8 flags, u64 pc, const u8 *addr, u32 size) {
  cell_t *c = cell_of(a8);
  u32 me = cur->slot;
  u32 ep = (me << 24) | (cur->vc[me] & 0xffffff);
  int place = -1, empty = -1;
  for (int i = 0; i < 4; i++) {
    slot_t *s = &c->s[i];
    if (!s->mask) { if (empty < 0) empty = i; continue; }
    u32 of = s->ep >> 24;
    if (of == me) {
      // an access of mine at least as strong as the old one replaces it
      if (s->mask == mask && (s->flags == flags || (flags & FL_W && !(flags & FL_A)))) {
        if (place < 0) place = i; else s->mask = 0;
      } else if (s->ep == ep && (s->mask & mask) == mask && s->flags == FL_W) {
        return; // already covered by my plain write in this epoch
      }
      continue;
    }
    int hb = (s->ep & 0xffffff) <= cur->vc[of];
    if (hb) {
      if ((s->mask & ~mask) == 0 && (flags & FL_W) && !(flags & FL_A)) {
        if (place < 0) place = i; else s->mask = 0;
      }
      continue;
    }
    if ((s->mask & mask) && ((s->flags | flags) & FL_W) && !((s->flags & flags) & FL_A)) {
      report(1, addr, size, pc, flags & FL_W, of, s->flags & FL_W, pctab[s->pcx]);
      s->mask = 0; // once per place
    }
  }
  if (place < 0) place = empty;
  if (place < 0) place = (int)(mix64((u64)(a8 - ARENA_BASE) ^ ep) & 3);
  c->s[place] = (slot_t){ep, mask, flags, pc_intern(pc)};
}

static void record(const u8 *a, u32 size, u8 flags, u64 pc) {
  const u8 *end = a + size;
  while (a < end) {
    const u8 *g = (const u8 *)((u64)a & ~7ull);
    u32 lo = (u32)(a - g);
    u32 hi = (u32)(end - g < 8 ? end - g : 8);
    u8 mask = (u8)(((1u << hi) - 1) & ~((1u << lo) - 1));
    check_cell(g, mask, flags, pc, a, size);
    a = g + 8;
  }
}

// sync clocks of atomics
typedef struct { const void *addr; u32 vc[MAXF]; } sync_t;
static sync_t *syncs;
static u32 sync_cap, sync_n;
static u32 *sync_idx; // open addressing: index+1
static u32 sync_mask;

static void sync_reset(void) {
  if (!syncs) {
    sync_cap = 4096;
    syncs = malloc(sync_cap * sizeof(sync_t));
    sync_mask = 16384 - 1;
    sync_idx = calloc(sync_mask + 1, 4);
  } else if (sync_n) {
    memset(sync_idx, 0, (sync_mask + 1) * 4ull);
  }
  sync_n = 0;
}
static sync_t *sync_get(const void *addr, int create) {
  u32 h = (u32)mix64((u64)addr) & sync_mask;
  while (sync_idx[h]) {
    sync_t *s = &syncs[sync_idx[h] - 1];
    if (s->addr == addr) return s;
    h = (h + 1) & sync_mask;
  }
  if (!create) return 0;
  if (sync_n * 2 > sync_mask) {
    // grow
    u32 nm = (sync_mask + 1) * 2 - 1;
    free(sync_idx);
    sync_idx = calloc(nm + 1ull, 4);
    sync_mask = nm;
    for (u32 i = 0; i < sync_n; i++) {
      u32 k = (u32)mix64((u64)syncs[i].addr) & sync_mask;
      while (sync_idx[k]) k = (k + 1) & sync_mask;
      sync_idx[k] = i + 1;
    }
    h = (u32)mix64((u64)addr) & sync_mask;
    while (sync_idx[h]) h = (h + 1) & sync_mask;
  }
  if (sync_n == sync_cap) {
    sync_cap *= 2;
    syncs = realloc(syncs, sync_cap * sizeof(sync_t));
  }
  sync_idx[h] = ++sync_n;
  sync_t *s = &syncs[sync_n - 1];
  s->addr = addr;
  memset(s->vc, 0, sizeof s->vc);
  return s;
}
static inline void vc_join(u32 *a, const u32 *b) {
  for (u32 i = 0; i < nslots; i++)
    if (b[i] > a[i]) a[i] = b[i];
}

enum { MO_RELAXED = 0, MO_CONSUME = 1, MO_ACQUIRE = 2, MO_RELEASE = 3, MO_ACQ_REL = 4, MO_SEQ_CST = 5 };
static inline int is_acq(int mo) { return mo == MO_CONSUME || mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ_CST; }
static inline int is_rel(int mo) { return mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST; }

static void hb_load(const void *a, int mo) {
  sync_t *s = sync_get(a, 0);
  if (!s) return;
  if (is_acq(mo)) vc_join(cur->vc, s->vc);
  else { vc_join(cur->acqp, s->vc); cur->has_acqp = 1; }
}
static void hb_store(const void *a, int mo, int rmw) {
  if (is_rel(mo)) {
    sync_t *s = sync_get(a, 1);
    if (rmw) vc_join(s->vc, cur->vc);
    else memcpy(s->vc, cur->vc, sizeof s->vc);
    cur->vc[cur->slot]++;
  } else if (cur->has_relf) {
    sync_t *s = sync_get(a, 1);
    if (rmw) vc_join(s->vc, cur->relf);
    else memcpy(s->vc, cur->relf, sizeof s->vc);
  } else if (!rmw) {
    // a relaxed store breaks the release sequence
    sync_t *s = sync_get(a, 0);
    if (s) memset(s->vc, 0, sizeof s->vc);
  }
}

// ------------------------------------------------------------------ scheduler

static void trace_push(u64 uid, u64 step, u64 target) {
  if (tr_len + 3 > tr_cap) {
    tr_cap = tr_cap ? tr_cap * 2 : 3 * 1024;
    tr_out = realloc(tr_out, tr_cap * sizeof(u64));
  }
  tr_out[tr_len++] = uid;
  tr_out[tr_len++] = step;
  tr_out[tr_len++] = target;
}

static inline int runnable(fiber *f) { return f->state == F_RUN && !f->stalled; }

static u32 runnables(fiber **out, fiber *except) {
  u32 n = 0;
  for (u32 i = 0; i < nslots; i++)
    if (&F[i] != except && runnable(&F[i])) out[n++] = &F[i];
  // creation order, so that slot reuse does not matter
  for (u32 i = 1; i < n; i++)
    for (u32 j = i; j > 0 && out[j - 1]->seq > out[j]->seq; j--) {
      fiber *t = out[j]; out[j] = out[j - 1]; out[j - 1] = t;
    }
  return n;
}

static int unstall_any(void) {
  int any = 0;
  for (u32 i = 0; i < nslots; i++)
    if (F[i].state == F_RUN && F[i].stalled)
      for (u32 j = 0; j < nslots; j++)
        if (F[j].state == F_BLOCKED && F[j].futex) st.blocked_by_stall++;
  for (u32 i = 0; i < nslots; i++)
    if (F[i].state == F_RUN && F[i].stalled) { F[i].stalled = 0; any = 1; }
  return any;
}

static void switch_to(fiber *t) {
  if (t == cur) return;
  fiber *me = cur;
  st.switches++;
  shash = mix64(shash ^ mix64(t->uid + me->step * 31));
  cur = t;
  t->qleft = 0;
  rt_switch_asm(&me->sp, t->sp);
}

static fiber *find_uid(u64 uid) {
  for (u32 i = 0; i < nslots; i++)
    if (F[i].state != F_FREE && F[i].state != F_DONE && F[i].uid == uid) return &F[i];
  return 0;
}

static const u64 *trace_lookup(u64 uid, u64 step) {
  // the decisions of a run are few: scan from the last hit
  for (u32 k = 0; k < cfg.ntrace; k++) {
    u32 i = (tr_pos + k) % cfg.ntrace;
    if (cfg.trace[3 * i] == uid && cfg.trace[3 * i + 1] == step) {
      tr_pos = i;
      return &cfg.trace[3 * i];
    }
  }
  return 0;
}

// choose who runs when `cur` cannot go on (blocked, done or stalled)
static fiber *pick_forced(void) {
  fiber *c[MAXF];
  u32 n = runnables(c, cur->state == F_RUN && !cur->stalled ? cur : 0);
  if (!n) {
    if (unstall_any()) n = runnables(c, 0);
    if (!n) return 0;
  }
  fiber *t = c[0];
  switch (cfg.strategy) {
  case STRAT_TRACE: {
    const u64 *d = cfg.ntrace ? trace_lookup(cur->uid, cur->step) : 0;
    if (d) {
      fiber *x = find_uid(d[2] & ~STALL_BIT);
      if (x && runnable(x)) t = x;
    }
    break;
  }
  case STRAT_PCT:
    for (u32 i = 1; i < n; i++)
      if (c[i]->prio > t->prio) t = c[i];
    break;
  case STRAT_RR: {
    // next in creation order after cur
    t = c[0];
    for (u32 i = 0; i < n; i++)
      if (c[i]->seq > cur->seq) { t = c[i]; break; }
    break;
  }
  default:
    t = c[rndn(n)];
  }
  if (t != c[0]) trace_push(cur->uid, cur->step, t->uid);
  return t;
}

static void stuck(int code) __attribute__((noreturn));
static void stuck(int code) {
  result_code = code;
  fatal(code == RES_DEADLOCK ? "deadlock" : code == RES_STEPCAP ? "stepcap" : "toomany");
  _exit(71);
}

static void leave(void) { // cur cannot continue
  fiber *t = pick_forced();
  if (!t) stuck(RES_DEADLOCK);
  switch_to(t);
}

static void yield_slow(int forced) {
  cur->step++;
  st.steps++;
  if (st.steps > cfg.max_steps) stuck(RES_STEPCAP);
  if (panicking_cb) { // an unwinding thread keeps the processor: panic counts are per OS thread
    cur->quiet++;
    int p = panicking_cb();
    cur->quiet--;
    if (p) return;
  }
  st.parallel_steps++;
  fiber *t = cur;
  int stall = 0;
  switch (cfg.strategy) {
  case STRAT_TRACE:
    if (cfg.ntrace) {
      const u64 *d = trace_lookup(cur->uid, cur->step);
      if (d) {
        fiber *x = find_uid(d[2] & ~STALL_BIT);
        if (d[2] & STALL_BIT) stall = 1;
        if (x && runnable(x)) t = x;
      }
    }
    break;
  case STRAT_RANDOM:
    if (rndn(1000) < cfg.p_mille) {
      fiber *c[MAXF];
      u32 n = runnables(c, cur);
      if (n) t = c[rndn(n)];
    }
    break;
  case STRAT_PCT: {
    for (u32 i = 0; i < npct; i++)
      if (pct_pts[i] == st.parallel_steps) { cur->prio = pct_low--; st.pct_changes++; }
    fiber *c[MAXF];
    u32 n = runnables(c, 0);
    for (u32 i = 0; i < n; i++)
      if (c[i]->prio > t->prio) t = c[i];
    break;
  }
  case STRAT_RR:
    if (++cur->qleft >= cfg.quantum) {
      fiber *c[MAXF];
      u32 n = runnables(c, cur);
      if (n) {
        t = c[0];
        for (u32 i = 0; i < n; i++)
          if (c[i]->seq > cur->seq) { t = c[i]; break; }
      }
    }
    break;
  case STRAT_BURST:
    if (cur->qleft == 0) cur->qleft = 1 + rndn(cfg.quantum);
    if (--cur->qleft == 0) {
      fiber *c[MAXF];
      u32 n = runnables(c, cur);
      if (n) t = c[rndn(n)];
    }
    break;
  }
  if (nstall && cfg.strategy != STRAT_TRACE) {
    for (u32 i = 0; i < nstall; i++)
      if (stall_pts[i] == st.parallel_steps) stall = 1;
  }
  if (cfg.stall_max) // a stall of bounded length ends
    for (u32 i = 0; i < nslots; i++)
      if (F[i].stalled && st.steps - F[i].stalled_at > cfg.stall_max) F[i].stalled = 0;
  // fairness: nobody runs alone for ever while others could
  if (last != cur) { last = cur; alone = 0; }
  if (forced || ++alone > 3000) {
    int chosen = t != cur;
    if (t == cur) {
      fiber *c[MAXF];
      u32 n = runnables(c, cur);
      if (n) {
        t = c[0];
        for (u32 i = 0; i < n; i++)
          if (c[i]->seq > cur->seq) { t = c[i]; break; }
        if (cfg.strategy == STRAT_PCT) cur->prio = pct_low--;
      }
    }
    alone = 0;
    if (t != cur && !stall) {
      // otherwise a deterministic consequence of the state, so not a recorded decision
      if (chosen) trace_push(cur->uid, cur->step, t->uid);
      switch_to(t);
      return;
    }
  }
  if (stall) {
    fiber *c[MAXF];
    u32 n = runnables(c, cur);
    if (n) {
      if (t == cur) t = c[0];
      cur->stalled = 1;
      cur->stalled_at = st.steps;
      st.stalls++;
      trace_push(cur->uid, cur->step, t->uid | STALL_BIT);
      st.preemptions++;
      switch_to(t);
    }
    return;
  }
  if (t != cur) {
    trace_push(cur->uid, cur->step, t->uid);
    st.preemptions++;
    switch_to(t);
  }
}

static inline void yield_pt(void) {
  gseq++;
  if (likely(!multi) || cur->quiet || cur->nopre) return;
  yield_slow(0);
}

static void fiber_main(void) __attribute__((noreturn));
static void fiber_main(void) {
  cur->started = 1;
  cur->fn(cur->arg);
  fiber *me = cur;
  me->step++;
  st.steps++;
  me->state = F_DONE;
  nlive--;
  multi = nlive > 1;
  // release to whoever joins
  for (u32 i = 0; i < nslots; i++)
    if (F[i].state == F_BLOCKED && F[i].wait == me) { F[i].state = F_RUN; F[i].wait = 0; }
  if (nlive == 0) {
    void *dummy;
    rt_switch_asm(&dummy, main_sp);
  }
  fiber *t = pick_forced();
  if (!t) stuck(RES_DEADLOCK);
  st.switches++;
  shash = mix64(shash ^ mix64(t->uid + me->step * 31 + 7));
  cur = t;
  t->qleft = 0;
  void *dummy;
  rt_switch_asm(&dummy, t->sp);
  __builtin_unreachable();
}

static fiber *new_fiber(void (*fn)(void *), void *arg) {
  fiber *f = 0;
  if (nslots < MAXF) f = &F[nslots];
  else
    for (u32 i = 0; i < MAXF; i++)
      if (F[i].state == F_DONE && F[i].waited) { f = &F[i]; break; }
  if (!f) stuck(RES_TOOMANY);
  u32 slot = (u32)(f - F);
  u32 oldclk = 0;
  if (slot < nslots) oldclk = f->vc[slot];
  else nslots++;
  u8 *stk = f->stack;
  if (!stk) {
    stk = mmap(0, STACK_SZ + 4096, PROT_READ | PROT_WRITE,
               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    if (stk == MAP_FAILED) { fprintf(stderr, "rt: stack\n"); _exit(70); }
    mprotect(stk, 4096, PROT_NONE);
  }
  memset(f, 0, sizeof *f);
  f->stack = stk;
  f->slot = slot;
  f->fn = fn;
  f->arg = arg;
  f->seq = seqctr++;
  f->state = F_RUN;
  f->vc[slot] = oldclk;
  if (cur) {
    f->uid = mix64(cur->uid ^ mix64(++cur->nchild)) & 0xffffffffffffull;
    vc_join(f->vc, cur->vc);
    cur->vc[cur->slot]++;
  } else f->uid = 1;
  f->vc[slot] = (oldclk > f->vc[slot] ? oldclk : f->vc[slot]) + 1;
  f->prio = (1ull << 40) + (rnd() >> 30);
  u64 *sp = (u64 *)(stk + STACK_SZ + 4096);
  *--sp = 0;
  *--sp = 0;
  *--sp = 0;
  *--sp = (u64)fiber_main;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp;
  nlive++;
  multi = nlive > 1;
  if (nlive > st.max_live) st.max_live = nlive;
  st.fibers++;
  return f;
}

// ------------------------------------------------------------------ API for the harness

u32 rt_spawn(void (*fn)(void *), void *arg) {
  fiber *f = new_fiber(fn, arg);
  yield_pt();
  return f->slot;
}

void rt_join(u32 h) {
  fiber *f = &F[h];
  gseq++;
  while (f->state != F_DONE) {
    cur->step++;
    st.steps++;
    st.blocked++;
    cur->state = F_BLOCKED;
    cur->wait = f;
    leave();
  }
  f->waited = 1; // not before: the slot may be reused from here on
  vc_join(cur->vc, f->vc);
}

// A fiber that has not run yet is withdrawn; 1 if that worked.
int rt_cancel(u32 h) {
  fiber *f = &F[h];
  gseq++;
  if (f->state == F_DONE) { f->waited = 1; return 1; }
  if (f->started || f->state != F_RUN) return 0;
  f->state = F_DONE;
  f->waited = 1;
  nlive--;
  multi = nlive > 1;
  return 1;
}

int rt_done(u32 h) { return F[h].state == F_DONE; }

void rt_wait(const void *addr) {
  gseq++;
  cur->step++;
  st.steps++;
  st.blocked++;
  if (st.steps > cfg.max_steps) stuck(RES_STEPCAP);
  cur->state = F_BLOCKED;
  cur->wait = addr;
  leave();
}
u32 rt_wake(const void *addr, u32 max) {
  u32 n = 0;
  fiber *w[MAXF];
  for (u32 i = 0; i < nslots; i++)
    if (F[i].state == F_BLOCKED && F[i].wait == addr) w[n++] = &F[i];
  for (u32 i = 1; i < n; i++)
    for (u32 j = i; j > 0 && w[j - 1]->seq > w[j]->seq; j--) {
      fiber *t = w[j]; w[j] = w[j - 1]; w[j - 1] = t;
    }
  if (n > max) n = max;
  for (u32 i = 0; i < n; i++) { w[i]->state = F_RUN; w[i]->wait = 0; }
  return n;
}
void rt_yield(void) { yield_pt(); }
void rt_yield_forced(void) {
  gseq++;
  if (!multi || cur->quiet) return;
  yield_slow(1);
}
void rt_hb_release(const void *a) {
  if (!sim_on || !multi) return;
  sync_t *s = sync_get(a, 1);
  vc_join(s->vc, cur->vc);
  cur->vc[cur->slot]++;
}
void rt_hb_acquire(const void *a) {
  if (!sim_on || !multi) return;
  sync_t *s = sync_get(a, 0);
  if (s) vc_join(cur->vc, s->vc);
}
void rt_quiet_inc(void) { if (cur) cur->quiet++; }
void rt_quiet_dec(void) { if (cur) cur->quiet--; }
int rt_quiet_get(void) { return cur ? cur->quiet : 0; }
void rt_quiet_set(int q) { if (cur) cur->quiet = q; }
void rt_nopre(int d) { if (cur) cur->nopre += d; }
u32 rt_self(void) { return cur ? cur->slot : 0; }
u64 rt_self_uid(void) { return cur ? cur->uid : 0; }
u64 rt_self_step(void) { return cur ? cur->step : 0; }
u64 rt_gseq(void) { return ++gseq; }
u32 rt_nlive(void) { // fibers whose slot cannot be taken
  u32 n = 0;
  for (u32 i = 0; i < nslots; i++) n += F[i].state != F_FREE && !(F[i].state == F_DONE && F[i].waited);
  return n;
}
int rt_on(void) { return sim_on; }
u32 rt_num_stalled(void) {
  u32 n = 0;
  for (u32 i = 0; i < nslots; i++) n += F[i].state == F_RUN && F[i].stalled;
  return n;
}
u64 rt_vtime(void) { return vtime + st.steps * 50; }
void rt_set_panicking(int (*cb)(void)) { panicking_cb = cb; }
void rt_get_stats(rt_stats *o) { *o = st; o->sched_hash = shash; o->heap_bytes = (u64)(arena_ptr - ARENA_BASE); }
u32 rt_get_races(rt_race *o, u32 max) {
  u32 n = nraces < max ? nraces : max;
  memcpy(o, races, n * sizeof *o);
  return nraces;
}
u32 rt_get_trace(u64 *out, u32 max) { // in triples
  u32 n = tr_len / 3;
  if (out) memcpy(out, tr_out, (n < max ? n : max) * 24ull);
  return n;
}

static u64 ctx_run_index;
static char ctx_note[4096];
void rt_set_note(const char *s, u64 n) {
  if (n > sizeof ctx_note - 1) n = sizeof ctx_note - 1;
  memcpy(ctx_note, s, n);
  ctx_note[n] = 0;
}
void rt_set_index(u64 i) { ctx_run_index = i; }

void rt_sysheap_set(int v);
void rt_arena(int on) { mem_init(); arena_on = on; }

int rt_run(const rt_cfg *c, void (*fn)(void *), void *arg) {
  mem_init();
  cfg = *c;
  if (!cfg.max_steps) cfg.max_steps = 4000000;
  memset(&st, 0, sizeof st);
  nraces = 0;
  tr_len = 0;
  tr_pos = 0;
  shash = 0;
  alone = 0;
  last = 0;
  seqctr = 0;
  gseq = 0;
  vtime = 0;
  nlive = 0;
  multi = 0;
  rng[0] = mix64(cfg.seed);
  rng[1] = mix64(cfg.seed ^ 0x1234567);
  pct_low = 1ull << 39;
  npct = cfg.strategy == STRAT_PCT ? (cfg.pct_depth > 60 ? 60 : cfg.pct_depth) : 0;
  for (u32 i = 0; i < npct; i++) pct_pts[i] = 1 + rndn(cfg.est_len);
  nstall = cfg.nstalls > 8 ? 8 : cfg.nstalls;
  for (u32 i = 0; i < nstall; i++) stall_pts[i] = 1 + rndn(cfg.est_len);
  for (u32 i = 0; i < nslots; i++) {
    u8 *s = F[i].stack;
    memset(&F[i], 0, sizeof F[i]);
    F[i].stack = s;
  }
  nslots = 0;
  rt_sysheap_set(0);
  sync_reset();
  shadow_clear();
  if (arena_on) {
    u64 used = (u64)(arena_hi - ARENA_BASE);
    memset(HSTATE_BASE, 0, (used >> 3) + 1);
    if (used > (96u << 20)) { // give big runs' memory back
      madvise(ARENA_BASE + (96u << 20), used - (96u << 20), MADV_DONTNEED);
    }
    arena_ptr = arena_hi = ARENA_BASE + 64;
  }
  cur = 0;
  result_code = RES_OK;
  fiber *m = new_fiber(fn, arg);
  sim_on = 1;
  cur = m;
  rt_switch_asm(&main_sp, m->sp);
  sim_on = 0;
  cur = 0;
  multi = 0;
  return result_code;
}

// ------------------------------------------------------------------ fatal outcomes

static void wr(const char *s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
static void jput(char *buf, size_t cap, const char *kind) {
  // one line; the note is harness text without quotes
  snprintf(buf, cap, "\nFATAL %llu %s %s\n", (unsigned long long)ctx_run_index, kind, ctx_note);
}
static char fatal_buf[8192];
static const char *trace_path;
void rt_set_trace_path(const char *p) { trace_path = p ? strdup(p) : 0; }
static void dump_trace(void) {
  if (!trace_path) return;
  FILE *f = fopen(trace_path, "w");
  if (!f) return;
  for (u32 i = 0; i + 2 < tr_len; i += 3)
    fprintf(f, "%llu %llu %llu\n", (unsigned long long)tr_out[i], (unsigned long long)tr_out[i + 1],
            (unsigned long long)tr_out[i + 2]);
  fclose(f);
}
static volatile u64 *stop_word;
void rt_set_stop_word(volatile u64 *p) { stop_word = p; }
static void note_stop(void) {
  if (stop_word && ctx_run_index < *stop_word) *stop_word = ctx_run_index;
}
static void fatal(const char *what) {
  // a run that needs more threads than there are is skipped; the search goes on
  if (strcmp(what, "toomany")) note_stop();
  dump_trace();
  char k[128];
  u32 stalled = rt_num_stalled();
  snprintf(k, sizeof k, "%s steps=%llu live=%u stalled=%u", what, (unsigned long long)st.steps, nlive, stalled);
  jput(fatal_buf, sizeof fatal_buf, k);
  wr(fatal_buf);
  _exit(64);
}
static void on_signal(int sig) {
  note_stop();
  static volatile int once;
  if (once++) _exit(65);
  char k[64];
  if (sig == SIGALRM || sig == SIGVTALRM) snprintf(k, sizeof k, "hang");
  else snprintf(k, sizeof k, "signal%d", sig);
  jput(fatal_buf, sizeof fatal_buf, k);
  wr(fatal_buf);
  dump_trace();
  _exit(64);
}
static u8 altstack[65536];
void rt_install_handlers(void) {
  stack_t ss = {.ss_sp = altstack, .ss_size = sizeof altstack};
  sigaltstack(&ss, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE, SIGTRAP, SIGALRM, SIGVTALRM};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, 0);
}
void rt_thread_altstack(void) {
  stack_t ss = {.ss_sp = altstack, .ss_size = sizeof altstack};
  sigaltstack(&ss, 0);
}
void rt_alarm(u32 cpu_secs, u32 real_secs) {
  struct itimerval it = {{0, 0}, {cpu_secs, 0}};
  setitimer(ITIMER_VIRTUAL, &it, 0);
  alarm(real_secs);
}

// ------------------------------------------------------------------ allocator

static int sysheap;
int rt_sysheap(int d) { return sysheap += d; }
void rt_sysheap_set(int v) { sysheap = v; }
static inline int use_arena(void) { return sim_on && arena_on && !sysheap; }

void *rt_alloc(u64 size, u64 align, int zero) {
  if (likely(use_arena())) {
    if (align < 8) align = 8;
    u64 p = ((u64)arena_ptr + align - 1) & ~(align - 1);
    u64 sz = (size + 7) & ~7ull;
    if (p + sz + 16 > (u64)ARENA_BASE + ARENA_SZ) { wr("\nrt: arena exhausted\n"); return 0; }
    arena_ptr = (u8 *)(p + sz + 16); // redzone
    if (arena_ptr > arena_hi) arena_hi = arena_ptr;
    memset(HSTATE_BASE + ((p - (u64)ARENA_BASE) >> 3), 1, sz >> 3);
    memset((void *)p, zero ? 0 : 0xCD, size);
    return (void *)p;
  }
  void *r = 0;
  if (align < 16) align = 16;
  if (posix_memalign(&r, align, size ? size : 1)) return 0;
  if (zero) memset(r, 0, size);
  return r;
}

void rt_dealloc(void *ptr, u64 size, u64 align) {
  (void)align;
  if (in_arena(ptr)) {
    if (!(sim_on && arena_on)) return; // left over from a finished run
    u64 g = ((u64)ptr - (u64)ARENA_BASE) >> 3;
    u64 n = (size + 7) >> 3;
    if (n && HSTATE_BASE[g] != 1) {
      report(HSTATE_BASE[g] == 2 ? 2 : 3, ptr, (u32)size, (u64)__builtin_return_address(0), 1, 0, 0, 0);
      return;
    }
    // freeing is a write to every byte of it
    if (multi && cfg.race && !cur->quiet && size <= 4096) record(ptr, (u32)size, FL_W, (u64)__builtin_return_address(0));
    memset(HSTATE_BASE + g, 2, n);
    memset(ptr, 0xDD, size);
    return;
  }
  free(ptr);
}

void *rt_realloc(void *ptr, u64 size, u64 align, u64 nsize) {
  void *n = rt_alloc(nsize, align, 0);
  if (!n) return 0;
  memcpy(n, ptr, size < nsize ? size : nsize);
  rt_dealloc(ptr, size, align);
  return n;
}

// Replaces the one live, 4-aligned place in the arena that holds these words; the number of such places is
// returned, and nothing happens unless it is 1.
u32 rt_arena_replace(const u32 *pat, const u32 *new, u32 n) {
  u32 found = 0, *where = 0;
  for (u32 *p = (u32 *)(ARENA_BASE + 64); p + n <= (u32 *)arena_ptr; p++) {
    if (*p != pat[0] || HSTATE_BASE[((u64)p - (u64)ARENA_BASE) >> 3] != 1) continue;
    if (HSTATE_BASE[((u64)(p + n - 1) - (u64)ARENA_BASE) >> 3] != 1 || memcmp(p, pat, n * 4)) continue;
    found++;
    where = p;
  }
  if (found == 1) memcpy(where, new, n * 4);
  return found;
}

// ------------------------------------------------------------------ instrumentation entry points

#define PC ((u64)__builtin_return_address(0))

static inline __attribute__((always_inline)) void plain(const void *a, u32 size, u8 fl, u64 pc) {
  if (!sim_on) return;
  if (multi) {
    if (cur->quiet) return;
    st.plains++;
    if (in_arena(a)) {
      if (cfg.fine) yield_pt();
      hs_check(a, size, pc, fl & FL_W);
      if (cfg.race) record(a, size, fl, pc);
    }
  } else if (in_arena(a) && !cur->quiet) hs_check(a, size, pc, fl & FL_W);
}

#define DEF_PLAIN(N)                                                                     \
  void __tsan_read##N(void *a) { plain(a, N, 0, PC); }                                   \
  void __tsan_write##N(void *a) { plain(a, N, FL_W, PC); }                               \
  void __tsan_unaligned_read##N(void *a) { plain(a, N, 0, PC); }                         \
  void __tsan_unaligned_write##N(void *a) { plain(a, N, FL_W, PC); }                     \
  void __tsan_volatile_read##N(void *a) { plain(a, N, 0, PC); }                          \
  void __tsan_volatile_write##N(void *a) { plain(a, N, FL_W, PC); }                      \
  void __tsan_unaligned_volatile_read##N(void *a) { plain(a, N, 0, PC); }                \
  void __tsan_unaligned_volatile_write##N(void *a) { plain(a, N, FL_W, PC); }            \
  void __tsan_read_write##N(void *a) { plain(a, N, FL_W, PC); }                          \
  void __tsan_unaligned_read_write##N(void *a) { plain(a, N, FL_W, PC); }
DEF_PLAIN(1)
DEF_PLAIN(2)
DEF_PLAIN(4)
DEF_PLAIN(8)
DEF_PLAIN(16)

void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **a, void *v) { (void)v; plain(a, 8, FL_W, PC); }
void __tsan_vptr_read(void **a) { plain(a, 8, 0, PC); }

void *__tsan_memcpy(void *d, const void *s, u64 n) {
  if (n) { plain(s, (u32)n, 0, PC); plain(d, (u32)n, FL_W, PC); }
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, u64 n) {
  if (n) { plain(s, (u32)n, 0, PC); plain(d, (u32)n, FL_W, PC); }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, u64 n) {
  if (n) plain(d, (u32)n, FL_W, PC);
  return memset(d, c, n);
}

static inline __attribute__((always_inline)) int at_pre(const void *a, u32 size, u64 pc) {
  if (!sim_on) return 0;
  if (!multi) { if (in_arena(a) && !cur->quiet) hs_check(a, size, pc, 1); return 0; }
  if (cur->quiet) return 0;
  st.atomics++;
  yield_pt();
  if (in_arena(a)) hs_check(a, size, pc, 1);
  return multi && cfg.race;
}
static inline void at_rec(const void *a, u32 size, u8 fl, u64 pc) {
  if (in_arena(a)) record(a, size, fl | FL_A, pc);
}

#define DEF_ATOMIC(B, T)                                                                 \
  T __tsan_atomic##B##_load(const volatile T *a, int mo) {                               \
    int r = at_pre((void *)a, B / 8, PC);                                                \
    T v = LOAD(a, T);                                                                    \
    if (r) { at_rec((void *)a, B / 8, 0, PC); hb_load((void *)a, mo); }                  \
    return v;                                                                            \
  }                                                                                      \
  void __tsan_atomic##B##_store(volatile T *a, T v, int mo) {                            \
    int r = at_pre((void *)a, B / 8, PC);                                                \
    STORE(a, v, T);                                                                      \
    if (r) { at_rec((void *)a, B / 8, FL_W, PC); hb_store((void *)a, mo, 0); }           \
  }                                                                                      \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T d, int mo, int fmo) {  \
    int r = at_pre((void *)a, B / 8, PC);                                                \
    T old = e;                                                                           \
    int ok = CAS(a, &old, d, T);                                                         \
    if (!ok && sim_on && multi) st.cas_fail++;                                           \
    if (r) {                                                                             \
      at_rec((void *)a, B / 8, ok ? FL_W : 0, PC);                                       \
      hb_load((void *)a, ok ? mo : fmo);                                                 \
      if (ok) hb_store((void *)a, mo, 1);                                                \
    }                                                                                    \
    return old;                                                                          \
  }                                                                                      \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T d, int mo, int fmo) { \
    T old = *e;                                                                          \
    T r = __tsan_atomic##B##_compare_exchange_val(a, old, d, mo, fmo);                   \
    *e = r;                                                                              \
    return r == old;                                                                     \
  }                                                                                      \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T d, int mo, int fmo) { \
    return __tsan_atomic##B##_compare_exchange_strong(a, e, d, mo, fmo);                 \
  }                                                                                      \
  RMW(B, T, exchange, v)                                                                 \
  RMW(B, T, fetch_add, old + v)                                                          \
  RMW(B, T, fetch_sub, old - v)                                                          \
  RMW(B, T, fetch_and, old &v)                                                           \
  RMW(B, T, fetch_or, old | v)                                                           \
  RMW(B, T, fetch_xor, old ^ v)                                                          \
  RMW(B, T, fetch_nand, ~(old & v))

#define RMW(B, T, name, expr)                                                            \
  T __tsan_atomic##B##_##name(volatile T *a, T v, int mo) {                              \
    int r = at_pre((void *)a, B / 8, PC);                                                \
    T old = LOAD(a, T);                                                                  \
    for (;;) { T nw = (T)(expr); if (CAS(a, &old, nw, T)) break; }                       \
    if (r) { at_rec((void *)a, B / 8, FL_W, PC); hb_load((void *)a, mo); hb_store((void *)a, mo, 1); } \
    return old;                                                                          \
  }
#define LOAD(a, T) __atomic_load_n(a, __ATOMIC_SEQ_CST)
#define STORE(a, v, T) __atomic_store_n(a, v, __ATOMIC_SEQ_CST)
#define CAS(a, o, n, T) __atomic_compare_exchange_n(a, o, n, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
DEF_ATOMIC(8, u8)
DEF_ATOMIC(16, u16)
DEF_ATOMIC(32, u32)
DEF_ATOMIC(64, u64)
#undef LOAD
#undef STORE
#undef CAS
#define LOAD(a, T) (*(a))
#define STORE(a, v, T) (*(a) = (v))
#define CAS(a, o, n, T) (*(a) == *(o) ? (*(a) = (n), 1) : (*(o) = *(a), 0))
DEF_ATOMIC(128, u128)

void __tsan_atomic_thread_fence(int mo) {
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  if (!sim_on || !multi || cur->quiet) return;
  yield_pt();
  if (is_acq(mo) && cur->has_acqp) vc_join(cur->vc, cur->acqp);
  if (is_rel(mo)) { memcpy(cur->relf, cur->vc, sizeof cur->relf); cur->has_relf = 1; cur->vc[cur->slot]++; }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ------------------------------------------------------------------ OS seams

static long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}

// randomness: one stream per run, decided by its seed, so RandomState and friends (the iteration order of
// every hash table) belong to the execution
static u64 rnd_state;
void rt_random(u64 seed) { rnd_state = seed; }
static void fill_random(void *b, size_t n) {
  u8 *p = b;
  for (size_t i = 0; i < n; i++) {
    u64 z = rnd_state += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    p[i] = (u8)((z ^ (z >> 31)) >> 24);
  }
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  (void)flags;
  fill_random(buf, n);
  return (ssize_t)n;
}

#define FUTEX_WAIT_ 0
#define FUTEX_WAKE_ 1
#define FUTEX_WAIT_BITSET_ 9
#define FUTEX_WAKE_BITSET_ 10

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_getrandom) { fill_random((void *)a, (size_t)b); return b; }
  if (n == SYS_futex && sim_on) {
    int op = (int)b & 0x7f;
    if (op == FUTEX_WAIT_ || op == FUTEX_WAIT_BITSET_) {
      st.futex_waits++;
      if (*(volatile u32 *)a != (u32)c) { errno = EAGAIN; return -1; }
      if (d) { // timed: time passes, everybody else gets a turn
        vtime += 1000000000ull;
        rt_yield_forced();
        errno = ETIMEDOUT;
        return -1;
      }
      cur->futex = 1;
      rt_wait((void *)a);
      cur->futex = 0;
      rt_hb_acquire((void *)a);
      return 0;
    }
    if (op == FUTEX_WAKE_ || op == FUTEX_WAKE_BITSET_) {
      rt_hb_release((void *)a);
      return rt_wake((void *)a, (u32)c);
    }
  }
  long r = raw_syscall6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

int sched_yield(void) {
  if (sim_on) { rt_yield_forced(); return 0; }
  return (int)raw_syscall6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (sim_on) {
    u64 t = 1000000000ull * 1000 + rt_vtime();
    ts->tv_sec = (time_t)(t / 1000000000ull);
    ts->tv_nsec = (long)(t % 1000000000ull);
    return 0;
  }
  long r = raw_syscall6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rm) {
  if (sim_on) {
    vtime += (u64)rq->tv_sec * 1000000000ull + (u64)rq->tv_nsec;
    st.sleeps++;
    rt_yield_forced();
    return 0;
  }
  return (int)-raw_syscall6(SYS_clock_nanosleep, c, fl, (long)rq, (long)rm, 0, 0);
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (sim_on) return clock_nanosleep(0, 0, rq, rm);
  long r = raw_syscall6(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
