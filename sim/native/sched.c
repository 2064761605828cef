/* Simulated OpenMP runtime and memory.
 *
 * GOMP_parallel & friends are implemented with coroutines on one OS thread; a
 * seeded scheduler decides which simulated thread runs and, in kernels compiled
 * with the compiler's access instrumentation, at which memory access it is
 * preempted.  The same hooks feed a happens-before race detector (regions are
 * ordered by fork, barrier and join only) and an out-of-bounds detector over
 * the arena the harness allocates every array from. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#define MAXT 64
#define STACK (1u << 20)

typedef struct { void *sp; } ctx_t;
void sim_swap(ctx_t *from, ctx_t *to);
__asm__(
    ".text\n.globl sim_swap\n.hidden sim_swap\n.type sim_swap,@function\nsim_swap:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  subq $16,%rsp\n  stmxcsr (%rsp)\n  fnstcw 8(%rsp)\n"
    "  movq %rsp,(%rdi)\n  movq (%rsi),%rsp\n"
    "  ldmxcsr (%rsp)\n  fldcw 8(%rsp)\n  addq $16,%rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
    ".size sim_swap,.-sim_swap\n");

enum { T_READY, T_BARRIER, T_DONE };
typedef struct { ctx_t ctx; int state; int prio; unsigned long single_seen, ws_seen; } thr_t;

/* ---------------- configuration, set by the harness before an operation ---- */
enum { P_SERIAL, P_REVERSE, P_RANDOM, P_PREEMPT, P_RR, P_PCT, P_NPOL };
static int policy = P_SERIAL, preempt_den = 64, team_cap = 0, pct_depth = 3;
static uint64_t rng = 88172645463325252ull;
static int default_threads = 4;
static int track = 0;                       /* race/bounds checking on */

/* ---------------- statistics ---------------- */
static long n_regions, n_multi, n_switches, n_accesses, n_barriers, n_capped;
static uint64_t sig = 1469598103934665603ull;
static long n_races, n_oob;
static char first_race[256], first_oob[256];

/* ---------------- state ---------------- */
static thr_t thr[MAXT];
static char *stacks;
static int nthr = 1, cur = 0, active = 0, nested = 0, in_crit = 0;
static int team_stack[16];
static ctx_t main_ctx;
static void (*body)(void *);
static void *body_arg;
static uint32_t epoch = 1;
static long countdown;
static long pct_at[16];
static int pct_n;
static long region_access;

static uint64_t rnd(void)
{
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng * 2685821657736338717ull;
}
static void note(uint64_t x) { sig = (sig ^ x) * 1099511628211ull; }

/* ---------------- shadow memory ---------------- */
typedef struct { uintptr_t g; uint32_t epoch; int16_t writer; uint16_t pad; uint64_t readers; } cell_t;
#define NCELL (1u << 20)
static cell_t *cells;
static uint32_t ncell_used;
static cell_t *cell_of(uintptr_t g)
{
    if (!cells) {
        cells = mmap(0, sizeof(cell_t) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 44) & (NCELL - 1);
    for (;;) {
        cell_t *c = &cells[h];
        if (c->g == g) return c;
        if (!c->g) { c->g = g; ncell_used++; return c; }
        h = (h + 1) & (NCELL - 1);
    }
}
/* ---------------- arena ---------------- */
static char *arena; static size_t arena_size;
static unsigned char *amap;                 /* 1 byte per 4-byte granule: allocated? */
void *simmem_init(size_t n)
{
    if (!arena) {
        arena = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        amap = mmap(0, n / 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        arena_size = n;
    }
    return arena;
}
void simmem_mark(size_t off, size_t n, int on) { memset(amap + off / 4, on, (n + 3) / 4); }
void simmem_clear(void) { memset(amap, 0, arena_size / 4); }

/* ---------------- scheduling ---------------- */
static int pick(void)
{
    int ready[MAXT], n = 0;
    for (int i = 0; i < nthr; i++) if (thr[i].state == T_READY) ready[n++] = i;
    if (!n) return -1;
    int c = ready[0];
    switch (policy) {
    case P_SERIAL: c = ready[0]; break;
    case P_REVERSE: c = ready[n - 1]; break;
    case P_RR:
        for (int i = 0; i < n; i++) if (ready[i] > cur) { c = ready[i]; break; }
        break;
    case P_PCT:
        for (int i = 0; i < n; i++) if (thr[ready[i]].prio > thr[c].prio) c = ready[i];
        break;
    default: c = ready[rnd() % n];
    }
    note((uint64_t)c + 1);
    return c;
}
static void arm_countdown(void)
{
    if (policy == P_PREEMPT) countdown = 1 + (long)(rnd() % (2 * (uint64_t)preempt_den));
    else if (policy == P_RR) countdown = preempt_den;
    else if (policy == P_PCT) countdown = 1;
    else countdown = 1L << 60;
}
static void to_main(void) { sim_swap(&thr[cur].ctx, &main_ctx); }
static void release_barrier(void)
{
    for (int i = 0; i < nthr; i++) if (thr[i].state == T_BARRIER) thr[i].state = T_READY;
    epoch++; n_barriers++;
}
static void thread_main(void)
{
    body(body_arg);
    thr[cur].state = T_DONE;
    to_main();
    abort();
}
static void preempt_point(void)
{
    region_access++;
    if (--countdown > 0) return;
    if (policy == P_PCT) {
        countdown = 1;
        int hit = 0;
        for (int i = 0; i < pct_n; i++) if (pct_at[i] == region_access) { thr[cur].prio = -i - 1; hit = 1; }
        if (!hit) return;
    }
    if (in_crit) { arm_countdown(); return; }
    note((uint64_t)region_access << 8);
    n_switches++;
    to_main();
}

static int max_want;

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags)
{
    (void)flags;
    int want = num_threads ? (int)num_threads : default_threads;
    if (want > max_want) {                   /* FFTW asks for a full team and uses as many as planned */
        Dl_info di;
        if (!dladdr((void *)fn, &di) || !di.dli_fname || !strstr(di.dli_fname, "fftw")) max_want = want;
    }
    if (want > MAXT) want = MAXT;
    n_regions++;
    if (active) {                            /* nested: a team of one */
        if (nested < 16) team_stack[nested] = nthr;
        nested++;
        fn(data);
        nested--;
        return;
    }
    int team = want;
    if (team_cap && team > team_cap) { team = team_cap; n_capped++; }
    if (team > 1) n_multi++;
    if (!stacks) stacks = mmap(0, (size_t)STACK * MAXT, PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    body = fn; body_arg = data; nthr = team; active = 1; in_crit = 0;
    epoch++;
    if (ncell_used > NCELL / 2) { memset(cells, 0, sizeof(cell_t) * NCELL); ncell_used = 0; }
    for (int i = 0; i < team; i++) {
        uintptr_t top = (uintptr_t)stacks + (size_t)STACK * (i + 1);
        top &= ~(uintptr_t)63;
        void **sp = (void **)top;
        *--sp = 0;                           /* alignment / fake return */
        *--sp = (void *)thread_main;
        for (int k = 0; k < 6; k++) *--sp = 0;
        sp -= 2;
        __asm__ volatile("stmxcsr (%0)\n fnstcw 8(%0)" ::"r"(sp) : "memory");
        thr[i].ctx.sp = sp; thr[i].state = T_READY; thr[i].prio = (int)(rnd() % 1000) + 16;
        thr[i].single_seen = thr[i].ws_seen = 0;
    }
    region_access = 0; pct_n = 0;
    if (policy == P_PCT) {
        pct_n = pct_depth > 16 ? 16 : pct_depth;
        for (int i = 0; i < pct_n; i++) pct_at[i] = 1 + (long)(rnd() % 4000);
    }
    cur = 0;
    for (;;) {
        int c = pick();
        if (c < 0) {
            int b = 0, d = 0;
            for (int i = 0; i < nthr; i++) { b += thr[i].state == T_BARRIER; d += thr[i].state == T_DONE; }
            if (d == nthr) break;
            if (b) { release_barrier(); continue; }
            abort();
        }
        cur = c;
        arm_countdown();
        sim_swap(&main_ctx, &thr[c].ctx);
    }
    active = 0; nthr = 1; cur = 0;
    epoch++;
}
/* ---------------- libgomp API surface ---------------- */
int omp_get_thread_num(void) { return active && !nested ? cur : 0; }
int omp_get_num_threads(void) { return active && !nested ? nthr : 1; }
int omp_get_max_threads(void) { return default_threads; }
int omp_get_num_procs(void) { return default_threads; }
int omp_in_parallel(void) { return active && nthr > 1; }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
void omp_set_num_threads(int n) { if (n > 0) default_threads = n; }
void omp_set_dynamic(int n) { (void)n; }
void omp_set_nested(int n) { (void)n; }
int omp_get_level(void) { return active ? 1 + nested : 0; }
double omp_get_wtime(void) { return 0.0; }
void GOMP_barrier(void)
{
    if (!active || nested || nthr == 1) return;
    thr[cur].state = T_BARRIER;
    to_main();
}
void GOMP_critical_start(void) { in_crit++; }
void GOMP_critical_end(void) { in_crit--; }
void GOMP_critical_name_start(void **p) { (void)p; in_crit++; }
void GOMP_critical_name_end(void **p) { (void)p; in_crit--; }
void GOMP_atomic_start(void) { in_crit++; }
void GOMP_atomic_end(void) { in_crit--; }
_Bool GOMP_single_start(void)
{
    if (!active || nested || nthr == 1) return 1;
    unsigned long me = ++thr[cur].single_seen;
    static uint32_t ep; static unsigned long who;
    if (ep != epoch || who != me) { ep = epoch; who = me; return 1; }
    return 0;
}
/* work-sharing loops other than schedule(static): shared cursor, scheduler-ordered */
static struct { uint32_t ep; unsigned long no; long next, end, incr, chunk; } ws;
static _Bool loop_next(long *is, long *ie)
{
    if (ws.incr > 0 ? ws.next >= ws.end : ws.next <= ws.end) return 0;
    *is = ws.next;
    long e = ws.next + ws.chunk * ws.incr;
    if (ws.incr > 0 ? e > ws.end : e < ws.end) e = ws.end;
    *ie = e; ws.next = e;
    return 1;
}
static _Bool loop_start(long s, long e, long inc, long chunk, long *is, long *ie)
{
    unsigned long me = active && !nested ? ++thr[cur].ws_seen : 1;
    if (!active || ws.ep != epoch || ws.no != me) {
        ws.ep = epoch; ws.no = me; ws.next = s; ws.end = e; ws.incr = inc; ws.chunk = chunk > 0 ? chunk : 1;
    }
    return loop_next(is, ie);
}
#define LOOP(kind) \
  _Bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
  _Bool GOMP_loop_##kind##_next(long *a, long *b) { return loop_next(a, b); } \
  _Bool GOMP_loop_nonmonotonic_##kind##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
  _Bool GOMP_loop_nonmonotonic_##kind##_next(long *a, long *b) { return loop_next(a, b); }
LOOP(dynamic) LOOP(guided)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}

/* ---------------- access hooks ---------------- */
static inline void access_(uintptr_t a, unsigned n, int w)
{
    if (!active) {
        if (track && a >= (uintptr_t)arena && a < (uintptr_t)arena + arena_size) goto bounds;
        return;
    }
    n_accesses++;
    if (track) {
        if (a - (uintptr_t)stacks < (size_t)STACK * MAXT) { preempt_point(); return; }
        if (nthr > 1 && !in_crit) {
            for (uintptr_t g = a >> 2; g <= (a + n - 1) >> 2; g++) {
                cell_t *c = cell_of(g);
                if (c->epoch != epoch) { c->epoch = epoch; c->writer = 0; c->readers = 0; }
                int bad = 0;
                if (w) {
                    if (c->writer && c->writer != cur + 1) bad = 2;
                    else if (c->readers & ~(1ull << cur)) bad = 1;
                    c->writer = (int16_t)(cur + 1);
                } else {
                    if (c->writer && c->writer != cur + 1) bad = 1;
                    c->readers |= 1ull << cur;
                }
                if (bad && !n_races++)
                    snprintf(first_race, sizeof first_race, "%s conflict, arena offset %ld",
                             bad == 2 ? "write/write" : "read/write",
                             arena ? (long)(g * 4 - (uintptr_t)arena) : -1L);
            }
        }
        if (a >= (uintptr_t)arena && a < (uintptr_t)arena + arena_size) {
            bounds:;
            size_t o = a - (uintptr_t)arena;
            for (size_t k = o / 4; k <= (o + n - 1) / 4; k++)
                if (!amap[k]) {
                    if (!n_oob++)
                        snprintf(first_oob, sizeof first_oob, "%s of %u bytes at arena offset %ld outside every array",
                                 w ? "write" : "read", n, (long)o);
                    break;
                }
            if (!active) return;
        }
    }
    if (nthr > 1) preempt_point();
}
#define H(name, n, w) void __tsan_##name(void *p) { access_((uintptr_t)p, n, w); }
H(read1,1,0) H(read2,2,0) H(read4,4,0) H(read8,8,0) H(read16,16,0)
H(write1,1,1) H(write2,2,1) H(write4,4,1) H(write8,8,1) H(write16,16,1)
H(unaligned_read2,2,0) H(unaligned_read4,4,0) H(unaligned_read8,8,0) H(unaligned_read16,16,0)
H(unaligned_write2,2,1) H(unaligned_write4,4,1) H(unaligned_write8,8,1) H(unaligned_write16,16,1)
H(volatile_read4,4,0) H(volatile_read8,8,0) H(volatile_write4,4,1) H(volatile_write8,8,1)
void __tsan_read_range(void *p, unsigned long n) { if (n) access_((uintptr_t)p, (unsigned)n, 0); }
void __tsan_write_range(void *p, unsigned long n) { if (n) access_((uintptr_t)p, (unsigned)n, 1); }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}

/* ---------------- control ---------------- */
void simsched_set(uint64_t seed, int pol, int den, int cap, int tr)
{
    rng = seed * 6364136223846793005ull + 1442695040888963407ull;
    if (!rng) rng = 1;
    for (int i = 0; i < 4; i++) rnd();
    policy = pol; preempt_den = den > 0 ? den : 1; team_cap = cap; track = tr;
    sig = 1469598103934665603ull;
    max_want = 0;
    n_races = n_oob = 0; first_race[0] = first_oob[0] = 0;
}
uint64_t simsched_sig(void) { return sig; }
long simsched_stat(int k)
{
    switch (k) {
    case 0: return n_regions; case 1: return n_multi; case 2: return n_switches;
    case 3: return n_accesses; case 4: return n_barriers; case 5: return n_capped;
    case 6: return n_races; case 7: return n_oob; case 8: return max_want;
    }
    return -1;
}
const char *simsched_text(int k) { return k == 0 ? first_race : first_oob; }
