/* Deterministic simulator, preloaded into a real process (see DESIGN.md, "The simulator").
 *
 * It owns every source of nondeterminism the process can see: which thread runs (real threads, parked and
 * released one at a time), futexes and mutexes, clocks and sleeps, entropy, the CPU count, and the files below
 * SIM_ROOT plus stdout/stderr, whose operations can be cut short, interrupted, failed or crashed according to an
 * explicit plan.  Everything is a pure function of the configuration file named by SIM_CONF.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

/* ------------------------------------------------------------------ raw system calls */
static inline long rsys(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
#define R0(n) rsys(n, 0, 0, 0, 0, 0, 0)
#define R1(n, a) rsys(n, (long)(a), 0, 0, 0, 0, 0)
#define R2(n, a, b) rsys(n, (long)(a), (long)(b), 0, 0, 0, 0)
#define R3(n, a, b, c) rsys(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
#define R4(n, a, b, c, d) rsys(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)
#define R6(n, a, b, c, d, e, f) rsys(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static inline long ret_errno(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

/* ------------------------------------------------------------------ shared report */
#define MAXSW 60000
#define LOGSZ (1 << 22)
#define LOGKEEP (1 << 18) /* the end of the log is for what decides a verdict: failing operations, modifications, the end */
#define NKIND 24
enum { K_MALLOC, K_FREE, K_FUTEX_WAIT, K_FUTEX_WAKE, K_YIELD, K_SPAWN, K_JOIN, K_EXIT, K_MUTEX, K_OPEN, K_READ,
       K_WRITE, K_MMAP, K_SEEK, K_CLOSE, K_STAT, K_RANDOM, K_CLOCK, K_SLEEP, K_USER, K_BLOCK };
struct report {
    uint64_t magic;
    uint64_t steps;      /* yield points passed */
    uint64_t switches;   /* context switches */
    uint64_t threads;    /* threads ever started */
    uint64_t sim_ns;     /* simulated time covered */
    uint64_t ev_hash;    /* hash of every event: kind, thread */
    uint64_t sw_hash;    /* hash of the interleaving: sequence of (thread, kind at the switch) */
    uint64_t n_sw;       /* switch records below (capped) */
    uint64_t n_log;      /* bytes of log */
    uint64_t kinds[NKIND];
    uint64_t spurious, timeouts, ended, random_bytes, mallocs;
    uint64_t sw[MAXSW][2];
    char log[LOGSZ];
};
static struct report *R;
static struct report dummy_head; /* until the real one is mapped (never logs) */

static void put(const char *s) {
    if (!R || R == &dummy_head) return;
    size_t n = strlen(s);
    if (R->n_log + n + 1 >= LOGSZ) return;
    memcpy(R->log + R->n_log, s, n);
    R->n_log += n;
}
static char *num(long long v, char *b) {
    char t[32]; int i = 0, neg = v < 0; unsigned long long u = neg ? -(unsigned long long)v : (unsigned long long)v;
    do { t[i++] = '0' + u % 10; u /= 10; } while (u);
    char *p = b; if (neg) *p++ = '-';
    while (i) *p++ = t[--i];
    *p = 0; return b;
}
static void logev(const char *tag, const char *op, const char *target, long long a, const char *act, long long b) {
    char n1[32], n2[32], n3[32];
    if (R && R->n_log > LOGSZ - LOGKEEP && (*tag == 'O' || !strcmp(act, "short") || !strcmp(act, "eintr"))) return;
    if (R && R->n_log > LOGSZ - 8192) return;
    put(tag); put("\t"); put(num(R ? (long long)R->steps : 0, n1)); put("\t"); put(op); put("\t"); put(target ? target : "-");
    put("\t"); put(num(a, n2)); put("\t"); put(act); put("\t"); put(num(b, n3)); put("\n");
}

/* ------------------------------------------------------------------ configuration */
#define MAXF 512
struct fault { int op; char target[64]; long nth; int plus; int act; long arg; int fired; };
enum { A_EINTR = 1, A_SHORT, A_ERR, A_CRASH, A_CRASHAFTER, A_TORNCRASH };
static struct fault F[MAXF]; static int nF;
struct ovr { uint64_t step; int tid; };
static struct ovr *OV; static int nOV, iOV;
static struct { char target[64]; long cap, used; } CAP[32]; static int nCAP;
static int active;            /* scheduling and faults on */
static int manual;            /* scripted schedule */
static uint64_t seed_s, seed_e;
static uint32_t p_switch = 1u << 26; /* of 2^32 */
static uint32_t p_spur = 0;
static int ncpu = 4;
static uint64_t max_steps = 400000000ull;
static uint64_t kill_step, alloc_fail, spawn_fail, nspawn, nalloc;
static int64_t clock_real0 = 1790000000ll * 1000000000ll;
static int64_t clk_jump[16][2]; static int nclk, iclk; /* at clock-read number, offset */
static int64_t real_off; static uint64_t clk_reads; static uint64_t clk_step = 100;
static int rnd_mode;          /* 1: getrandom unavailable (ENOSYS) */
static uint32_t p_rnd_short, p_rnd_eintr;
static uint32_t p_io_short, p_io_eintr; static uint64_t seed_io; /* benign random I/O splitting */
static int blocks; static uint32_t p_block; static volatile int blocks_on; /* yield points at basic blocks of instrumented code */
static uint64_t pad;         /* shifts heap, mappings and thread stacks: addresses are part of the environment */
static int pct;               /* priority-based schedule */
static uint64_t pct_at[8]; static int npct;
static char root[512]; static size_t rootlen;

static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
static uint64_t rs, re, rio, rw; /* schedule, entropy, I/O, wake-ups: separate streams, so that a scripted schedule keeps the others */
static inline uint64_t nxt(uint64_t *s) { *s += 0x9e3779b97f4a7c15ull; return mix(*s); }

/* ------------------------------------------------------------------ threads */
#define MAXT 512
enum { S_UNUSED, S_RUN, S_FUTEX, S_JOIN, S_SLEEP, S_DONE };
struct thr {
    int state, go, ktid, id, nopre, parked;
    uint32_t *faddr; uint32_t bits; int64_t deadline; int why;
    pthread_t pt; int jt; uint64_t prio;
    void *(*fn)(void *); void *arg;
};
static struct thr T[MAXT]; static int nT = 1; static int reap = -1;
static __thread struct thr *self __attribute__((tls_model("initial-exec")));
static pthread_key_t finkey;
static uint64_t sim_ns; /* monotonic simulated time */

static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_join)(pthread_t, void **);
static int (*r_mlock)(pthread_mutex_t *);
static int (*r_mtry)(pthread_mutex_t *);
static int (*r_dliter)(int (*)(struct dl_phdr_info *, size_t, void *), void *);

static void die(int code) { R1(SYS_exit_group, code); for (;;) ; }
static void crash_now(void) { if (R) R->ended = 1; R2(SYS_kill, R0(SYS_getpid), SIGKILL); for (;;) R0(SYS_pause); }

static inline void hash_ev(int kind, int tid) {
    R->ev_hash = (R->ev_hash ^ (uint64_t)(kind * 131 + tid + 1)) * 0x100000001b3ull;
    R->kinds[kind]++;
}

static void wait_go(struct thr *me) {
    while (!__atomic_load_n(&me->go, __ATOMIC_ACQUIRE)) R6(SYS_futex, &me->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&me->go, 0, __ATOMIC_RELEASE);
    if (reap >= 0) { /* the thread that handed over has ended: let it be gone before going on */
        int k = T[reap].ktid; reap = -1;
        while (R3(SYS_tgkill, R0(SYS_getpid), k, 0) == 0) R0(SYS_sched_yield);
    }
}
static void hand_over(struct thr *nx) {
    __atomic_store_n(&nx->go, 1, __ATOMIC_RELEASE);
    R6(SYS_futex, &nx->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static int runnable(int *ids) { int n = 0; for (int i = 0; i < nT; i++) if (T[i].state == S_RUN) ids[n++] = i; return n; }

static void fire_timers(void) {
    for (int i = 0; i < nT; i++)
        if ((T[i].state == S_FUTEX || T[i].state == S_SLEEP) && T[i].deadline >= 0 && (uint64_t)T[i].deadline <= sim_ns) {
            T[i].why = T[i].state == S_FUTEX ? ETIMEDOUT : 0; T[i].state = S_RUN; R->timeouts++;
        }
}

/* Pick who runs next; me may be blocked, finished or (forced==0) just passing a yield point. */
static void schedule(struct thr *me, int kind, int forced) {
    static int ids[MAXT];
    fire_timers();
    int n = runnable(ids);
    while (n == 0) {
        int64_t best = -1;
        for (int i = 0; i < nT; i++)
            if ((T[i].state == S_FUTEX || T[i].state == S_SLEEP) && T[i].deadline >= 0 && (best < 0 || T[i].deadline < best)) best = T[i].deadline;
        if (best < 0) {
            logev("E", "deadlock", 0, nT, "all threads blocked", 0);
            R->ended = 2; die(97);
        }
        if ((uint64_t)best > sim_ns) sim_ns = best;
        fire_timers();
        n = runnable(ids);
    }
    int next;
    int can_stay = me->state == S_RUN;
    if (manual) {
        next = can_stay && !forced ? me->id : -1;
        while (iOV < nOV && OV[iOV].step < R->steps) iOV++;
        if (iOV < nOV && OV[iOV].step == R->steps) {
            int t = OV[iOV].tid; iOV++;
            if (t >= 0 && t < nT && T[t].state == S_RUN) next = t;
        }
        if (next < 0) { /* round robin after me */
            next = ids[0];
            for (int i = 0; i < n; i++) if (ids[i] > me->id) { next = ids[i]; break; }
        }
    } else if (pct) {
        /* highest priority runs; at change points, and when yielding, the running thread drops to the bottom */
        static uint64_t low = 1ull << 62;
        int chg = forced && can_stay;
        for (int i = 0; i < npct; i++) if (pct_at[i] == R->steps) chg = 1;
        if (chg) me->prio = --low;
        next = ids[0];
        for (int i = 1; i < n; i++) if (T[ids[i]].prio > T[next].prio) next = ids[i];
    } else {
        next = ids[nxt(&rs) % n];
        if (forced && can_stay && next == me->id && n > 1) next = ids[nxt(&rs) % n];
    }
    if (next == me->id) {
        if (forced && R->n_sw < MAXSW) { R->sw[R->n_sw][0] = R->steps; R->sw[R->n_sw][1] = next; R->n_sw++; }
        return;
    }
    R->switches++;
    R->sw_hash = (R->sw_hash ^ (uint64_t)(next * 64 + kind + 1)) * 0x100000001b3ull;
    if (R->n_sw < MAXSW) { R->sw[R->n_sw][0] = R->steps; R->sw[R->n_sw][1] = next; R->n_sw++; }
    int fin = me->state == S_DONE;
    if (fin) reap = me->id;
    sim_ns += 2000;
    hand_over(&T[next]);
    if (!fin) wait_go(me);
}

static inline int simmed(void) { return active && self && self->state != S_DONE; }

static inline void step(int kind) {
    R->steps++; sim_ns += clk_step; R->sim_ns = sim_ns;
    hash_ev(kind, self->id);
    if (kill_step && R->steps == kill_step) { logev("F", "kill", 0, kill_step, "crash", 0); crash_now(); }
    if (R->steps > max_steps) { logev("E", "steplimit", 0, max_steps, "no progress", 0); R->ended = 3; die(98); }
}
static void point(int kind) {
    struct thr *me = self;
    step(kind);
    if (me->nopre) return;
    if (nT == 1) return;
    if (manual) {
        if (iOV < nOV && OV[iOV].step <= R->steps) schedule(me, kind, 0);
        return;
    }
    if (pct) {
        int hit = 0; for (int i = 0; i < npct; i++) if (pct_at[i] == R->steps) hit = 1;
        if (hit || kind == K_FUTEX_WAKE || kind == K_SPAWN) schedule(me, kind, 0);
        return;
    }
    if ((uint32_t)nxt(&rs) < p_switch || (kind != K_MALLOC && kind != K_FREE && (uint32_t)nxt(&rs) < p_switch * 4u && p_switch < (1u << 29)))
        schedule(me, kind, 0);
}
/* exported for harness code */
void sim_yield(void) { if (simmed()) point(K_USER); }
/* called by instrumented code at every basic block: the finest grain of preemption */
void sim_block(void) {
    if (!blocks || !blocks_on || !simmed()) return;
    struct thr *me = self;
    step(K_BLOCK);
    if (me->nopre || nT == 1) return;
    if (manual) { if (iOV < nOV && OV[iOV].step <= R->steps) schedule(me, K_BLOCK, 0); return; }
    if (pct) { for (int i = 0; i < npct; i++) if (pct_at[i] == R->steps) { schedule(me, K_BLOCK, 0); return; } return; }
    if ((uint32_t)nxt(&rs) < p_block) schedule(me, K_BLOCK, 0);
}
void sim_blocks(int on) { blocks_on = on; }
uint64_t sim_step(void) { return R ? R->steps : 0; }
int sim_tid(void) { return self ? self->id : -1; }

static void finish(void *v) {
    intptr_t n = (intptr_t)v;
    if (n < 4) { pthread_setspecific(finkey, (void *)(n + 1)); return; } /* run in the last round of destructors */
    if (!simmed()) return;
    struct thr *me = self;
    step(K_EXIT);
    me->state = S_DONE;
    for (int i = 0; i < nT; i++) if (T[i].state == S_JOIN && T[i].jt == me->id) T[i].state = S_RUN;
    schedule(me, K_EXIT, 1);
}
static void *tramp(void *v) {
    struct thr *me = v; self = me;
    me->ktid = (int)R0(SYS_gettid);
    pthread_setspecific(finkey, (void *)1);
    __atomic_store_n(&me->parked, 1, __ATOMIC_RELEASE);
    R6(SYS_futex, &me->parked, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
    wait_go(me);
    return me->fn(me->arg);
}
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!r_create) r_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!simmed() || nT >= MAXT) return r_create(pt, at, fn, arg);
    nspawn++;
    if (spawn_fail && nspawn >= spawn_fail) { logev("F", "spawn", 0, nspawn, "err", EAGAIN); return EAGAIN; }
    struct thr *c = &T[nT];
    c->id = nT; c->fn = fn; c->arg = arg; c->deadline = -1; c->prio = (1ull << 63) | (nxt(&rw) >> 2);
    self->nopre++;
    int r = r_create(pt, at, tramp, c);
    if (r == 0) {
        while (!__atomic_load_n(&c->parked, __ATOMIC_ACQUIRE)) R6(SYS_futex, &c->parked, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
        c->pt = *pt; c->state = S_RUN; nT++; R->threads = nT;
    }
    self->nopre--;
    if (r == 0) point(K_SPAWN);
    return r;
}
int pthread_join(pthread_t pt, void **ret) {
    if (!r_join) r_join = dlsym(RTLD_NEXT, "pthread_join");
    if (!simmed()) return r_join(pt, ret);
    step(K_JOIN);
    for (int i = nT - 1; i >= 0; i--)
        if (T[i].state != S_UNUSED && pthread_equal(T[i].pt, pt)) {
            if (T[i].state != S_DONE) { self->jt = i; self->state = S_JOIN; schedule(self, K_JOIN, 1); }
            break;
        }
    return r_join(pt, ret);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!r_mlock) r_mlock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!simmed()) return r_mlock(m);
    if (!r_mtry) r_mtry = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    int r;
    point(K_MUTEX);
    while ((r = r_mtry(m)) == EBUSY) { step(K_MUTEX); schedule(self, K_MUTEX, 1); }
    return r;
}
int dl_iterate_phdr(int (*cb)(struct dl_phdr_info *, size_t, void *), void *d) {
    if (!r_dliter) r_dliter = dlsym(RTLD_NEXT, "dl_iterate_phdr");
    if (self) self->nopre++;
    int r = r_dliter(cb, d);
    if (self) self->nopre--;
    return r;
}
int sched_yield(void) {
    if (!simmed()) return (int)R0(SYS_sched_yield);
    step(K_YIELD);
    if (!self->nopre && nT > 1) schedule(self, K_YIELD, 1);
    return 0;
}

/* ------------------------------------------------------------------ futex */
static int64_t abs_deadline(const struct timespec *ts, int absolute, int realtime) {
    if (!ts) return -1;
    int64_t v = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (!absolute) return (int64_t)sim_ns + v;
    if (realtime) v -= clock_real0 + real_off;
    else v -= 1000000000ll; /* the monotonic clock starts at one second */
    return v < 0 ? 0 : v;
}
static long do_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t *addr2, uint32_t val3) {
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        point(K_FUTEX_WAIT);
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        if (p_spur && (uint32_t)nxt(&rw) < p_spur) { R->spurious++; sched_yield(); return 0; }
        struct thr *me = self;
        me->faddr = addr; me->bits = cmd == FUTEX_WAIT ? ~0u : val3; me->why = 0;
        me->deadline = abs_deadline(ts, cmd == FUTEX_WAIT_BITSET, (op & FUTEX_CLOCK_REALTIME) != 0);
        me->state = S_FUTEX;
        R->steps++; /* every scheduling decision has a step of its own */
        schedule(me, K_FUTEX_WAIT, 1);
        me->deadline = -1;
        if (me->why) { errno = me->why; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        step(K_FUTEX_WAKE);
        uint32_t bits = cmd == FUTEX_WAKE ? ~0u : val3;
        long woken = 0;
        while (woken < (long)val) {
            int c[MAXT], n = 0;
            for (int i = 0; i < nT; i++) if (T[i].state == S_FUTEX && T[i].faddr == addr && (T[i].bits & bits)) c[n++] = i;
            if (!n) break;
            int w = c[nxt(&rw) % n];
            T[w].state = S_RUN; T[w].why = 0; woken++;
        }
        if (!self->nopre && nT > 1 && woken) {
            if (manual) { if (iOV < nOV && OV[iOV].step <= R->steps) schedule(self, K_FUTEX_WAKE, 0); }
            else if (pct || (nxt(&rs) & 1)) schedule(self, K_FUTEX_WAKE, 0);
        }
        return woken;
    }
    return ret_errno(R6(SYS_futex, addr, op, val, ts, addr2, val3));
}

/* ------------------------------------------------------------------ entropy, clock, CPUs */
static ssize_t sim_random(void *buf, size_t n) {
    if (n > 256) { if (p_rnd_short && (uint32_t)nxt(&re) < p_rnd_short) n = 256; }
    else if (p_rnd_short && n > 1 && (uint32_t)nxt(&rio) < p_rnd_short) { n = 1 + nxt(&rio) % (n - 1); logev("F", "getrandom", 0, n, "short", 0); }
    unsigned char *p = buf; uint64_t v = 0;
    for (size_t i = 0; i < n; i++) { if (i % 8 == 0) v = nxt(&re); p[i] = v >> (8 * (i % 8)); }
    R->random_bytes += n;
    return n;
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    if (!simmed()) return ret_errno(R3(SYS_getrandom, buf, n, fl));
    point(K_RANDOM);
    if (rnd_mode == 1) { logev("F", "getrandom", 0, n, "err", ENOSYS); errno = ENOSYS; return -1; }
    if (p_rnd_eintr && (uint32_t)nxt(&rio) < p_rnd_eintr) { logev("F", "getrandom", 0, n, "eintr", 0); errno = EINTR; return -1; }
    return sim_random(buf, n);
}
int getentropy(void *buf, size_t n) {
    if (!simmed()) { size_t o = 0; while (o < n) { long r = R3(SYS_getrandom, (char *)buf + o, n - o, 0); if (r <= 0) { errno = EIO; return -1; } o += r; } return 0; }
    point(K_RANDOM);
    if (n > 256) { errno = EIO; return -1; }
    size_t o = 0; while (o < n) { o += sim_random((char *)buf + o, n - o); }
    return 0;
}
static void sim_clock(int id, struct timespec *ts) {
    clk_reads++;
    while (iclk < nclk && (uint64_t)clk_jump[iclk][0] <= clk_reads) {
        if (clk_jump[iclk][1] > 0 ) sim_ns += clk_jump[iclk][1]; else real_off += clk_jump[iclk][1];
        logev("F", "clock", 0, clk_reads, "jump", clk_jump[iclk][1] / 1000000); iclk++;
    }
    sim_ns += 50;
    int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? clock_real0 + real_off + (int64_t)sim_ns : (int64_t)sim_ns + 1000000000ll;
    ts->tv_sec = v / 1000000000ll; ts->tv_nsec = v % 1000000000ll;
    if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000ll; ts->tv_sec--; }
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!simmed()) return (int)ret_errno(R2(SYS_clock_gettime, id, ts));
    point(K_CLOCK); sim_clock(id, ts); return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (!simmed()) return (int)ret_errno(R2(SYS_gettimeofday, tv, tz));
    struct timespec ts; point(K_CLOCK); sim_clock(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    if (simmed()) { point(K_CLOCK); sim_clock(CLOCK_REALTIME, &ts); } else R2(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
static void sim_sleep(int64_t ns) {
    step(K_SLEEP);
    self->deadline = (int64_t)sim_ns + (ns > 0 ? ns : 0); self->state = S_SLEEP;
    schedule(self, K_SLEEP, 1); self->deadline = -1;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!simmed()) return (int)ret_errno(R2(SYS_nanosleep, a, b));
    sim_sleep(a->tv_sec * 1000000000ll + a->tv_nsec); return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
    if (!simmed()) { long r = R4(SYS_clock_nanosleep, id, fl, a, b); return (int)-r; }
    int64_t v = a->tv_sec * 1000000000ll + a->tv_nsec;
    if (fl & TIMER_ABSTIME) v = abs_deadline(a, 1, id == CLOCK_REALTIME) - (int64_t)sim_ns;
    sim_sleep(v); return 0;
}
int usleep(useconds_t u) { struct timespec t = { u / 1000000, (u % 1000000) * 1000 }; return nanosleep(&t, 0); }
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *m) {
    if (!simmed()) { long r = R3(SYS_sched_getaffinity, pid, n, m); if (r < 0) return (int)ret_errno(r); memset((char *)m + r, 0, n - r); return 0; }
    step(K_STAT);
    memset(m, 0, n);
    for (int i = 0; i < ncpu && (size_t)i < n * 8; i++) CPU_SET_S(i, n, m);
    return 0;
}
/* the identity of the process and its threads is part of the environment: it follows from the entropy seed */
static int sim_pid(void) { return 300 + (int)(mix(seed_e ^ 0x706964) % 30000); }
pid_t getpid(void) { return simmed() ? sim_pid() : (pid_t)R0(SYS_getpid); }
pid_t gettid(void) { return simmed() ? sim_pid() + self->id : (pid_t)R0(SYS_gettid); }
pid_t getppid(void) { return simmed() ? 299 : (pid_t)R0(SYS_getppid); }
long sysconf(int name) {
    static long (*r)(int);
    if (simmed() && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return ncpu;
    if (!r) r = dlsym(RTLD_NEXT, "sysconf");
    return r(name);
}

/* ------------------------------------------------------------------ memory: yield points and failing allocations */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);
static inline int afail(void) {
    nalloc++; R->mallocs = nalloc;
    if (alloc_fail && nalloc == alloc_fail) { logev("F", "alloc", 0, nalloc, "err", ENOMEM); errno = ENOMEM; return 1; }
    return 0;
}
void *malloc(size_t n) { if (simmed()) { point(K_MALLOC); if (afail()) return 0; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (simmed()) { point(K_MALLOC); if (afail()) return 0; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (simmed()) { point(K_MALLOC); if (afail()) return 0; } return __libc_realloc(p, n); }
void free(void *p) { if (p && simmed()) point(K_FREE); __libc_free(p); }
int posix_memalign(void **o, size_t al, size_t n) {
    if (simmed()) { point(K_MALLOC); if (afail()) return ENOMEM; }
    void *p = __libc_memalign(al, n); if (!p) return ENOMEM; *o = p; return 0;
}
void *aligned_alloc(size_t al, size_t n) { if (simmed()) { point(K_MALLOC); if (afail()) return 0; } return __libc_memalign(al, n); }
void *memalign(size_t al, size_t n) { return aligned_alloc(al, n); }

/* ------------------------------------------------------------------ files */
#define MAXFD 1024
static char fdname[MAXFD][64]; /* "" = not tracked */
enum { OP_OPEN, OP_READ, OP_WRITE, OP_MMAP, OP_SEEK, OP_STAT, OP_CLOSE, OP_SYNC, NOPS };
static const char *opname[NOPS] = { "open", "read", "write", "mmap", "seek", "stat", "close", "sync" };
#define MAXC 512
static struct { int op; char target[64]; long n; } CNT[MAXC]; static int nCNT;

static int target_is(const char *t, const char *want) { return !strcmp(want, "*") || !strcmp(t, want); }
static long bump(int op, const char *t) {
    for (int i = 0; i < nCNT; i++) if (CNT[i].op == op && !strcmp(CNT[i].target, t)) return ++CNT[i].n;
    if (nCNT < MAXC) { CNT[nCNT].op = op; strncpy(CNT[nCNT].target, t, 63); CNT[nCNT].n = 1; nCNT++; }
    return 1;
}
static struct fault *fault_for(int op, const char *t, long n) {
    for (int i = 0; i < nF; i++)
        if (F[i].op == op && target_is(t, F[i].target) && (F[i].nth == n || (F[i].plus && n >= F[i].nth))) { F[i].fired++; return &F[i]; }
    return 0;
}
static const char *base(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }
static int inside(const char *p, char *full) {
    /* names below the root, given absolutely or relative to it (the process runs in the root) */
    if (strstr(p, "..")) { /* resolve the parent directory lexically: not tracked unless it stays inside */
        char tmp[PATH_MAX]; if (!realpath(p, tmp)) return 0;
        strncpy(full, tmp, PATH_MAX - 1); full[PATH_MAX - 1] = 0;
        return !strncmp(tmp, root, rootlen) && tmp[rootlen] == '/';
    }
    if (p[0] == '/') { strncpy(full, p, PATH_MAX - 1); full[PATH_MAX - 1] = 0; return !strncmp(p, root, rootlen) && p[rootlen] == '/'; }
    snprintf(full, PATH_MAX, "%s/%s", root, p);
    return 1;
}
/* /tmp and the home directory exist only below the root, as .tmp and .home: what a process leaves there outlives it,
 * and the snapshots of the root show it */
static const char *tr(const char *p, char *buf) {
    static const char *const from[] = { "/tmp", "/var/tmp", "/home/sim" }, *const to[] = { ".tmp", ".tmp", ".home" };
    if (!p || p[0] != '/' || (!strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]))) return p;
    for (int i = 0; i < 3; i++) {
        size_t n = strlen(from[i]);
        if (!strncmp(p, from[i], n) && (p[n] == '/' || !p[n])) { snprintf(buf, PATH_MAX, "%s/%s%s", root, to[i], p + n); return buf; }
    }
    return p;
}
static int harmless(const char *p) { return !strncmp(p, "/dev/", 5); }

static int do_open(int dirfd, const char *p, int fl, mode_t mode) {
    if (!simmed() || !p) return (int)ret_errno(R4(SYS_openat, dirfd, p, fl, mode));
    char full[PATH_MAX], moved[PATH_MAX];
    p = tr(p, moved);
    int in = inside(p, full);
    int wr = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC));
    if (!in) {
        if (!strncmp(p, "/proc/self/cgroup", 17) || !strncmp(p, "/sys/fs/cgroup", 14)) { errno = ENOENT; return -1; }
        if (wr && !harmless(p)) { logev("M", "open-outside", p, fl, "denied", 0); errno = EROFS; return -1; }
        if (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")) {
            int fd = (int)R4(SYS_openat, dirfd, p, fl, mode);
            if (fd >= 0 && fd < MAXFD) strcpy(fdname[fd], "@random");
            return (int)ret_errno(fd);
        }
        return (int)ret_errno(R4(SYS_openat, dirfd, p, fl, mode));
    }
    const char *t = full + rootlen + 1;
    point(K_OPEN); sim_ns += 20000;
    long n = bump(OP_OPEN, t);
    logev("O", "open", t, n, wr ? ((fl & O_TRUNC) ? "trunc" : (fl & O_APPEND) ? "append" : "write") : "read", fl);
    struct fault *f = fault_for(OP_OPEN, t, n);
    if (f) {
        if (f->act == A_EINTR) { logev("F", "open", t, n, "eintr", 0); errno = EINTR; return -1; }
        if (f->act == A_ERR) { logev("F", "open", t, n, "err", f->arg); errno = (int)f->arg; return -1; }
        if (f->act == A_CRASH) { logev("F", "open", t, n, "crash", 0); crash_now(); }
    }
    int fd = (int)R4(SYS_openat, dirfd, p, fl, mode);
    if (f && f->act == A_CRASHAFTER) { logev("F", "open", t, n, "crashafter", 0); crash_now(); }
    if (fd >= 0 && fd < MAXFD) { strncpy(fdname[fd], t, 63); fdname[fd][63] = 0; }
    return (int)ret_errno(fd);
}
static mode_t getmode(int fl, va_list ap) { return (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; }
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = getmode(fl, ap); va_end(ap); return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = getmode(fl, ap); va_end(ap); return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = getmode(fl, ap); va_end(ap); return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = getmode(fl, ap); va_end(ap); return do_open(d, p, fl | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static const char *name_of(int fd) {
    if (fd >= 0 && fd < MAXFD && fdname[fd][0]) return fdname[fd];
    return 0;
}
int close(int fd) {
    const char *t = simmed() ? name_of(fd) : 0;
    if (t && t[0] != '@') {
        point(K_CLOSE);
        long n = bump(OP_CLOSE, t); struct fault *f = fault_for(OP_CLOSE, t, n);
        if (f && f->act == A_CRASH) { logev("F", "close", t, n, "crash", 0); crash_now(); }
    }
    if (fd >= 0 && fd < MAXFD && fd > 2) fdname[fd][0] = 0;
    return (int)ret_errno(R1(SYS_close, fd));
}
/* Decides a data transfer: returns 1 with *ret set when it is over, else the (possibly reduced) length in *len. */
static int transfer_fault(int op, const char *t, size_t *len, ssize_t *ret, int *after) {
    point(op == OP_READ ? K_READ : K_WRITE); sim_ns += 10000 + *len * 10;
    long n = bump(op, t);
    struct fault *f = fault_for(op, t, n);
    if (op == OP_WRITE) logev("O", "write", t, n, "len", *len);
    else logev("O", "read", t, n, "len", *len);
    if (f) switch (f->act) {
        case A_EINTR: logev("F", opname[op], t, n, "eintr", 0); errno = EINTR; *ret = -1; return 1;
        case A_ERR: logev("F", opname[op], t, n, "err", f->arg); errno = (int)f->arg; *ret = -1; return 1;
        case A_SHORT: if (*len > 1 && (size_t)f->arg < *len) { *len = f->arg < 1 ? 1 : f->arg; logev("F", opname[op], t, n, "short", *len); } break;
        case A_CRASH: logev("F", opname[op], t, n, "crash", 0); crash_now(); break;
        case A_CRASHAFTER: logev("F", opname[op], t, n, "crashafter", 0); *after = 1; break;
        case A_TORNCRASH: if ((size_t)f->arg < *len) *len = f->arg; logev("F", opname[op], t, n, "torncrash", *len); *after = 1; break;
    }
    else {
        if (p_io_eintr && (uint32_t)nxt(&rio) < p_io_eintr) { logev("F", opname[op], t, n, "eintr", 0); errno = EINTR; *ret = -1; return 1; }
        if (p_io_short && *len > 1 && (uint32_t)nxt(&rio) < p_io_short) {
            uint64_t m = nxt(&rio) % 4;
            size_t l = m == 0 ? 1 : m == 1 ? 1 + nxt(&rio) % (*len < 16 ? *len : 16) : 1 + nxt(&rio) % *len;
            if (l < *len) { *len = l; logev("F", opname[op], t, n, "short", l); }
        }
    }
    if (op == OP_WRITE)
        for (int i = 0; i < nCAP; i++) if (target_is(t, CAP[i].target)) {
            long left = CAP[i].cap - CAP[i].used;
            if (left <= 0) { logev("F", "write", t, n, "full", CAP[i].cap); errno = ENOSPC; *ret = -1; return 1; }
            if ((long)*len > left) { *len = left; logev("F", "write", t, n, "partfull", left); }
            CAP[i].used += *len;
        }
    return 0;
}
static ssize_t fin_after(ssize_t r, int after) { if (after) crash_now(); return r; }
ssize_t read(int fd, void *b, size_t n) {
    const char *t = simmed() ? name_of(fd) : 0;
    if (!t) return ret_errno(R3(SYS_read, fd, b, n));
    if (!strcmp(t, "@random")) { point(K_RANDOM); return sim_random(b, n); }
    ssize_t ret; int after = 0;
    if (transfer_fault(OP_READ, t, &n, &ret, &after)) return ret;
    return fin_after(ret_errno(R3(SYS_read, fd, b, n)), after);
}
ssize_t pread64(int fd, void *b, size_t n, off_t off) {
    const char *t = simmed() ? name_of(fd) : 0; ssize_t ret; int after = 0;
    if (t && transfer_fault(OP_READ, t, &n, &ret, &after)) return ret;
    return fin_after(ret_errno(R4(SYS_pread64, fd, b, n, off)), after);
}
ssize_t pread(int fd, void *b, size_t n, off_t off) { return pread64(fd, b, n, off); }
ssize_t write(int fd, const void *b, size_t n) {
    const char *t = simmed() ? name_of(fd) : 0;
    if (!t) return ret_errno(R3(SYS_write, fd, b, n));
    ssize_t ret; int after = 0;
    if (transfer_fault(OP_WRITE, t, &n, &ret, &after)) return ret;
    return fin_after(ret_errno(R3(SYS_write, fd, b, n)), after);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t off) {
    const char *t = simmed() ? name_of(fd) : 0; ssize_t ret; int after = 0;
    if (t && transfer_fault(OP_WRITE, t, &n, &ret, &after)) return ret;
    return fin_after(ret_errno(R4(SYS_pwrite64, fd, b, n, off)), after);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return pwrite64(fd, b, n, off); }
static ssize_t vec(int op, int fd, const struct iovec *iv, int c) {
    const char *t = simmed() ? name_of(fd) : 0;
    long nr = op == OP_READ ? SYS_readv : SYS_writev;
    if (!t || t[0] == '@') return ret_errno(R3(nr, fd, iv, c));
    size_t total = 0; for (int i = 0; i < c; i++) total += iv[i].iov_len;
    size_t n = total; ssize_t ret; int after = 0;
    if (transfer_fault(op, t, &n, &ret, &after)) return ret;
    if (n == total) return fin_after(ret_errno(R3(nr, fd, iv, c)), after);
    struct iovec v[64]; int k = 0; size_t left = n;
    for (int i = 0; i < c && k < 64 && left; i++) { v[k] = iv[i]; if (v[k].iov_len > left) v[k].iov_len = left; left -= v[k].iov_len; k++; }
    return fin_after(ret_errno(R3(nr, fd, v, k)), after);
}
ssize_t readv(int fd, const struct iovec *iv, int c) { return vec(OP_READ, fd, iv, c); }
ssize_t writev(int fd, const struct iovec *iv, int c) { return vec(OP_WRITE, fd, iv, c); }
static int simple_fault(int op, const char *t, int kind) {
    point(kind);
    long n = bump(op, t); struct fault *f = fault_for(op, t, n);
    logev("O", opname[op], t, n, "-", 0);
    if (!f) return 0;
    if (f->act == A_CRASH || f->act == A_CRASHAFTER) { logev("F", opname[op], t, n, "crash", 0); crash_now(); }
    if (f->act == A_EINTR) { logev("F", opname[op], t, n, "eintr", 0); errno = EINTR; return 1; }
    if (f->act == A_ERR) { logev("F", opname[op], t, n, "err", f->arg); errno = (int)f->arg; return 1; }
    return 0;
}
off_t lseek64(int fd, off_t o, int w) {
    const char *t = simmed() ? name_of(fd) : 0;
    if (t && t[0] != '@' && fd > 2 && simple_fault(OP_SEEK, t, K_SEEK)) return -1;
    return ret_errno(R3(SYS_lseek, fd, o, w));
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int fsync(int fd) { const char *t = simmed() ? name_of(fd) : 0; if (t && simple_fault(OP_SYNC, t, K_SEEK)) return -1; return (int)ret_errno(R1(SYS_fsync, fd)); }
int fdatasync(int fd) { const char *t = simmed() ? name_of(fd) : 0; if (t && simple_fault(OP_SYNC, t, K_SEEK)) return -1; return (int)ret_errno(R1(SYS_fdatasync, fd)); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t off) {
    const char *t = simmed() && fd >= 0 && !(fl & MAP_ANONYMOUS) ? name_of(fd) : 0;
    if (t && simple_fault(OP_MMAP, t, K_MMAP)) return MAP_FAILED;
    long r = R6(SYS_mmap, a, n, pr, fl, fd, off);
    if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
    return (void *)r;
}
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t off) { return mmap64(a, n, pr, fl, fd, off); }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *st) {
    const char *volatile vp = p; const char *q = vp; /* Rust probes statx with a null path, which its prototype forbids */
    const char *t = simmed() && q && !q[0] ? name_of(d) : 0;
    if (t && t[0] != '@' && d > 2 && simple_fault(OP_STAT, t, K_STAT)) return -1;
    char moved[PATH_MAX];
    if (simmed() && q && q[0]) q = tr(q, moved);
    return (int)ret_errno(R6(SYS_statx, d, q, fl, mask, st, 0));
}
int fstat64(int fd, struct stat64 *st) {
    const char *t = simmed() ? name_of(fd) : 0;
    if (t && t[0] != '@' && fd > 2 && simple_fault(OP_STAT, t, K_STAT)) return -1;
    return (int)ret_errno(R2(SYS_fstat, fd, st));
}
#define TR(p) char m_##p[PATH_MAX]; if (simmed()) p = tr(p, m_##p)
/* path-changing calls: recorded; outside the root they are refused */
static int mut(const char *what, const char *p, const char *q) {
    if (!simmed()) return 0;
    char full[PATH_MAX]; step(K_STAT);
    int in = p ? inside(p, full) : 1;
    logev("M", what, p ? (in ? full + rootlen + 1 : p) : "-", 0, in ? "inside" : "denied", 0);
    int in2 = 1;
    if (q) { in2 = inside(q, full); logev("M", what, in2 ? full + rootlen + 1 : q, 1, in2 ? "inside" : "denied", 0); }
    if (!in || !in2) { errno = EROFS; return 1; }
    return 0;
}
int unlink(const char *p) { TR(p); if (mut("unlink", p, 0)) return -1; return (int)ret_errno(R1(SYS_unlink, p)); }
int unlinkat(int d, const char *p, int f) { TR(p); if (mut("unlink", p, 0)) return -1; return (int)ret_errno(R3(SYS_unlinkat, d, p, f)); }
int remove(const char *p) { TR(p); if (mut("unlink", p, 0)) return -1; long r = R1(SYS_unlink, p); if (r == -EISDIR) r = R1(SYS_rmdir, p); return (int)ret_errno(r); }
int rmdir(const char *p) { TR(p); if (mut("rmdir", p, 0)) return -1; return (int)ret_errno(R1(SYS_rmdir, p)); }
int mkdir(const char *p, mode_t m) { TR(p); if (mut("mkdir", p, 0)) return -1; return (int)ret_errno(R2(SYS_mkdir, p, m)); }
int rename(const char *p, const char *q) { TR(p); TR(q); if (mut("rename", p, q)) return -1; return (int)ret_errno(R2(SYS_rename, p, q)); }
int renameat(int a, const char *p, int b, const char *q) { TR(p); TR(q); if (mut("rename", p, q)) return -1; return (int)ret_errno(R4(SYS_renameat, a, p, b, q)); }
int link(const char *p, const char *q) { TR(p); TR(q); if (mut("link", p, q)) return -1; return (int)ret_errno(R2(SYS_link, p, q)); }
int linkat(int a, const char *p, int b, const char *q, int f) { TR(p); TR(q); if (mut("link", p, q)) return -1; return (int)ret_errno(R6(SYS_linkat, a, p, b, q, f, 0)); }
int symlink(const char *p, const char *q) { TR(q); if (mut("symlink", q, 0)) return -1; return (int)ret_errno(R2(SYS_symlink, p, q)); }
int truncate64(const char *p, off_t n) { TR(p); if (mut("truncate", p, 0)) return -1; return (int)ret_errno(R2(SYS_truncate, p, n)); }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int ftruncate64(int fd, off_t n) {
    const char *t = simmed() ? name_of(fd) : 0;
    if (t) logev("M", "ftruncate", t, n, "inside", 0);
    return (int)ret_errno(R2(SYS_ftruncate, fd, n));
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int chmod(const char *p, mode_t m) { TR(p); if (mut("chmod", p, 0)) return -1; return (int)ret_errno(R2(SYS_chmod, p, m)); }
int fchmod(int fd, mode_t m) { const char *t = simmed() ? name_of(fd) : 0; if (t) logev("M", "chmod", t, m, "inside", 0); return (int)ret_errno(R2(SYS_fchmod, fd, m)); }

long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (simmed()) {
        if (n == SYS_futex) return do_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f);
        if (n == SYS_gettid) return gettid();
        if (n == SYS_getpid) return getpid();
        if (n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
        if (n == SYS_clock_gettime) return clock_gettime((clockid_t)a, (struct timespec *)b);
        if (n == SYS_sched_getaffinity) { int r = sched_getaffinity((pid_t)a, (size_t)b, (cpu_set_t *)c); return r < 0 ? r : (long)b; }
        if (n == SYS_openat) return do_open((int)a, (const char *)b, (int)c, (mode_t)d);
        if (n == SYS_renameat2) { if (mut("rename", (const char *)b, (const char *)d)) return -1; }
    }
    return ret_errno(R6(n, a, b, c, d, e, f));
}

/* ------------------------------------------------------------------ start */
static char *cfgbuf;
static long tok(char **p) { char *e; long v = strtoll(*p, &e, 10); *p = e; return v; }
static uint64_t utok(char **p) { char *e; uint64_t v = strtoull(*p, &e, 10); *p = e; return v; }
static int word(char **p, char *o, int max) {
    while (**p == ' ') (*p)++;
    int i = 0; while (**p && **p != ' ' && **p != '\n') { if (i < max - 1) o[i++] = **p; (*p)++; }
    o[i] = 0; return i;
}
static void bad(const char *m) { R3(SYS_write, 2, m, strlen(m)); R3(SYS_write, 2, "\n", 1); die(99); }
static void parse_conf(const char *path) {
    int fd = (int)R4(SYS_openat, AT_FDCWD, path, O_RDONLY, 0);
    if (fd < 0) bad("sim: cannot open configuration");
    struct stat st; memset(&st, 0, sizeof st); R2(SYS_fstat, fd, &st);
    size_t n = st.st_size;
    cfgbuf = (char *)R6(SYS_mmap, 0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    size_t o = 0; while (o < n) { long r = R3(SYS_read, fd, cfgbuf + o, n - o); if (r <= 0) break; o += r; }
    cfgbuf[o] = 0; R1(SYS_close, fd);
    int ovcap = 0; for (size_t i = 0; i < o; i++) if (cfgbuf[i] == '\n') ovcap++;
    OV = (struct ovr *)R6(SYS_mmap, 0, (ovcap + 1) * sizeof *OV, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    char *p = cfgbuf; char w[64], v[64];
    while (*p) {
        word(&p, w, 64);
        if (!strcmp(w, "root")) { while (*p == ' ') p++; int i = 0; while (*p && *p != '\n' && i < 510) root[i++] = *p++; root[i] = 0; rootlen = i; }
        else if (!strcmp(w, "sched_seed")) seed_s = utok(&p);
        else if (!strcmp(w, "pad")) pad = utok(&p);
        else if (!strcmp(w, "entropy_seed")) seed_e = utok(&p);
        else if (!strcmp(w, "io_seed")) seed_io = utok(&p);
        else if (!strcmp(w, "p_switch")) p_switch = (uint32_t)utok(&p);
        else if (!strcmp(w, "p_spurious")) p_spur = (uint32_t)utok(&p);
        else if (!strcmp(w, "p_rnd_short")) p_rnd_short = (uint32_t)utok(&p);
        else if (!strcmp(w, "p_rnd_eintr")) p_rnd_eintr = (uint32_t)utok(&p);
        else if (!strcmp(w, "p_io_short")) p_io_short = (uint32_t)utok(&p);
        else if (!strcmp(w, "p_io_eintr")) p_io_eintr = (uint32_t)utok(&p);
        else if (!strcmp(w, "rnd_enosys")) rnd_mode = (int)utok(&p);
        else if (!strcmp(w, "ncpu")) ncpu = (int)tok(&p);
        else if (!strcmp(w, "max_steps")) max_steps = utok(&p);
        else if (!strcmp(w, "kill_step")) kill_step = utok(&p);
        else if (!strcmp(w, "alloc_fail")) alloc_fail = utok(&p);
        else if (!strcmp(w, "spawn_fail")) spawn_fail = utok(&p);
        else if (!strcmp(w, "clock0")) clock_real0 = (int64_t)utok(&p);
        else if (!strcmp(w, "clock_step")) clk_step = utok(&p);
        else if (!strcmp(w, "clock_jump")) { if (nclk < 16) { clk_jump[nclk][0] = tok(&p); clk_jump[nclk][1] = tok(&p); nclk++; } }
        else if (!strcmp(w, "blocks")) blocks = (int)tok(&p);
        else if (!strcmp(w, "p_block")) p_block = (uint32_t)utok(&p);
        else if (!strcmp(w, "manual")) manual = (int)tok(&p);
        else if (!strcmp(w, "pct")) pct = (int)tok(&p);
        else if (!strcmp(w, "pct_at")) { if (npct < 8) pct_at[npct++] = utok(&p); }
        else if (!strcmp(w, "switch")) { OV[nOV].step = utok(&p); OV[nOV].tid = (int)tok(&p); nOV++; }
        else if (!strcmp(w, "cap")) { if (nCAP < 32) { word(&p, CAP[nCAP].target, 64); CAP[nCAP].cap = tok(&p); nCAP++; } }
        else if (!strcmp(w, "fault")) {
            if (nF >= MAXF) bad("sim: too many faults");
            struct fault *f = &F[nF++];
            word(&p, v, 64); f->op = -1; for (int i = 0; i < NOPS; i++) if (!strcmp(v, opname[i])) f->op = i;
            word(&p, f->target, 64); f->nth = tok(&p); if (*p == '+') { f->plus = 1; p++; }
            word(&p, v, 64);
            f->act = !strcmp(v, "eintr") ? A_EINTR : !strcmp(v, "short") ? A_SHORT : !strcmp(v, "err") ? A_ERR : !strcmp(v, "crash") ? A_CRASH
                   : !strcmp(v, "crashafter") ? A_CRASHAFTER : !strcmp(v, "torncrash") ? A_TORNCRASH : 0;
            f->arg = tok(&p);
            if (f->op < 0 || !f->act) bad("sim: bad fault");
        }
        else if (w[0] && w[0] != '#') { R3(SYS_write, 2, w, strlen(w)); bad(": sim: unknown setting"); }
        while (*p && *p != '\n') p++;
        if (*p) p++;
    }
}
static int initialised;
static void init(void) {
    if (initialised) return;
    initialised = 1;
    R = &dummy_head;
    const char *conf = getenv("SIM_CONF"), *out = getenv("SIM_OUT");
    if (!conf || !out) return;
    parse_conf(conf);
    int fd = (int)R4(SYS_openat, AT_FDCWD, out, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) bad("sim: cannot open report");
    R2(SYS_ftruncate, fd, sizeof(struct report));
    long m = R6(SYS_mmap, 0, sizeof(struct report), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m < 0 && m > -4096) bad("sim: cannot map report");
    R1(SYS_close, fd);
    R = (struct report *)m;
    R->magic = 0x53494d31; R->ev_hash = R->sw_hash = 0xcbf29ce484222325ull;
    rs = mix(seed_s ^ 0x1111); re = mix(seed_e ^ 0x2222); rio = mix(seed_io ^ 0x3333); rw = mix(seed_s ^ 0x4444);
    strcpy(fdname[1], "stdout"); strcpy(fdname[2], "stderr");
    r_create = dlsym(RTLD_NEXT, "pthread_create"); r_join = dlsym(RTLD_NEXT, "pthread_join");
    r_mlock = dlsym(RTLD_NEXT, "pthread_mutex_lock"); r_mtry = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    r_dliter = dlsym(RTLD_NEXT, "dl_iterate_phdr");
    sysconf(_SC_PAGESIZE);
    pthread_key_create(&finkey, finish);
    T[0].id = 0; T[0].state = S_RUN; T[0].deadline = -1; T[0].ktid = (int)R0(SYS_gettid); T[0].pt = pthread_self();
    T[0].prio = (1ull << 63) | (nxt(&rw) >> 2);
    self = &T[0];
    R->threads = 1;
    unsetenv("LD_PRELOAD"); unsetenv("SIM_CONF"); unsetenv("SIM_OUT");
}
static int (*real_main)(int, char **, char **);
static int sim_main(int c, char **v, char **e) {
    init();
    volatile char *stack = 0;
    if (pad) {
        sbrk((pad % 4099) * 16);
        R6(SYS_mmap, 0, (pad % 257 + 1) * 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        size_t n = (pad % 1021 + 1) * 16;
        stack = __builtin_alloca(n);
        stack[0] = 0;
    }
    active = R != &dummy_head;
    int r = real_main(c, v, e);
    return r + (stack ? stack[0] : 0);
}
int __libc_start_main(int (*m)(int, char **, char **), int c, char **v, int (*i)(int, char **, char **), void (*f)(void), void (*rf)(void), void *se) {
    int (*orig)(int (*)(int, char **, char **), int, char **, int (*)(int, char **, char **), void (*)(void), void (*)(void), void *) = dlsym(RTLD_NEXT, "__libc_start_main");
    real_main = m;
    return orig(sim_main, c, v, i, f, rf, se);
}
