/*
 * libsim: a simulated operating system for one process.
 *
 * Preloaded into (or linked to) an unmodified program, it owns every source of
 * nondeterminism that program has: file and stream I/O, clocks, randomness,
 * identity, memory allocation, threads and blocking.  Everything it does is
 * decided by one text plan (SIM_PLAN), so a plan is one exactly repeatable
 * execution.  What happened is recorded in a shared file (SIM_TRACE) that
 * survives SIGKILL.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define TLS static __thread __attribute__((tls_model("initial-exec")))
#define NOINLINE __attribute__((noinline))

typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;

/* ------------------------------------------------------------------ */
/* raw system calls                                                    */

static inline long rsys6(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
#define RS(n, ...) RS_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RS_(n, a, b, c, d, e, f, ...) \
    rsys6((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static long sret(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

static void die(const char *msg) {
    RS(SYS_write, 2, "libsim: ", 8);
    RS(SYS_write, 2, msg, strlen(msg));
    RS(SYS_write, 2, "\n", 1);
    RS(SYS_exit_group, 87);
    __builtin_unreachable();
}

/* ------------------------------------------------------------------ */
/* PRNG (splitmix64)                                                   */

static u64 mix(u64 *s) {
    u64 z = (*s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

/* ------------------------------------------------------------------ */
/* classes of operations that can be faulted                           */

enum {
    C_OPENW, C_OPENR, C_WFILE, C_WOUT, C_WERR, C_READ, C_CLOSE, C_SYNC, C_RENAME,
    C_UNLINK, C_TRUNC, C_MKDIR, C_LINK, C_STAT, C_SEEK, C_LOCK, C_MISC, C_NCLASS
};
static const char *const cname[C_NCLASS] = {
    "openw", "openr", "wfile", "wout", "werr", "read", "close", "sync", "rename",
    "unlink", "trunc", "mkdir", "link", "stat", "seek", "lock", "misc"};

enum { A_NONE, A_ERR, A_SHORT, A_KILL, A_KILLAFTER, A_KILLMID, A_ZERO };

typedef struct {
    int cls, act;
    u64 lo, hi, mod;
    i64 arg;
} fault_t;

#define MAXFAULT 64
#define MAXPRE 65536
#define MAXTHR 64

/* ------------------------------------------------------------------ */
/* shared trace                                                        */

#define EVBYTES (1 << 20)
typedef struct {
    u64 step;
    u32 tid;
    u32 site;
} pre_t;

typedef struct {
    u64 magic;
    u64 allocs, frees, live, peak;
    u64 simtime, clockreads, randreads;
    u64 steps, switches, npre, prelost;
    u64 evlen, evlost, evhash;
    u64 verdict; /* 0 running, 1 exited, 2 killed by plan, 3 deadlock, 4 step limit, 5 blocked by stall, 6 stall end, 7 alloc fail fired */
    u64 allocfail_fired;
    u64 ops[C_NCLASS];
    u64 fired[MAXFAULT];
    u64 cover, nguard;
    u64 stalled;
    u64 marks;
    u64 getenvs;
    u64 blocks;     /* times a thread blocked */
    u64 ambient;    /* number of ambient reads inside a marked window */
    u64 hash;       /* schedule hash */
    u64 diskfull, pipefull;
    u64 first_damage; /* alloc count at first modification of a file under root */
    u64 mapped_peak;
    u64 statics;    /* accesses to static data seen */
    u64 solo_blocks, solo_mem; /* instrumentation events while only one thread exists */
    u64 reserved[14];
    u64 addrs[64]; /* static and thread-local data of the program that its instrumented code used while alone */
    pre_t pre[MAXPRE];
    char ev[EVBYTES];
} trace_t;

static trace_t *T;
static trace_t *dummyT;

/* ------------------------------------------------------------------ */
/* plan                                                                */

enum { S_RAND, S_PCT, S_LIST, S_RR, S_HOT };
enum { G_ALLOC = 1, G_SYS = 2, G_BLOCK = 4, G_LOAD = 8, G_STORE = 16, G_SYNC = 32 };

static struct {
    u64 seed, heap_seed;
    int heap_fill, heap_reuse, heap_pad;
    u64 heap_base, heap_size;
    i64 clock_start, clock_step;
    struct { u64 at; i64 by; } jump[16];
    int njump;
    int pid, cpus, tty;
    u64 alloc_fail, alloc_fail_n, alloc_kill, alloc_limit;
    i64 disk, pipe_out, pipe_err;
    int pipe_errno;
    int hostile_env;
    i64 uid;
    i64 mtime;
    int sched, gran;
    u64 p_num, p_den;
    int pct_d;
    u64 pct_len;
    u64 max_steps, max_ops;
    int turn_fd_w, turn_fd_r;
    u64 turn_alloc;
    int log_allocs;
    char root[PATH_MAX];
    size_t rootlen, uplen;
    fault_t fault[MAXFAULT];
    int nfault;
    struct { u64 step; u32 tid; } *pre;
    int npre, ipre;
    struct { int tid; u64 at; } stall[48];
    int nstall, stall_in_calls;
    int active;
    u64 pctchange[32];
} P;

static int inited;
static u64 rng_sched, rng_rand, rng_heap;

/* ------------------------------------------------------------------ */
/* event log (no addresses, no real times: equal runs have equal logs)  */

static void ev_raw(const char *s, size_t n) {
    for (size_t i = 0; i < n; i++) {
        T->evhash = (T->evhash ^ (unsigned char)s[i]) * 0x100000001b3ULL;
    }
    if (T->evlen + n >= EVBYTES) {
        T->evlost++;
        return;
    }
    memcpy(T->ev + T->evlen, s, n);
    T->evlen += n;
}

static char *put_s(char *p, char *e, const char *s) {
    while (*s && p < e) *p++ = *s++;
    return p;
}
static char *put_n(char *p, char *e, i64 v) {
    char b[24];
    int i = 0;
    u64 u = v < 0 ? -(u64)v : (u64)v;
    if (v < 0 && p < e) *p++ = '-';
    do {
        b[i++] = '0' + u % 10;
        u /= 10;
    } while (u);
    while (i && p < e) *p++ = b[--i];
    return p;
}
TLS int my_tid;
static void ev(const char *op, const char *path, i64 a, i64 r, const char *note) {
    char b[PATH_MAX + 200], *p = b, *e = b + sizeof b - 2;
    int en = errno;
    *p++ = 't';
    p = put_n(p, e, my_tid);
    p = put_s(p, e, " a");
    p = put_n(p, e, (i64)T->allocs);
    *p++ = ' ';
    p = put_s(p, e, op);
    *p++ = ' ';
    if (path) {
        const char *q = path;
        if (P.rootlen && !strncmp(path, P.root, P.rootlen)) {
            p = put_s(p, e, "$R");
            q = path + P.rootlen;
        }
        for (; *q && p < e - 4; q++) {
            unsigned char c = (unsigned char)*q;
            if (c <= ' ' || c == '%' || c >= 0x7f) {
                static const char hx[] = "0123456789abcdef";
                *p++ = '%';
                *p++ = hx[c >> 4];
                *p++ = hx[c & 15];
            } else
                *p++ = (char)c;
        }
    } else
        *p++ = '-';
    *p++ = ' ';
    p = put_n(p, e, a);
    p = put_s(p, e, " = ");
    p = put_n(p, e, r);
    if (r < 0) {
        p = put_s(p, e, " e");
        p = put_n(p, e, en);
    }
    if (note) {
        *p++ = ' ';
        p = put_s(p, e, note);
    }
    *p++ = '\n';
    ev_raw(b, p - b);
    errno = en;
}

/* ------------------------------------------------------------------ */
/* plan parsing                                                        */

static char *tok(char **s) {
    char *p = *s;
    while (*p == ' ') p++;
    if (!*p) return NULL;
    char *r = p;
    while (*p && *p != ' ') p++;
    if (*p) *p++ = 0;
    *s = p;
    return r;
}
static i64 num(char **s) {
    char *t = tok(s);
    if (!t) die("plan: missing number");
    int neg = 0;
    if (*t == '-') neg = 1, t++;
    u64 v = 0;
    if (t[0] == '0' && t[1] == 'x') {
        for (t += 2; *t; t++) v = v * 16 + (*t <= '9' ? *t - '0' : (*t | 32) - 'a' + 10);
    } else
        for (; *t; t++) {
            if (*t < '0' || *t > '9') die("plan: bad number");
            v = v * 10 + (*t - '0');
        }
    return neg ? -(i64)v : (i64)v;
}
static u64 dec(char **t) {
    u64 v = 0;
    while (**t >= '0' && **t <= '9') v = v * 10 + (*(*t)++ - '0');
    return v;
}

static void parse_line(char *l) {
    char *k = tok(&l);
    if (!k || *k == '#') return;
    if (!strcmp(k, "seed")) P.seed = num(&l);
    else if (!strcmp(k, "heap_seed")) P.heap_seed = num(&l);
    else if (!strcmp(k, "heap_fill")) P.heap_fill = num(&l);
    else if (!strcmp(k, "heap_reuse")) P.heap_reuse = num(&l);
    else if (!strcmp(k, "heap_pad")) P.heap_pad = num(&l);
    else if (!strcmp(k, "heap_base")) P.heap_base = num(&l);
    else if (!strcmp(k, "clock_start")) P.clock_start = num(&l);
    else if (!strcmp(k, "clock_step")) P.clock_step = num(&l);
    else if (!strcmp(k, "clock_jump")) {
        if (P.njump < 16) P.jump[P.njump].at = num(&l), P.jump[P.njump++].by = num(&l);
    } else if (!strcmp(k, "pid")) P.pid = num(&l);
    else if (!strcmp(k, "cpus")) P.cpus = num(&l);
    else if (!strcmp(k, "tty")) P.tty = num(&l);
    else if (!strcmp(k, "alloc_fail")) P.alloc_fail = num(&l), P.alloc_fail_n = num(&l);
    else if (!strcmp(k, "alloc_kill")) P.alloc_kill = num(&l);
    else if (!strcmp(k, "alloc_limit")) P.alloc_limit = num(&l);
    else if (!strcmp(k, "disk")) P.disk = num(&l);
    else if (!strcmp(k, "pipe_out")) P.pipe_out = num(&l), P.pipe_errno = num(&l);
    else if (!strcmp(k, "pipe_err")) P.pipe_err = num(&l), P.pipe_errno = num(&l);
    else if (!strcmp(k, "uid")) P.uid = num(&l);
    else if (!strcmp(k, "umask")) RS(SYS_umask, num(&l));
    else if (!strcmp(k, "hostile_env")) P.hostile_env = num(&l);
    else if (!strcmp(k, "mtime")) P.mtime = num(&l);
    else if (!strcmp(k, "gran")) P.gran = num(&l);
    else if (!strcmp(k, "max_steps")) P.max_steps = num(&l);
    else if (!strcmp(k, "max_ops")) P.max_ops = num(&l);
    else if (!strcmp(k, "turn")) P.turn_fd_w = num(&l), P.turn_fd_r = num(&l), P.turn_alloc = num(&l);
    else if (!strcmp(k, "root")) {
        strncpy(P.root, l, sizeof P.root - 1);
        P.rootlen = strlen(P.root);
        char *c = strrchr(P.root, '/');
        P.uplen = c ? (size_t)(c - P.root) + 1 : 0;
    } else if (!strcmp(k, "sched")) {
        char *t = tok(&l);
        if (!strcmp(t, "rand")) P.sched = S_RAND, P.p_num = num(&l), P.p_den = num(&l);
        else if (!strcmp(t, "hot")) P.sched = S_HOT, P.p_num = num(&l), P.p_den = num(&l);
        else if (!strcmp(t, "pct")) P.sched = S_PCT, P.pct_d = num(&l), P.pct_len = num(&l);
        else if (!strcmp(t, "list")) P.sched = S_LIST;
        else if (!strcmp(t, "rr")) P.sched = S_RR, P.p_num = num(&l);
        else die("plan: sched");
    } else if (!strcmp(k, "pre")) {
        if (P.npre < MAXPRE) {
            P.pre[P.npre].step = num(&l);
            P.pre[P.npre++].tid = num(&l);
        }
    } else if (!strcmp(k, "stall_in_calls")) {
        P.stall_in_calls = (int)num(&l); /* threads are suspended inside marked calls only */
    } else if (!strcmp(k, "stall")) {
        if (P.nstall < 48) P.stall[P.nstall].tid = num(&l), P.stall[P.nstall++].at = num(&l);
    } else if (!strcmp(k, "fault")) {
        if (P.nfault >= MAXFAULT) die("plan: too many faults");
        fault_t *f = &P.fault[P.nfault++];
        char *c = tok(&l), *o = tok(&l), *a = tok(&l);
        if (!c || !o || !a) die("plan: fault");
        f->cls = -1;
        for (int i = 0; i < C_NCLASS; i++)
            if (!strcmp(c, cname[i])) f->cls = i;
        if (f->cls < 0) die("plan: fault class");
        f->lo = f->hi = dec(&o);
        f->mod = 0;
        if (*o == '+') f->hi = ~0ULL;
        else if (*o == '-') o++, f->hi = dec(&o);
        else if (*o == '%') o++, f->mod = dec(&o);
        char *q = strchr(a, ':');
        if (q) {
            *q++ = 0;
            char *qq = q;
            f->arg = (i64)dec(&qq);
        }
        if (!strcmp(a, "err")) f->act = A_ERR;
        else if (!strcmp(a, "short")) f->act = A_SHORT;
        else if (!strcmp(a, "zero")) f->act = A_ZERO;
        else if (!strcmp(a, "kill")) f->act = A_KILL;
        else if (!strcmp(a, "killafter")) f->act = A_KILLAFTER;
        else if (!strcmp(a, "killmid")) f->act = A_KILLMID;
        else die("plan: fault action");
    } else
        die("plan: unknown key");
}

/* ------------------------------------------------------------------ */
/* library text ranges: callers inside libc/ld.so are not the program   */

static struct { uintptr_t lo, hi; } libr[8];
static int nlibr;
static struct { uintptr_t lo, hi; } statr[16]; /* writable static data of the program */
static int nstatr;

static uintptr_t tls_size;
static int phdr_seen; /* the first object is the program itself */
static int phdr_cb(struct dl_phdr_info *i, size_t sz, void *d) {
    (void)sz;
    (void)d;
    const char *n = i->dlpi_name ? i->dlpi_name : "";
    const char *b = strrchr(n, '/');
    b = b ? b + 1 : n;
    int lib = !strncmp(b, "libc.so", 7) || !strncmp(b, "ld-linux", 8) || !strncmp(b, "libpthread", 10) ||
              !strncmp(b, "libdl.", 6) || !strncmp(b, "libgcc_s", 8) || !strncmp(b, "libm.so", 7);
    int self = !strncmp(b, "libsim", 6) || !strncmp(b, "linux-vdso", 10);
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        if (p->p_type == PT_TLS && !phdr_seen && p->p_memsz) {
            uintptr_t al = p->p_align ? p->p_align : 1;
            tls_size = (p->p_memsz + al - 1) & ~(al - 1); /* the program's own block ends at the thread pointer */
        }
        if (p->p_type != PT_LOAD) continue;
        uintptr_t lo = i->dlpi_addr + p->p_vaddr, hi = lo + p->p_memsz;
        if (lib && (p->p_flags & PF_X) && nlibr < 8) {
            libr[nlibr].lo = lo;
            libr[nlibr++].hi = hi;
        }
        if (!lib && !self && (p->p_flags & PF_W) && nstatr < 16) {
            for (int j = 0; j < i->dlpi_phnum; j++) /* read-only after relocation */
                if (i->dlpi_phdr[j].p_type == PT_GNU_RELRO) {
                    uintptr_t e = i->dlpi_addr + i->dlpi_phdr[j].p_vaddr + i->dlpi_phdr[j].p_memsz;
                    if (i->dlpi_addr + i->dlpi_phdr[j].p_vaddr <= lo + 4096 && e > lo && e <= hi) lo = e;
                }
            statr[nstatr].lo = lo;
            statr[nstatr++].hi = hi;
        }
    }
    phdr_seen++;
    return 0;
}
static inline int from_lib(void *ra) {
    uintptr_t a = (uintptr_t)ra;
    for (int i = 0; i < nlibr; i++)
        if (a >= libr[i].lo && a < libr[i].hi) return 1;
    return 0;
}
#define CALLER_LIB() from_lib(__builtin_return_address(0))

/* ------------------------------------------------------------------ */
/* kill                                                                */

static void plan_kill(void) {
    T->verdict = 2;
    long pid = RS(SYS_getpid);
    RS(SYS_kill, pid, SIGKILL);
    for (;;) RS(SYS_pause);
}

/* ------------------------------------------------------------------ */
/* multi-process turns                                                 */

static void turn(char kind) {
    if (!P.turn_fd_w) return;
    char c = kind;
    if (RS(SYS_write, P.turn_fd_w, &c, 1) != 1) RS(SYS_exit_group, 88);
    for (;;) {
        long r = RS(SYS_read, P.turn_fd_r, &c, 1);
        if (r == 1) break;
        if (r == -EINTR) continue;
        RS(SYS_exit_group, 88);
    }
    if (c == 'k') plan_kill();
}

/* ------------------------------------------------------------------ */
/* scheduler                                                           */

enum { TS_NONE, TS_RUN, TS_FUTEX, TS_JOIN, TS_SLEEP, TS_STALL, TS_DONE, TS_COND };
typedef struct {
    int state;
    int go;       /* futex word */
    void *uaddr;  /* what it waits for */
    u32 bitset;
    int jtid;
    i64 deadline; /* -1 none */
    int timedout;
    u64 prio;
    u64 yields;
    int incall;
    pthread_t pt;
    void *(*fn)(void *);
    void *arg;
} thr_t;
static thr_t thr[MAXTHR];
static int nthr = 1, nlive = 1;
static int cur;
TLS int have_baton; /* this thread is inside the simulation */
static pthread_key_t endkey;
static i64 now_ns; /* simulated monotonic time */

static void futex_wait_real(int *w, int v) { RS(SYS_futex, w, FUTEX_WAIT, v, 0); }
static void futex_wake_real(int *w) { RS(SYS_futex, w, FUTEX_WAKE, 1000); }

static void wait_go(thr_t *t) {
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) futex_wait_real(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}

static void record_pre(u32 tid, u32 site) {
    T->switches++;
    u64 h = T->hash ^ (T->steps * 0x9e3779b97f4a7c15ULL) ^ ((u64)tid << 56) ^ ((u64)site << 20);
    T->hash = mix(&h);
    if (T->npre < MAXPRE) {
        T->pre[T->npre].step = T->steps;
        T->pre[T->npre].tid = tid;
        T->pre[T->npre++].site = site;
    } else
        T->prelost++;
}

static void finish(u64 verdict, int code) {
    T->verdict = verdict;
    T->simtime = now_ns;
    RS(SYS_exit_group, code);
    __builtin_unreachable();
}

/* hand the baton to thread n and wait until it comes back (unless gone) */
static void switch_to(int n, int gone) {
    thr_t *me = &thr[my_tid];
    if (n == my_tid && !gone) return;
    cur = n;
    if (gone) have_baton = 0;
    __atomic_store_n(&thr[n].go, 1, __ATOMIC_RELEASE);
    futex_wake_real(&thr[n].go);
    if (!gone) wait_go(me);
}

static int runnable_list(int *out) {
    int k = 0;
    for (int i = 0; i < nthr; i++)
        if (thr[i].state == TS_RUN) out[k++] = i;
    return k;
}

/* advance simulated time until someone wakes up; report stuck states */
static void advance(void) {
    int best = -1;
    for (int i = 0; i < nthr; i++)
        if ((thr[i].state == TS_SLEEP || thr[i].state == TS_FUTEX) && thr[i].deadline >= 0)
            if (best < 0 || thr[i].deadline < thr[best].deadline) best = i;
    if (best < 0) {
        int stalled = 0, futex = 0;
        for (int i = 0; i < nthr; i++) {
            if (thr[i].state == TS_STALL) stalled++;
            if (thr[i].state == TS_FUTEX || thr[i].state == TS_COND) futex++;
        }
        if (stalled && !futex) finish(6, 0);
        if (stalled) finish(5, 86);
        finish(3, 86);
    }
    if (thr[best].deadline > now_ns) now_ns = thr[best].deadline;
    thr[best].timedout = thr[best].state == TS_FUTEX;
    thr[best].state = TS_RUN;
    thr[best].deadline = -1;
}

static int pick(int exclude_self) {
    int l[MAXTHR], k;
    while (!(k = runnable_list(l))) advance();
    if (P.sched == S_LIST) {
        /* forced switch: recorded choice if there is one, else lowest id */
        while (P.ipre < P.npre && P.pre[P.ipre].step < T->steps) P.ipre++;
        if (P.ipre < P.npre && P.pre[P.ipre].step == T->steps) {
            int t = P.pre[P.ipre].tid;
            P.ipre++;
            if (t < nthr && thr[t].state == TS_RUN) return t;
        }
        for (int i = 0; i < k; i++)
            if (!(exclude_self && k > 1 && l[i] == my_tid)) return l[i];
        return l[0];
    }
    if (P.sched == S_RR) {
        for (int d = 1; d <= nthr; d++) {
            int i = (my_tid + d) % nthr;
            if (thr[i].state == TS_RUN) return i;
        }
    }
    if (P.sched == S_PCT) {
        int b = -1;
        for (int i = 0; i < k; i++) {
            if (exclude_self && k > 1 && l[i] == my_tid) continue;
            if (b < 0 || thr[l[i]].prio > thr[b].prio) b = l[i];
        }
        return b;
    }
    for (;;) {
        int i = l[mix(&rng_sched) % k];
        if (exclude_self && k > 1 && i == my_tid) continue;
        return i;
    }
}

static void reschedule(int gone, u32 site) {
    int n = pick(0);
    if (n != my_tid || gone) record_pre(n, site);
    switch_to(n, gone);
}

static u64 lowprio = 1000000;
static NOINLINE void yield_slow(int kind, u32 site, int hot) {
    thr_t *me = &thr[my_tid];
    T->steps++;
    me->yields++;
    if (P.max_steps && T->steps > P.max_steps) finish(4, 86);
    for (int i = 0; i < P.nstall; i++)
        if (P.stall[i].tid == my_tid && me->yields >= P.stall[i].at && me->state == TS_RUN && (!P.stall_in_calls || me->incall)) {
            T->stalled++;
            me->state = TS_STALL;
            reschedule(0, site); /* never comes back */
        }
    int sw = 0, target = -1;
    switch (P.sched) {
    case S_RAND:
        sw = mix(&rng_sched) % P.p_den < P.p_num;
        break;
    case S_HOT:
        if (hot) sw = mix(&rng_sched) % 2;
        else sw = mix(&rng_sched) % P.p_den < P.p_num;
        break;
    case S_RR:
        sw = T->steps % P.p_num == 0;
        break;
    case S_PCT:
        for (int i = 0; i < P.pct_d && i < 32; i++)
            if (P.pctchange[i] == T->steps) me->prio = --lowprio;
        if (T->steps % 2000003 == 0) me->prio = --lowprio;
        {
            int n = pick(0);
            if (n != my_tid) sw = 1, target = n;
        }
        break;
    case S_LIST:
        while (P.ipre < P.npre && P.pre[P.ipre].step < T->steps) P.ipre++;
        if (P.ipre < P.npre && P.pre[P.ipre].step == T->steps) {
            int t = P.pre[P.ipre].tid;
            P.ipre++;
            if (t < nthr && thr[t].state == TS_RUN && t != my_tid) sw = 1, target = t;
        }
        break;
    }
    if (!sw) return;
    if (target < 0) {
        int l[MAXTHR], k = runnable_list(l);
        if (k < 2) return;
        target = pick(1);
    }
    if (target == my_tid) return;
    record_pre(target, site);
    int e = errno;
    switch_to(target, 0);
    errno = e;
    (void)kind;
}

static inline void yield_(int kind, u32 site, int hot) {
    if (nlive > 1 && have_baton && (P.gran & kind)) yield_slow(kind, site, hot);
}

/* forced yield (sched_yield) */
static void yield_now(void) {
    if (nlive <= 1 || !have_baton) return;
    static u64 spins;
    T->steps++;
    if (P.max_steps && T->steps > P.max_steps) finish(4, 86);
    /* a thread that goes on asking for others to run, although the one it waits for never will */
    if (T->stalled && P.max_steps && ++spins > 300000) finish(4, 86);
    thr[my_tid].yields++;
    thr[my_tid].prio = --lowprio;
    int l[MAXTHR];
    if (runnable_list(l) < 2) return;
    int n = pick(1);
    if (n == my_tid) return;
    record_pre(n, 1);
    switch_to(n, 0);
}

static void block_me(int st) {
    T->blocks++;
    thr[my_tid].state = st;
    T->steps++;
    reschedule(0, 2);
}

/* ------------------------------------------------------------------ */
/* memory                                                              */

#define HDR 32
typedef struct {
    u64 size;
    u32 cls;
    u32 magic;
    char *raw;
    u64 serial;
} hdr_t;
#define NCLS 128
static struct { void *head, *tail; u64 n; } fl[NCLS];
static char *hp, *hend, *hbase;
static char ibuf_static[1 << 16];
static char *ip, *iend;
static char *ilo, *ihi;

static void *ialloc(size_t n, size_t al) {
    if (al < 16) al = 16;
    n = (n + 15) & ~15UL;
    for (;;) {
        char *o = __atomic_load_n(&ip, __ATOMIC_ACQUIRE);
        char *p = (char *)(((uintptr_t)o + 16 + al - 1) & ~(al - 1));
        if (p + n > iend) return NULL;
        if (__atomic_compare_exchange_n(&ip, &o, p + n, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
            ((u64 *)p)[-1] = n;
            return p;
        }
    }
}
static inline int is_internal(void *p) {
    return ((char *)p >= ilo && (char *)p < ihi) ||
           ((char *)p >= ibuf_static && (char *)p < ibuf_static + sizeof ibuf_static);
}

static int cls_of(size_t n, size_t *cap) {
    if (n <= 1024) {
        int c = (int)((n + 15) / 16);
        if (c == 0) c = 1;
        *cap = c * 16;
        return c;
    }
    size_t s = 1024;
    int c = 65;
    for (;;) {
        for (int q = 1; q <= 4; q++) {
            size_t v = s + s / 4 * q;
            if (n <= v) {
                *cap = v;
                return c;
            }
            c++;
        }
        s *= 2;
        if (c > NCLS - 6) return -1;
    }
}

static void fill(char *p, size_t n) {
    switch (P.heap_fill) {
    case 0:
        break;
    case 1:
        memset(p, 0, n);
        break;
    case 2: {
        u64 r = P.heap_seed ^ T->allocs;
        for (size_t i = 0; i + 8 <= n; i += 8) *(u64 *)(p + i) = mix(&r);
        break;
    }
    default:
        memset(p, P.heap_fill, n);
    }
}

static void sim_init(void);

static int alloc_point(size_t n) {
    T->allocs++;
    if (P.alloc_kill && T->allocs == P.alloc_kill) {
        ev("kill", NULL, 0, 0, "alloc");
        plan_kill();
    }
    if (P.turn_alloc && T->allocs % P.turn_alloc == 0) turn('a');
    yield_(G_ALLOC, 3, 0);
    if (P.alloc_fail && T->allocs >= P.alloc_fail && T->allocs < P.alloc_fail + P.alloc_fail_n) {
        T->allocfail_fired++;
        ev("allocfail", NULL, (i64)n, 0, NULL);
        return 0;
    }
    if (P.alloc_limit && T->live + n > P.alloc_limit) {
        T->allocfail_fired++;
        ev("alloclimit", NULL, (i64)n, 0, NULL);
        return 0;
    }
    return 1;
}

static int arena_thrift(void) { return (u64)(hp - hbase) > P.heap_size / 8; }
static void *arena_alloc(size_t n, size_t al) {
    size_t want = n + (al > 16 ? al : 0), cap;
    int c = cls_of(want, &cap);
    if (c < 0) {
        /* huge: own mapping inside the bump area is not possible */
        errno = ENOMEM;
        return NULL;
    }
    char *raw = NULL;
    int thrift = arena_thrift(); /* wasteful strategies end when an eighth of the arena is used */
    if (fl[c].head && (P.heap_reuse != 3 || thrift)) {
        if (P.heap_reuse == 2 && !thrift && (mix(&rng_heap) & 1)) {
            /* skip reuse this time */
        } else {
            raw = fl[c].head;
            fl[c].head = *(void **)raw;
            if (!fl[c].head) fl[c].tail = NULL;
            fl[c].n--;
        }
    }
    if (!raw) {
        size_t pad = P.heap_pad && !thrift ? (mix(&rng_heap) % (P.heap_pad + 1)) * 16 : 0;
        if ((size_t)(hend - hp) < pad + cap + HDR) {
            errno = ENOMEM;
            return NULL;
        }
        raw = hp + pad + HDR;
        hp = raw + cap;
        if ((u64)(hp - hbase) > T->mapped_peak) T->mapped_peak = hp - hbase;
    }
    char *p = raw;
    if (al > 16) p = (char *)(((uintptr_t)raw + al - 1) & ~(al - 1));
    fill(p, n);
    hdr_t *h = (hdr_t *)(p - HDR);
    h->size = n;
    h->cls = c;
    h->magic = 0x51a110c;
    h->raw = raw;
    h->serial = T->allocs;
    T->live += n;
    if (T->live > T->peak) T->peak = T->live;
    return p;
}

static void arena_free(void *p) {
    hdr_t *h = (hdr_t *)((char *)p - HDR);
    if (h->magic != 0x51a110c) die("free of a bad pointer");
    h->magic = 0;
    T->live -= h->size;
    T->frees++;
    char *raw = h->raw;
    int c = h->cls;
    if (P.heap_fill > 2) memset(p, P.heap_fill, h->size);
    if (P.heap_reuse == 3 && !arena_thrift()) return;
    if (P.heap_reuse == 1) { /* FIFO */
        *(void **)raw = NULL;
        if (fl[c].tail) *(void **)fl[c].tail = raw;
        else fl[c].head = raw;
        fl[c].tail = raw;
    } else {
        *(void **)raw = fl[c].head;
        fl[c].head = raw;
        if (!fl[c].tail) fl[c].tail = raw;
    }
    fl[c].n++;
}

static inline int use_internal(void *ra) {
    return !inited || !have_baton || from_lib(ra);
}

EXPORT void *malloc(size_t n) {
    if (!inited) sim_init();
    if (use_internal(__builtin_return_address(0))) return ialloc(n, 16);
    if (!alloc_point(n)) {
        errno = ENOMEM;
        return NULL;
    }
    return arena_alloc(n, 16);
}
EXPORT void *calloc(size_t a, size_t b) {
    if (!inited) sim_init();
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    if (use_internal(__builtin_return_address(0))) {
        void *p = ialloc(n, 16);
        if (p) memset(p, 0, n);
        return p;
    }
    if (!alloc_point(n)) {
        errno = ENOMEM;
        return NULL;
    }
    void *p = arena_alloc(n, 16);
    if (p) memset(p, 0, n);
    return p;
}
EXPORT void free(void *p) {
    if (!p || is_internal(p)) return;
    if (!have_baton) return;
    int e = errno;
    arena_free(p);
    errno = e;
}
static size_t usable(void *p) {
    if (is_internal(p)) return ((u64 *)p)[-1];
    return ((hdr_t *)((char *)p - HDR))->size;
}
EXPORT void *realloc(void *p, size_t n) {
    if (!inited) sim_init();
    int internal = use_internal(__builtin_return_address(0));
    if (!p) {
        if (internal) return ialloc(n, 16);
        if (!alloc_point(n)) {
            errno = ENOMEM;
            return NULL;
        }
        return arena_alloc(n, 16);
    }
    size_t o = usable(p);
    void *q;
    if (internal || is_internal(p)) q = ialloc(n, 16);
    else {
        if (!alloc_point(n)) {
            errno = ENOMEM;
            return NULL;
        }
        q = arena_alloc(n, 16);
    }
    if (!q) return NULL;
    memcpy(q, p, o < n ? o : n);
    if (!is_internal(p)) arena_free(p);
    return q;
}
EXPORT int posix_memalign(void **out, size_t al, size_t n) {
    if (!inited) sim_init();
    if (use_internal(__builtin_return_address(0))) {
        *out = ialloc(n, al);
        return *out ? 0 : ENOMEM;
    }
    if (!alloc_point(n)) return ENOMEM;
    void *p = arena_alloc(n, al);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
EXPORT void *aligned_alloc(size_t al, size_t n) {
    void *p;
    if (!inited) sim_init();
    if (use_internal(__builtin_return_address(0))) return ialloc(n, al);
    if (!alloc_point(n)) return NULL;
    p = arena_alloc(n, al);
    return p;
}
EXPORT void *memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
EXPORT void *valloc(size_t n) { return aligned_alloc(4096, n); }
EXPORT size_t malloc_usable_size(void *p) { return p ? usable(p) : 0; }

/* ------------------------------------------------------------------ */
/* files                                                               */

#define MAXFD 1024
enum { K_NONE, K_OUT, K_ERR, K_FILE, K_OTHER, K_RFILE };
static struct {
    int kind;
    int in_root;
    char *path;
} fdt[MAXFD];
static i64 disk_used, out_used, err_used;
static u64 nodamage = 1, total_ops;

static void abspath(int dirfd, const char *p, char *out) {
    size_t l = 0;
    if (p[0] != '/') {
        if (dirfd == AT_FDCWD) {
            long r = RS(SYS_getcwd, out, PATH_MAX);
            l = r > 0 ? (size_t)r - 1 : 0;
        } else if (dirfd >= 0 && dirfd < MAXFD && fdt[dirfd].path) {
            l = strlen(fdt[dirfd].path);
            memcpy(out, fdt[dirfd].path, l);
        }
        if (l && out[l - 1] != '/') out[l++] = '/';
        while (p[0] == '.' && p[1] == '/') p += 2;
    }
    size_t n = strlen(p);
    if (l + n >= PATH_MAX) n = PATH_MAX - 1 - l;
    memcpy(out + l, p, n);
    out[l + n] = 0;
}
static int in_root(const char *a) {
    return P.rootlen && !strncmp(a, P.root, P.rootlen) && (a[P.rootlen] == '/' || !a[P.rootlen]);
}
/*
 * Outside the root nothing real is ever changed: what a program writes there, and what the driver
 * puts there beforehand, lies in an overlay next to the root, one entry per absolute path.
 */
static int there(const char *p) { return RS(SYS_faccessat, AT_FDCWD, p, F_OK) == 0; }
static int outside(const char *a) {
    return P.rootlen && a[0] == '/' && !in_root(a) && (strncmp(a, "/dev/", 5) || !strncmp(a, "/dev/shm/", 9)) && strncmp(a, "/proc/", 6) && strncmp(a, P.root, P.uplen);
}
/* devices and the like: they can be opened, but nobody renames, removes or creates them */
static int devpath(const char *a) {
    return P.rootlen && !in_root(a) && (!strncmp(a, "/dev/", 5) || !strncmp(a, "/proc/", 6)) && strncmp(a, P.root, P.uplen) && !outside(a);
}
static void over_name(const char *a, char *b) {
    char *e = b + PATH_MAX - 1;
    char *q = b;
    memcpy(q, P.root, P.uplen);
    q += P.uplen;
    memcpy(q, "over/", 5);
    q += 5;
    char *base = q;
    for (; *a && q < e && q - base < 250; a++) {
        if (*a == '/') {
            while (a[1] == '/' || (a[1] == '.' && a[2] == '/')) a += a[1] == '/' ? 1 : 2;
            if (!a[1] || (a[1] == '.' && !a[2])) break;
            *q++ = '%';
        } else
            *q++ = *a;
    }
    *q = 0;
}
/* where a path really is; `make`: it may be created there */
static const char *over(const char *a, char *b, int make) {
    if (!outside(a)) {
        /* planted descriptions of the machine */
        if (strncmp(a, "/proc/", 6) || make || !P.rootlen) return NULL;
        over_name(a, b);
        if (there(b)) return b;
        char own[32];
        int n = snprintf(own, sizeof own, "/proc/%d", (int)P.pid);
        if (!strncmp(a, own, (size_t)n) && (a[n] == '/' || !a[n]) && strlen(a) < PATH_MAX - 32) {
            strcpy(b, "/proc/self");
            strcat(b, a + n);
            return b;
        }
        return NULL;
    }
    over_name(a, b);
    if (there(b)) return b;
    if (!make) return NULL;
    char up[PATH_MAX], ub[PATH_MAX];
    strcpy(up, a);
    for (;;) {
        char *c = strrchr(up, '/');
        if (!c) return NULL;
        int slash = !c[1];
        *c = 0;
        if (!slash) break;
    }
    over_name(up, ub);
    struct stat st;
    int dir = !up[0] || (there(ub) ? RS(SYS_newfstatat, AT_FDCWD, ub, &st, 0) == 0 && S_ISDIR(st.st_mode) : RS(SYS_newfstatat, AT_FDCWD, up, &st, 0) == 0 && S_ISDIR(st.st_mode));
    return dir ? b : NULL;
}
static void damage(void) {
    if (nodamage) {
        nodamage = 0;
        T->first_damage = T->allocs ? T->allocs : 1;
    }
}

/* one faultable operation: returns matching fault or NULL */
static fault_t *fault_point(int cls) {
    turn('s');
    yield_(G_SYS, 16 + cls, 0);
    u64 n = ++T->ops[cls];
    if (++total_ops > P.max_ops) finish(4, 86);
    for (int i = 0; i < P.nfault; i++) {
        fault_t *f = &P.fault[i];
        if (f->cls != cls) continue;
        int hit = f->mod ? n % f->mod == f->lo % f->mod : (n >= f->lo && n <= f->hi);
        if (!hit) continue;
        T->fired[i]++;
        if (f->act == A_KILL) {
            ev("kill", NULL, cls, 0, cname[cls]);
            plan_kill();
        }
        return f;
    }
    return NULL;
}
static void after(fault_t *f) {
    if (f && f->act == A_KILLAFTER) {
        ev("killafter", NULL, f->cls, 0, cname[f->cls]);
        plan_kill();
    }
}
/* a plain call with optional fault; `mut`: it changes the file system under root */
#define SIMPLE(CLS_, NAME_, PATH_, ARG_, MUT_, CALL_)                             \
    do {                                                                          \
        fault_t *f_ = fault_point(CLS_);                                          \
        long r_;                                                                  \
        if (f_ && (f_->act == A_ERR || f_->act == A_SHORT)) {                     \
            errno = f_->act == A_ERR ? (int)f_->arg : EINTR;                      \
            r_ = -1;                                                              \
            ev(NAME_, PATH_, ARG_, -1, "injected");                               \
        } else {                                                                  \
            r_ = sret(CALL_);                                                     \
            if (r_ >= 0 && (MUT_)) damage();                                      \
            ev(NAME_, PATH_, ARG_, r_, NULL);                                     \
            after(f_);                                                            \
        }                                                                         \
        return r_;                                                                \
    } while (0)

#define SIMOFF() (!inited || !P.active || !have_baton || CALLER_LIB())

/* The checks run as root, users do not: files under the root are subject to the owner's permission bits. */
static int barred(const char *a, int read, int write) {
    struct stat st;
    if (RS(SYS_newfstatat, AT_FDCWD, a, &st, 0) < 0 || S_ISCHR(st.st_mode)) return 0;
    return (read && !(st.st_mode & 0400)) || (write && !(st.st_mode & 0200));
}
static int do_open(int dirfd, const char *path, int flags, int mode, int off) {
    if (off) return (int)sret(RS(SYS_openat, dirfd, path, flags, mode));
    char a[PATH_MAX];
    abspath(dirfd, path, a);
    size_t al_ = strlen(a);
    if (al_ > 10 && !strcmp(a + al_ - 10, "/simscript")) /* the driver's own input is no part of the experiment */
        return (int)sret(RS(SYS_openat, dirfd, path, flags, mode));
    if (!strcmp(a, "/dev/urandom") || !strcmp(a, "/dev/random")) {
        T->randreads++;
        long fd = RS(SYS_memfd_create, "rnd", 0);
        u64 v[64];
        for (int i = 0; i < 64; i++) v[i] = mix(&rng_rand);
        for (int i = 0; i < 16; i++) RS(SYS_write, fd, v, sizeof v);
        RS(SYS_lseek, fd, 0, 0);
        ev("open", a, flags, 0, "rnd");
        return (int)fd;
    }
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int rt = in_root(a);
    fault_t *f = NULL;
    if (rt || P.hostile_env) f = fault_point(w ? C_OPENW : C_OPENR);
    if (f && (f->act == A_ERR || f->act == A_SHORT)) {
        errno = f->act == A_ERR ? (int)f->arg : EINTR;
        ev(w ? "openw" : "openr", a, flags, -1, "injected");
        return -1;
    }
    char ov[PATH_MAX];
    const char *alt = over(a, ov, w && (flags & O_CREAT));
    long fd;
    if (!strcmp(a, "/dev/stdout") || !strcmp(a, "/dev/fd/1")) rt = 1;
    int acc = flags & O_ACCMODE;
    if (rt && in_root(a) && !(flags & O_PATH) && (flags & (O_CREAT | O_EXCL)) != (O_CREAT | O_EXCL) && barred(a, acc != O_WRONLY, acc != O_RDONLY || (flags & O_TRUNC))) {
        errno = EACCES;
        fd = -1;
    } else if (alt)
        fd = sret(RS(SYS_openat, AT_FDCWD, alt, flags, mode));
    else if (devpath(a) && (flags & O_CREAT) && !there(a)) {
        errno = EACCES;
        fd = -1;
    }
    else if (w && outside(a)) {
        errno = (flags & O_CREAT) ? ENOENT : EACCES;
        fd = -1;
    } else
        fd = sret(RS(SYS_openat, dirfd, path, flags, mode));
    if (fd >= 0 && fd < MAXFD) {
        fdt[fd].kind = w ? K_FILE : K_RFILE;
        fdt[fd].in_root = rt;
        size_t n = strlen(a) + 1;
        fdt[fd].path = ialloc(n, 16);
        if (fdt[fd].path) memcpy(fdt[fd].path, a, n);
        if (rt && (flags & (O_TRUNC | O_CREAT))) damage();
        ev(w ? "openw" : "openr", a, flags, fd, NULL);
    } else
        ev(w ? "openw" : "openr", a, flags, -1, NULL);
    after(f);
    return (int)fd;
}
#define OPENMODE                                                 \
    int mode = 0;                                                \
    if (flags & (O_CREAT | __O_TMPFILE)) {                       \
        va_list ap;                                              \
        va_start(ap, flags);                                     \
        mode = va_arg(ap, int);                                  \
        va_end(ap);                                              \
    }
EXPORT int open(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags, mode, SIMOFF()); }
EXPORT int open64(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags, mode, SIMOFF()); }
EXPORT int openat(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags, mode, SIMOFF()); }
EXPORT int openat64(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags, mode, SIMOFF()); }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, SIMOFF()); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, SIMOFF()); }

static const char *fdname(int fd, char *b) {
    if (fd >= 0 && fd < MAXFD && fdt[fd].path) return fdt[fd].path;
    char *p = put_s(b, b + 20, "fd");
    p = put_n(p, b + 20, fd);
    *p = 0;
    return b;
}

/* writes: off < 0 means the current position */
static ssize_t do_writev(int fd, const struct iovec *iov, int cnt, i64 off, int simoff, const char *nm) {
    size_t len = 0;
    for (int i = 0; i < cnt; i++) len += iov[i].iov_len;
    int kind = fd >= 0 && fd < MAXFD ? fdt[fd].kind : K_NONE;
    if (simoff || kind == K_NONE || kind == K_OTHER) {
        if (off >= 0) return sret(RS(SYS_pwritev, fd, iov, cnt, off, 0));
        return sret(RS(SYS_writev, fd, iov, cnt));
    }
    char nb[32];
    int cls = kind == K_OUT ? C_WOUT : kind == K_ERR ? C_WERR : C_WFILE;
    fault_t *f = fault_point(cls);
    const char *note = NULL;
    size_t lim = len;
    int killmid = 0;
    if (f && f->act == A_ERR) {
        errno = (int)f->arg;
        ev(nm, fdname(fd, nb), (i64)len, -1, "injected");
        return -1;
    }
    if (f && f->act == A_ZERO && len) {
        ev(nm, fdname(fd, nb), (i64)len, 0, "injected");
        return 0;
    }
    if (f && (f->act == A_SHORT || f->act == A_KILLMID)) {
        size_t n = (size_t)f->arg;
        if (f->act == A_KILLMID) {
            killmid = 1;
            lim = n < len ? n : len;
        } else if (len > 1) {
            if (n < 1) n = 1;
            if (n >= len) n = 1 + n % (len - 1);
            lim = n;
            note = "short";
        }
    }
    i64 cap = -1, *used = NULL;
    int e = ENOSPC;
    if (cls == C_WFILE && P.disk >= 0) cap = P.disk, used = &disk_used;
    if (cls == C_WOUT && P.pipe_out >= 0) cap = P.pipe_out, used = &out_used, e = P.pipe_errno;
    if (cls == C_WERR && P.pipe_err >= 0) cap = P.pipe_err, used = &err_used, e = P.pipe_errno;
    if (used && len && !killmid) {
        i64 room = cap - *used;
        if (room <= 0) {
            if (cls == C_WFILE) T->diskfull++;
            else T->pipefull++;
            errno = e;
            ev(nm, fdname(fd, nb), (i64)len, -1, "full");
            return -1;
        }
        if ((i64)lim > room) lim = room, note = "full-short";
    }
    struct iovec v[64];
    int k = 0;
    size_t left = lim;
    for (int i = 0; i < cnt && k < 64; i++) {
        size_t n = iov[i].iov_len < left ? iov[i].iov_len : left;
        if (!n) continue;
        v[k].iov_base = iov[i].iov_base;
        v[k++].iov_len = n;
        left -= n;
    }
    ssize_t r;
    if (k == 0 && lim == 0) {
        r = killmid ? 0 : sret(RS(SYS_write, fd, "", 0));
    } else if (off >= 0) r = sret(RS(SYS_pwritev, fd, v, k, off, 0));
    else r = sret(RS(SYS_writev, fd, v, k));
    if (r > 0) {
        if (used) *used += r;
        if (kind == K_FILE && fdt[fd].in_root) damage();
    }
    if (killmid) {
        ev("killmid", fdname(fd, nb), (i64)len, r, NULL);
        plan_kill();
    }
    ev(nm, fdname(fd, nb), (i64)len, r, note);
    after(f);
    return r;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
    struct iovec v = {(void *)b, n};
    return do_writev(fd, &v, 1, -1, SIMOFF(), "write");
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) { return do_writev(fd, v, c, -1, SIMOFF(), "writev"); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    struct iovec v = {(void *)b, n};
    return do_writev(fd, &v, 1, o, SIMOFF(), "pwrite");
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    struct iovec v = {(void *)b, n};
    return do_writev(fd, &v, 1, o, SIMOFF(), "pwrite");
}
EXPORT ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { return do_writev(fd, v, c, o, SIMOFF(), "pwritev"); }
EXPORT ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { return do_writev(fd, v, c, o, SIMOFF(), "pwritev"); }
/* offloaded copies: the kernel may refuse them; then callers fall back to read/write */
EXPORT ssize_t copy_file_range(int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned fl_) {
    if (SIMOFF()) return sret(RS(SYS_copy_file_range, a, oa, b, ob, n, fl_));
    errno = ENOSYS;
    return -1;
}
EXPORT ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (SIMOFF()) return sret(RS(SYS_sendfile, o, i, off, n));
    errno = ENOSYS;
    return -1;
}
EXPORT ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    if (SIMOFF()) return sret(RS(SYS_sendfile, o, i, off, n));
    errno = ENOSYS;
    return -1;
}
EXPORT ssize_t splice(int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned f) {
    if (SIMOFF()) return sret(RS(SYS_splice, a, oa, b, ob, n, f));
    errno = EINVAL;
    return -1;
}

static ssize_t do_read(int fd, void *b, size_t n, i64 off) {
    char nb[32];
    fault_t *f = NULL;
    int sim = fd >= 0 && fd < MAXFD && fdt[fd].kind != K_NONE && (fdt[fd].in_root || fd == 0 || P.hostile_env);
    if (sim) {
        f = fault_point(C_READ);
        if (f && f->act == A_ERR) {
            errno = (int)f->arg;
            ev("read", fdname(fd, nb), (i64)n, -1, "injected");
            return -1;
        }
        if (f && f->act == A_SHORT && n > 1) n = f->arg < 1 ? 1 : (size_t)f->arg < n ? (size_t)f->arg : n - 1;
    }
    ssize_t r = off >= 0 ? sret(RS(SYS_pread64, fd, b, n, off)) : sret(RS(SYS_read, fd, b, n));
    if (sim) {
        ev("read", fdname(fd, nb), (i64)n, r, f ? "short" : NULL);
        after(f);
    }
    return r;
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
    if (SIMOFF()) return sret(RS(SYS_read, fd, b, n));
    return do_read(fd, b, n, -1);
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (SIMOFF()) return sret(RS(SYS_pread64, fd, b, n, o));
    return do_read(fd, b, n, o);
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
    if (SIMOFF() || c < 1) return sret(RS(SYS_readv, fd, v, c));
    return do_read(fd, v[0].iov_base, v[0].iov_len, -1);
}

EXPORT int close(int fd) {
    if (SIMOFF() || fd < 0 || fd >= MAXFD || fdt[fd].kind == K_NONE) return (int)sret(RS(SYS_close, fd));
    char nb[32];
    fault_t *f = NULL;
    if (fdt[fd].in_root) f = fault_point(C_CLOSE);
    long r = sret(RS(SYS_close, fd));
    ev("close", fdname(fd, nb), 0, r, NULL);
    fdt[fd].kind = K_NONE;
    fdt[fd].path = NULL;
    fdt[fd].in_root = 0;
    if (f && f->act == A_ERR) {
        errno = (int)f->arg;
        return -1;
    }
    after(f);
    return (int)r;
}
static int fdmut(int fd) { return fd >= 0 && fd < MAXFD && fdt[fd].in_root; }
EXPORT int fsync(int fd) {
    char nb[32];
    if (SIMOFF()) return (int)sret(RS(SYS_fsync, fd));
    SIMPLE(C_SYNC, "fsync", fdname(fd, nb), 0, 0, 0L);
}
EXPORT int fdatasync(int fd) {
    char nb[32];
    if (SIMOFF()) return (int)sret(RS(SYS_fdatasync, fd));
    SIMPLE(C_SYNC, "fdatasync", fdname(fd, nb), 0, 0, 0L);
}
EXPORT int ftruncate64(int fd, off64_t n) {
    char nb[32];
    if (SIMOFF()) return (int)sret(RS(SYS_ftruncate, fd, n));
    SIMPLE(C_TRUNC, "ftruncate", fdname(fd, nb), n, fdmut(fd), RS(SYS_ftruncate, fd, n));
}
EXPORT int ftruncate(int fd, off_t n) {
    char nb[32];
    if (SIMOFF()) return (int)sret(RS(SYS_ftruncate, fd, n));
    SIMPLE(C_TRUNC, "ftruncate", fdname(fd, nb), n, fdmut(fd), RS(SYS_ftruncate, fd, n));
}
EXPORT int truncate64(const char *p, off64_t n) {
    char a[PATH_MAX];
    if (SIMOFF()) return (int)sret(RS(SYS_truncate, p, n));
    abspath(AT_FDCWD, p, a);
    char ov[PATH_MAX];
    const char *alt = over(a, ov, 0);
    SIMPLE(C_TRUNC, "truncate", a, n, in_root(a), RS(SYS_truncate, alt ? alt : outside(a) ? "" : p, n));
}
EXPORT int truncate(const char *p, off_t n) {
    char a[PATH_MAX];
    if (SIMOFF()) return (int)sret(RS(SYS_truncate, p, n));
    abspath(AT_FDCWD, p, a);
    char ov[PATH_MAX];
    const char *alt = over(a, ov, 0);
    SIMPLE(C_TRUNC, "truncate", a, n, in_root(a), RS(SYS_truncate, alt ? alt : outside(a) ? "" : p, n));
}
EXPORT int fallocate64(int fd, int m, off64_t o, off64_t n) {
    char nb[32];
    if (SIMOFF()) return (int)sret(RS(SYS_fallocate, fd, m, o, n));
    SIMPLE(C_TRUNC, "fallocate", fdname(fd, nb), n, fdmut(fd), RS(SYS_fallocate, fd, m, o, n));
}
EXPORT int posix_fallocate64(int fd, off64_t o, off64_t n) {
    long r = RS(SYS_fallocate, fd, 0, o, n);
    return r < 0 ? (int)-r : 0;
}
EXPORT off64_t lseek64(int fd, off64_t o, int w) { return sret(RS(SYS_lseek, fd, o, w)); }

static int do_rename(int da, const char *a, int db, const char *b, unsigned fl_, int off) {
    if (off) return (int)sret(RS(SYS_renameat2, da, a, db, b, fl_));
    char pa[PATH_MAX], pb[PATH_MAX];
    abspath(da, a, pa);
    abspath(db, b, pb);
    ev("rename-from", pa, 0, 0, NULL);
    if (devpath(pa) || devpath(pb)) return errno = EACCES, -1;
    char oa[PATH_MAX], ob[PATH_MAX];
    const char *xa = over(pa, oa, 0), *xb = over(pb, ob, 1);
    if (!xa) xa = outside(pa) ? "" : pa;
    if (!xb) xb = outside(pb) ? "" : pb;
    SIMPLE(C_RENAME, "rename", pb, fl_, in_root(pa) || in_root(pb), RS(SYS_renameat2, AT_FDCWD, xa, AT_FDCWD, xb, fl_));
}
EXPORT int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0, SIMOFF()); }
EXPORT int renameat(int da, const char *a, int db, const char *b) { return do_rename(da, a, db, b, 0, SIMOFF()); }
EXPORT int renameat2(int da, const char *a, int db, const char *b, unsigned f) { return do_rename(da, a, db, b, f, SIMOFF()); }
static int do_unlink(int d, const char *p, int fl_, int off) {
    if (off) return (int)sret(RS(SYS_unlinkat, d, p, fl_));
    char a[PATH_MAX];
    abspath(d, p, a);
    if (!in_root(a)) {
        char ov[PATH_MAX];
        const char *alt = over(a, ov, 0);
        if (alt) SIMPLE(C_UNLINK, "unlink", a, fl_, 0, RS(SYS_unlinkat, AT_FDCWD, alt, fl_));
        errno = there(a) ? EACCES : ENOENT;
        ev("unlink", a, fl_, -1, "outside");
        return -1;
    }
    SIMPLE(C_UNLINK, "unlink", a, fl_, 1, RS(SYS_unlinkat, d, p, fl_));
}
EXPORT int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0, SIMOFF()); }
EXPORT int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f, SIMOFF()); }
EXPORT int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR, SIMOFF()); }
EXPORT int remove(const char *p) { return do_unlink(AT_FDCWD, p, 0, SIMOFF()); }
EXPORT int mkdir(const char *p, mode_t m) {
    char a[PATH_MAX];
    if (SIMOFF()) return (int)sret(RS(SYS_mkdir, p, m));
    abspath(AT_FDCWD, p, a);
    if (devpath(a)) return errno = EACCES, -1;
    char ov[PATH_MAX];
    const char *alt = outside(a) ? there(a) ? a : over(a, ov, 1) : p;
    SIMPLE(C_MKDIR, "mkdir", a, m, in_root(a), RS(SYS_mkdir, alt ? alt : "", m));
}
EXPORT int link(const char *p, const char *q) {
    char a[PATH_MAX];
    if (SIMOFF()) return (int)sret(RS(SYS_link, p, q));
    abspath(AT_FDCWD, q, a);
    if (outside(a) || devpath(a)) return errno = EACCES, -1;
    SIMPLE(C_LINK, "link", a, 0, in_root(a), RS(SYS_link, p, q));
}
EXPORT int linkat(int d, const char *p, int e, const char *q, int fl_) {
    char a[PATH_MAX];
    if (SIMOFF()) return (int)sret(RS(SYS_linkat, d, p, e, q, fl_));
    abspath(e, q, a);
    if (outside(a) || devpath(a)) return errno = EACCES, -1;
    SIMPLE(C_LINK, "link", a, 0, in_root(a), RS(SYS_linkat, d, p, e, q, fl_));
}
EXPORT int symlink(const char *p, const char *q) {
    char a[PATH_MAX];
    if (SIMOFF()) return (int)sret(RS(SYS_symlink, p, q));
    abspath(AT_FDCWD, q, a);
    if (devpath(a)) return errno = EACCES, -1;
    char ov[PATH_MAX];
    const char *alt = outside(a) ? over(a, ov, 1) : q;
    SIMPLE(C_LINK, "symlink", a, 0, in_root(a), RS(SYS_symlink, p, alt ? alt : ""));
}
EXPORT int chmod(const char *p, mode_t m) {
    char a[PATH_MAX];
    if (SIMOFF()) return (int)sret(RS(SYS_chmod, p, m));
    abspath(AT_FDCWD, p, a);
    if (!in_root(a)) {
        errno = EPERM;
        return -1;
    }
    SIMPLE(C_MISC, "chmod", a, m, 0, RS(SYS_chmod, p, m));
}
EXPORT int fchmod(int fd, mode_t m) {
    char nb[32];
    if (SIMOFF()) return (int)sret(RS(SYS_fchmod, fd, m));
    if (fd >= 0 && fd < MAXFD && fdt[fd].path && devpath(fdt[fd].path)) return errno = EPERM, -1;
    SIMPLE(C_MISC, "fchmod", fdname(fd, nb), m, 0, RS(SYS_fchmod, fd, m));
}
EXPORT int flock(int fd, int op) {
    char nb[32];
    if (SIMOFF()) return (int)sret(RS(SYS_flock, fd, op));
    fault_t *f = fault_point(C_LOCK);
    if (f && f->act == A_ERR) {
        errno = (int)f->arg;
        ev("flock", fdname(fd, nb), op, -1, "injected");
        return -1;
    }
    for (;;) {
        long r = RS(SYS_flock, fd, op | LOCK_NB);
        if (r == -EWOULDBLOCK && !(op & LOCK_NB) && P.turn_fd_w) {
            turn('l');
            continue;
        }
        if (r == -EWOULDBLOCK && !(op & LOCK_NB)) finish(3, 86);
        r = sret(r);
        ev("flock", fdname(fd, nb), op, r, NULL);
        return (int)r;
    }
}
static int do_fcntl(int fd, int cmd, long arg, int off) {
    if (!off && (cmd == F_SETLKW || cmd == F_OFD_SETLKW)) {
        int nb = cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK;
        fault_point(C_LOCK);
        for (;;) {
            long r = RS(SYS_fcntl, fd, nb, arg);
            if ((r == -EAGAIN || r == -EACCES) && P.turn_fd_w) {
                turn('l');
                continue;
            }
            if (r == -EAGAIN || r == -EACCES) finish(3, 86);
            return (int)sret(r);
        }
    }
    long r = sret(RS(SYS_fcntl, fd, cmd, arg));
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) fdt[r] = fdt[fd];
    return (int)r;
}
EXPORT int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, a, SIMOFF());
}
EXPORT int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, a, SIMOFF());
}
static int dup_(int o, long r) {
    if (r >= 0 && r < MAXFD && o >= 0 && o < MAXFD) fdt[r] = fdt[o];
    return (int)r;
}
EXPORT int dup(int o) { return dup_(o, sret(RS(SYS_dup, o))); }
EXPORT int dup2(int o, int n) { return dup_(o, sret(RS(SYS_dup2, o, n))); }
EXPORT int dup3(int o, int n, int f) { return dup_(o, sret(RS(SYS_dup3, o, n, f))); }

/* file times are simulated: they never show the real clock */
#define OLD_FILE 1600000000 /* what was there before the experiment: the program, the system */
static void fixst(struct stat *s, int rt) {
    s->st_mtim.tv_sec = s->st_ctim.tv_sec = s->st_atim.tv_sec = rt ? (i64)P.mtime : OLD_FILE;
    s->st_mtim.tv_nsec = s->st_ctim.tv_nsec = s->st_atim.tv_nsec = 0;
}
#define STATFN(name, sig, path, dir_, flags_)                          \
    EXPORT int name sig {                                              \
        if (SIMOFF()) return (int)sret(RS(SYS_newfstatat, dir_, p, s, flags_)); \
        char a[PATH_MAX], ov[PATH_MAX];                                \
        path;                                                          \
        fault_t *f = in_root(a) ? fault_point(C_STAT) : NULL;          \
        if (f && f->act == A_ERR) {                                    \
            errno = (int)f->arg;                                       \
            ev("stat", a, 0, -1, "injected");                          \
            return -1;                                                 \
        }                                                              \
        const char *alt = over(a, ov, 0);                              \
        long r = sret(alt ? RS(SYS_newfstatat, AT_FDCWD, alt, s, flags_) : RS(SYS_newfstatat, dir_, p, s, flags_)); \
        if (r == 0) fixst((struct stat *)s, in_root(a) || alt);        \
        ev("stat", a, 0, r, NULL);                                     \
        after(f);                                                      \
        return (int)r;                                                 \
    }
STATFN(stat64, (const char *p, struct stat64 *s), abspath(AT_FDCWD, p, a), AT_FDCWD, 0)
STATFN(lstat64, (const char *p, struct stat64 *s), abspath(AT_FDCWD, p, a), AT_FDCWD, AT_SYMLINK_NOFOLLOW)
STATFN(fstatat64, (int d, const char *p, struct stat64 *s, int fl_), abspath(d, p, a), d, fl_)
STATFN(stat, (const char *p, struct stat *s), abspath(AT_FDCWD, p, a), AT_FDCWD, 0)
STATFN(lstat, (const char *p, struct stat *s), abspath(AT_FDCWD, p, a), AT_FDCWD, AT_SYMLINK_NOFOLLOW)
EXPORT int fstat64(int fd, struct stat64 *s) {
    long r = sret(RS(SYS_fstat, fd, s));
    if (r == 0 && !SIMOFF()) fixst((struct stat *)s, fdmut(fd));
    return (int)r;
}
EXPORT int fstat(int fd, struct stat *s) {
    long r = sret(RS(SYS_fstat, fd, s));
    if (r == 0 && !SIMOFF()) fixst(s, fdmut(fd));
    return (int)r;
}
EXPORT int statx(int d, const char *p, int fl_, unsigned mask, struct statx *s) {
    /* the standard library probes with null pointers whether statx exists */
    const void *volatile p0 = p, *volatile s0 = s; /* declared nonnull: keep the compiler from knowing */
    if (SIMOFF() || !p0 || !s0) return (int)sret(RS(SYS_statx, d, p0, fl_, mask, s0));
    char a[PATH_MAX];
    if (p[0]) abspath(d, p, a);
    else strncpy(a, d >= 0 && d < MAXFD && fdt[d].path ? fdt[d].path : "", PATH_MAX - 1);
    fault_t *f = in_root(a) ? fault_point(C_STAT) : NULL;
    if (f && f->act == A_ERR) {
        errno = (int)f->arg;
        ev("statx", a, 0, -1, "injected");
        return -1;
    }
    char ov[PATH_MAX];
    const char *alt = p[0] ? over(a, ov, 0) : NULL;
    long r = sret(alt ? RS(SYS_statx, AT_FDCWD, alt, fl_, mask, s) : RS(SYS_statx, d, p, fl_, mask, s));
    if (r == 0) {
        i64 mt = (p[0] ? in_root(a) || alt : fdmut(d)) ? (i64)P.mtime : OLD_FILE;
        s->stx_mtime.tv_sec = s->stx_ctime.tv_sec = s->stx_atime.tv_sec = s->stx_btime.tv_sec = mt;
        s->stx_mtime.tv_nsec = s->stx_ctime.tv_nsec = s->stx_atime.tv_nsec = s->stx_btime.tv_nsec = 0;
    }
    ev("statx", a, 0, r, NULL);
    after(f);
    return (int)r;
}
EXPORT int access(const char *p, int m) {
    char a[PATH_MAX];
    if (SIMOFF()) return (int)sret(RS(SYS_access, p, m));
    abspath(AT_FDCWD, p, a);
    char ov[PATH_MAX];
    const char *alt = over(a, ov, 0);
    if (in_root(a) && barred(a, m & R_OK, m & W_OK)) return errno = EACCES, -1;
    SIMPLE(C_STAT, "access", a, m, 0, RS(SYS_access, alt ? alt : p, m));
}

/* process-wide settings: only logged (C10) */
EXPORT int chdir(const char *p) {
    if (!SIMOFF()) ev("chdir", p, 0, 0, NULL);
    return (int)sret(RS(SYS_chdir, p));
}
EXPORT mode_t umask(mode_t m) {
    if (!SIMOFF()) ev("umask", NULL, m, 0, NULL);
    return (mode_t)RS(SYS_umask, m);
}
static int (*real_setenv)(const char *, const char *, int);
static int (*real_unsetenv)(const char *);
EXPORT int setenv(const char *k, const char *v, int o) {
    if (!real_setenv) real_setenv = dlsym(RTLD_NEXT, "setenv");
    if (!SIMOFF()) ev("setenv", k, 0, 0, NULL);
    return real_setenv(k, v, o);
}
EXPORT int unsetenv(const char *k) {
    if (!real_unsetenv) real_unsetenv = dlsym(RTLD_NEXT, "unsetenv");
    if (!SIMOFF()) ev("unsetenv", k, 0, 0, NULL);
    return real_unsetenv(k);
}

/* ------------------------------------------------------------------ */
/* ambient inputs                                                      */

extern char **environ;
static char *find_env(const char *k) {
    size_t n = strlen(k);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}
EXPORT char *getenv(const char *k) {
    char *v = find_env(k);
    if (SIMOFF()) return v;
    T->getenvs++;
    ev("getenv", k, 0, v != NULL, NULL);
    if (P.hostile_env > 1 && strncmp(k, "RUST", 4) && strncmp(k, "SIM_", 4)) {
        static char *const vals[] = {"", "1", "0", "true", "32", "hex", "c", "/nonexistent/x", "-7", "\xff\xfe", "2147483648"};
        u64 h = P.seed;
        for (const char *q = k; *q; q++) h = (h ^ (unsigned char)*q) * 0x100000001b3ULL;
        u64 r = mix(&h);
        if (r % 4) return vals[(r >> 8) % (sizeof vals / sizeof *vals)];
        return NULL;
    }
    return v;
}
EXPORT char *secure_getenv(const char *k) { return find_env(k); }

static i64 clock_read(int id) {
    u64 n = ++T->clockreads;
    for (int i = 0; i < P.njump; i++)
        if (P.jump[i].at == n) P.clock_start += P.jump[i].by;
    now_ns += P.clock_step;
    T->simtime = now_ns;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) return P.clock_start + now_ns;
    return now_ns + 1000000000LL * 100;
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
    if (SIMOFF()) return (int)sret(RS(SYS_clock_gettime, id, ts));
    i64 v = clock_read(id);
    i64 s = v / 1000000000, n = v % 1000000000;
    if (n < 0) n += 1000000000, s--;
    ts->tv_sec = s;
    ts->tv_nsec = n;
    ev("clock", NULL, id, 0, NULL);
    return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
    if (SIMOFF()) return (int)sret(RS(SYS_gettimeofday, tv, tz));
    i64 v = clock_read(CLOCK_REALTIME);
    tv->tv_sec = v / 1000000000;
    tv->tv_usec = v % 1000000000 / 1000;
    return 0;
}
EXPORT time_t time(time_t *t) {
    i64 v;
    if (SIMOFF()) {
        struct timespec ts;
        RS(SYS_clock_gettime, 0, &ts);
        v = ts.tv_sec;
    } else
        v = clock_read(CLOCK_REALTIME) / 1000000000;
    if (t) *t = v;
    return v;
}
static void sim_sleep(i64 ns) {
    ev("sleep", NULL, ns, 0, NULL);
    if (++total_ops > P.max_ops) finish(4, 86);
    turn('z');
    if (nlive > 1) {
        thr[my_tid].deadline = now_ns + ns;
        block_me(TS_SLEEP);
    } else {
        now_ns += ns;
        T->simtime = now_ns;
    }
    if (P.max_steps && ++T->steps > P.max_steps) finish(4, 86);
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) {
    if (SIMOFF()) return (int)sret(RS(SYS_nanosleep, a, b));
    sim_sleep(a->tv_sec * 1000000000LL + a->tv_nsec);
    return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int fl_, const struct timespec *a, struct timespec *b) {
    if (SIMOFF()) return (int)-RS(SYS_clock_nanosleep, id, fl_, a, b);
    i64 d = a->tv_sec * 1000000000LL + a->tv_nsec;
    if (fl_ & TIMER_ABSTIME) {
        d -= id == CLOCK_REALTIME ? P.clock_start + now_ns : now_ns + 1000000000LL * 100;
        if (d < 0) d = 0;
    }
    sim_sleep(d);
    return 0;
}
EXPORT int usleep(useconds_t u) {
    sim_sleep(u * 1000LL);
    return 0;
}
EXPORT unsigned sleep(unsigned s) {
    sim_sleep(s * 1000000000LL);
    return 0;
}

static void rnd_fill(void *b, size_t n) {
    T->randreads++;
    unsigned char *p = b;
    while (n) {
        u64 v = mix(&rng_rand);
        size_t k = n < 8 ? n : 8;
        memcpy(p, &v, k);
        p += k;
        n -= k;
    }
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (SIMOFF()) return sret(RS(SYS_getrandom, b, n, f));
    rnd_fill(b, n);
    ev("getrandom", NULL, (i64)n, (i64)n, NULL);
    return (ssize_t)n;
}
EXPORT int getentropy(void *b, size_t n) {
    if (SIMOFF()) return RS(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1;
    rnd_fill(b, n);
    return 0;
}
EXPORT pid_t getpid(void) {
    if (SIMOFF()) return (pid_t)RS(SYS_getpid);
    ev("getpid", NULL, 0, 0, NULL);
    return P.pid;
}
/* other processes: alive when the driver planted a /proc directory for them; none is ever signalled */
EXPORT int kill(pid_t p, int sig) {
    if (SIMOFF()) return (int)sret(RS(SYS_kill, p, sig));
    char a[64], b[PATH_MAX];
    snprintf(a, sizeof a, "/proc/%d", (int)p);
    int own = p == P.pid;
    int alive = own || (p > 0 && over(a, b, 0));
    ev("kill()", NULL, p, sig, alive ? NULL : "no such process");
    long real = RS(SYS_getpid);
    if (own && sig) return (int)sret(RS(SYS_kill, real, sig));
    errno = alive ? (sig ? EPERM : 0) : p > 0 ? ESRCH : EPERM;
    return alive && !sig ? 0 : -1;
}
EXPORT pid_t getppid(void) { return SIMOFF() ? (pid_t)RS(SYS_getppid) : P.pid / 2 + 1; }
EXPORT pid_t gettid(void) { return SIMOFF() ? (pid_t)RS(SYS_gettid) : P.pid + my_tid; }
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
    if (SIMOFF()) return sret(RS(SYS_sched_getaffinity, p, n, s)) < 0 ? -1 : 0;
    memset(s, 0, n);
    for (int i = 0; i < P.cpus && (size_t)i < n * 8; i++) ((unsigned char *)s)[i / 8] |= 1 << (i % 8);
    ev("affinity", NULL, 0, 0, NULL);
    return 0;
}
static long (*real_sysconf)(int);
EXPORT long sysconf(int k) {
    if ((k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF) && inited && P.active) return P.cpus;
    if (k == _SC_PAGESIZE) return 4096;
    if (!real_sysconf) real_sysconf = dlsym(RTLD_NEXT, "sysconf");
    return real_sysconf(k);
}
EXPORT int isatty(int fd) {
    if (SIMOFF()) {
        char t[256];
        long r = RS(SYS_ioctl, fd, 0x5401 /* TCGETS */, t);
        if (r < 0) {
            errno = (int)-r;
            return 0;
        }
        return 1;
    }
    ev("isatty", NULL, fd, 0, NULL);
    if (P.tty & (1 << (fd & 3))) return 1;
    errno = ENOTTY;
    return 0;
}
static u64 trait_(u64 k) { /* a property of the simulated machine that stays the same during a run */
    u64 s = (u64)P.pid * 0x9e3779b97f4a7c15ULL + k;
    return mix(&s);
}
#define IDFN(NAME_, SYS_)                                                                  \
    EXPORT uid_t NAME_(void) {                                                             \
        static const uid_t id[] = {1000, 0, 65534, 501};                                   \
        return SIMOFF() ? (uid_t)RS(SYS_) : id[P.uid & 3];                                 \
    }
IDFN(getuid, SYS_getuid)
IDFN(geteuid, SYS_geteuid)
IDFN(getgid, SYS_getgid)
IDFN(getegid, SYS_getegid)
static int sim_rlimit(int which, struct rlimit *l, int off) {
    long r = sret(RS(SYS_prlimit64, 0, which, NULL, l));
    if (r < 0 || off) return (int)r;
    static const rlim_t some[] = {RLIM_INFINITY, 1 << 20, 8 << 20, 64 << 20, 1ULL << 32};
    if (which == RLIMIT_NOFILE) l->rlim_cur = 256ULL << trait_(1) % 6;
    else l->rlim_cur = some[trait_((u64)which + 2) % 5];
    if (l->rlim_max < l->rlim_cur) l->rlim_max = l->rlim_cur;
    ev("getrlimit", NULL, which, 0, NULL);
    return 0;
}
EXPORT int getrlimit(__rlimit_resource_t w, struct rlimit *l) { return sim_rlimit((int)w, l, SIMOFF()); }
EXPORT int getrlimit64(__rlimit_resource_t w, struct rlimit64 *l) { return sim_rlimit((int)w, (struct rlimit *)l, SIMOFF()); }
EXPORT int sysinfo(struct sysinfo *i) {
    long r = sret(RS(SYS_sysinfo, i));
    if (SIMOFF() || r < 0) return (int)r;
    i->uptime = (long)(trait_(20) % 10000000);
    i->totalram = (1ULL << 29) << trait_(21) % 8;
    i->freeram = i->totalram / (1 + trait_(22) % 50);
    i->mem_unit = 1;
    i->procs = (unsigned short)(trait_(23) % 2000);
    for (int k = 0; k < 3; k++) i->loads[k] = trait_(24) % 5000000;
    ev("sysinfo", NULL, 0, 0, NULL);
    return 0;
}
EXPORT int getloadavg(double *v, int n) {
    if (n > 3) n = 3;
    for (int k = 0; k < n; k++) v[k] = (double)(trait_(30 + k) % 3000) / 100;
    return n;
}
EXPORT int gethostname(char *b, size_t n) {
    strncpy(b, P.pid & 1 ? "node-a" : "zeta.example", n);
    return 0;
}
EXPORT int uname(struct utsname *u) {
    long r = sret(RS(SYS_uname, u));
    if (!SIMOFF()) strcpy(u->nodename, P.pid & 1 ? "node-a" : "zeta");
    return (int)r;
}

/* ------------------------------------------------------------------ */
/* blocking and threads                                                */

EXPORT int sched_yield(void) {
    if (SIMOFF()) return (int)RS(SYS_sched_yield);
    turn('y');
    yield_now();
    return 0;
}

static long sim_futex(u32 *uaddr, int op, u32 val, const struct timespec *to, void *u2, u32 v3) {
    int cmd = op & FUTEX_CMD_MASK;
    (void)u2;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        yield_(G_SYNC, 4, 1);
        if (__atomic_load_n(uaddr, __ATOMIC_SEQ_CST) != val) {
            errno = EAGAIN;
            return -1;
        }
        thr_t *t = &thr[my_tid];
        t->uaddr = uaddr;
        t->bitset = cmd == FUTEX_WAIT_BITSET ? v3 : ~0u;
        t->deadline = -1;
        t->timedout = 0;
        if (to) {
            i64 d = to->tv_sec * 1000000000LL + to->tv_nsec;
            if (cmd == FUTEX_WAIT_BITSET)
                t->deadline = (op & FUTEX_CLOCK_REALTIME) ? d - P.clock_start : d - 1000000000LL * 100;
            else
                t->deadline = now_ns + d;
            if (t->deadline < now_ns) t->deadline = now_ns;
        }
        block_me(TS_FUTEX);
        t->uaddr = NULL;
        if (t->timedout) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        u32 bs = cmd == FUTEX_WAKE_BITSET ? v3 : ~0u;
        int l[MAXTHR], k = 0;
        long n = 0;
        for (int i = 0; i < nthr; i++)
            if (thr[i].state == TS_FUTEX && thr[i].uaddr == uaddr && (thr[i].bitset & bs)) l[k++] = i;
        while (k && n < (long)val) {
            u64 h = T->steps; /* the same choice when a recorded schedule is replayed */
            int j = (int)(mix(&h) % k);
            thr[l[j]].state = TS_RUN;
            thr[l[j]].deadline = -1;
            l[j] = l[--k];
            n++;
        }
        yield_(G_SYNC, 5, 1);
        return n;
    }
    errno = ENOSYS;
    return -1;
}

EXPORT long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
    long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (!SIMOFF()) {
        switch (n) {
        case SYS_futex:
            return sim_futex((u32 *)a, (int)b, (u32)c, (void *)d, (void *)e, (u32)f);
        case SYS_getrandom:
            rnd_fill((void *)a, b);
            return b;
        case SYS_gettid:
            return P.pid + my_tid;
        case SYS_getpid:
            return P.pid;
        case SYS_statx:
            return statx((int)a, (void *)b, (int)c, (unsigned)d, (void *)e);
        case SYS_copy_file_range:
            errno = ENOSYS;
            return -1;
        case SYS_clock_gettime:
            return clock_gettime((clockid_t)a, (void *)b);
        case SYS_renameat2:
            return renameat2((int)a, (void *)b, (int)c, (void *)d, (unsigned)e);
        case SYS_memfd_create:
            ev("memfd", (void *)a, 0, 0, NULL);
            break;
        }
    }
    return sret(rsys6(n, a, b, c, d, e, f));
}

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

static void thread_gone(void) {
    thr_t *t = &thr[my_tid];
    t->state = TS_DONE;
    nlive--;
    for (int i = 0; i < nthr; i++)
        if (thr[i].state == TS_JOIN && thr[i].jtid == my_tid) thr[i].state = TS_RUN;
    T->steps++;
    ev("thread-end", NULL, my_tid, 0, NULL);
    reschedule(1, 6);
}
TLS int enditer;
static void end_cb(void *v) {
    (void)v;
    if (++enditer < PTHREAD_DESTRUCTOR_ITERATIONS) {
        pthread_setspecific(endkey, (void *)1);
        return;
    }
    thread_gone();
}
static void *trampoline(void *a) {
    int id = (int)(intptr_t)a;
    my_tid = id;
    wait_go(&thr[id]);
    have_baton = 1;
    pthread_setspecific(endkey, (void *)1);
    return thr[id].fn(thr[id].arg);
}
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!inited || !P.active) return real_create(t, at, fn, arg);
    int id = -1;
    if (nthr < MAXTHR) id = nthr;
    else
        for (int i = 1; i < nthr; i++)
            if (thr[i].state == TS_DONE && !thr[i].pt) {
                id = i;
                break;
            }
    if (id < 0) return EAGAIN;
    memset(&thr[id], 0, sizeof thr[id]);
    thr[id].fn = fn;
    thr[id].arg = arg;
    thr[id].deadline = -1;
    thr[id].prio = 2000000 + mix(&rng_sched) % 1000000;
    int r = real_create(t, at, trampoline, (void *)(intptr_t)id);
    if (r) return r;
    thr[id].pt = *t;
    thr[id].state = TS_RUN;
    if (id == nthr) nthr++;
    nlive++;
    ev("thread-create", NULL, id, 0, NULL);
    yield_(G_SYS, 7, 0);
    return 0;
}
EXPORT int pthread_join(pthread_t t, void **ret) {
    if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
    if (!inited || !P.active || !have_baton) return real_join(t, ret);
    int id = -1;
    for (int i = 1; i < nthr; i++)
        if (thr[i].pt == t && thr[i].state != TS_NONE) id = i;
    if (id < 0) return real_join(t, ret);
    while (thr[id].state != TS_DONE) {
        thr[my_tid].jtid = id;
        thr[my_tid].deadline = -1;
        block_me(TS_JOIN);
    }
    int r = real_join(t, ret);
    thr[id].pt = 0;
    return r;
}

EXPORT int pthread_detach(pthread_t t) {
    static int (*real)(pthread_t);
    if (!real) real = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
    if (inited && P.active && have_baton)
        for (int i = 1; i < nthr; i++)
            if (thr[i].pt == t && thr[i].state != TS_NONE) thr[i].pt = 0; /* its slot may be used again */
    return real(t);
}

/* ------------------------------------------------------------------ */
/* coverage callbacks: yield points inside the code under test          */

/* What changes in the program's own static and thread-local data during a call, however it is written (atomic operations and
   code without callbacks are not seen by the load and store callbacks). Only while the process has one thread. */
static void note_addr(u64 k);
static unsigned char watch_old[1 << 16];
static int watching;
static u64 watch_n;
static uintptr_t guard_lo, guard_hi; /* the coverage counters of the build: no part of the program */
static int watch_regions(uintptr_t *lo, size_t *len, u64 *tag) {
    int n = 0;
    size_t room = sizeof watch_old;
    uintptr_t tp = (uintptr_t)__builtin_thread_pointer();
    if (tls_size && tls_size < room) {
        lo[n] = tp - tls_size;
        len[n] = tls_size;
        tag[n++] = 0xff;
        room -= tls_size;
    }
    for (int i = 0; i < nstatr; i++) {
        uintptr_t a = statr[i].lo, b = statr[i].hi, part[2][2] = {{a, b}, {b, b}};
        if (guard_lo >= a && guard_hi <= b && guard_lo < guard_hi) {
            part[0][1] = guard_lo;
            part[1][0] = guard_hi;
        }
        for (int k = 0; k < 2; k++) {
            size_t z = part[k][1] - part[k][0];
            if (z > room) z = room; /* never so far */
            if (!z) continue;
            lo[n] = part[k][0];
            len[n] = z;
            tag[n++] = (u64)i;
            room -= z;
        }
    }
    return n;
}
static void watch_diff(int note) {
    uintptr_t lo[33];
    size_t len[33];
    u64 tag[33];
    int n = watch_regions(lo, len, tag);
    unsigned char *o = watch_old;
    uintptr_t tp = (uintptr_t)__builtin_thread_pointer();
    for (int i = 0; i < n; i++) {
        if (note && memcmp(o, (void *)lo[i], len[i]))
            for (size_t k = 0; k < len[i]; k++)
                if (o[k] != ((unsigned char *)lo[i])[k]) {
                    uintptr_t a = (lo[i] + k) & ~(uintptr_t)7;
                    note_addr((tag[i] == 0xff ? (u64)(tp - 1 - a) : (u64)(a - statr[tag[i]].lo)) << 8 | tag[i]);
                    k = (a + 7) - lo[i];
                }
        memcpy(o, (void *)lo[i], len[i]);
        o += len[i];
    }
}
static void watch_step(void) {
    watch_n++;
    if (watch_n < 50000 || watch_n % 32 == 0) watch_diff(1);
}
EXPORT void sim_watch(int on) {
    if (!inited || !P.active) return;
    if (on && nlive <= 1) {
        watch_n = 0;
        watch_diff(0);
        watching = 1;
    } else if (watching) {
        watch_diff(1);
        watching = 0;
    }
}

static unsigned char *gmap;
static u32 gcount;
EXPORT void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) {
    if (a == b || *a) return;
    guard_lo = (uintptr_t)a;
    guard_hi = (uintptr_t)b;
    for (; a < b; a++) *a = ++gcount;
    if (inited) T->nguard = gcount;
}
EXPORT void __sanitizer_cov_trace_pc_guard(u32 *g) {
    u32 v = *g;
    if (gmap && v && v < (1u << 20) && !gmap[v]) {
        gmap[v] = 1;
        T->cover++;
    }
    if (nlive > 1) yield_(G_BLOCK, 0x100000u + v, 0);
    else if (inited) {
        T->solo_blocks++;
        if (watching) watch_step();
    }
}
static void note_addr(u64 k) {
    k += 1;
    for (u64 i = 0, h = k * 0x9e3779b97f4a7c15ULL >> 58; i < 64; i++, h = (h + 1) & 63) {
        if (T->addrs[h] == k) return;
        if (!T->addrs[h]) {
            T->addrs[h] = k;
            return;
        }
    }
}
static inline void mem(void *p, int kind) {
    if (nlive <= 1) {
        if (!inited) return;
        T->solo_mem++;
        uintptr_t a = (uintptr_t)p, below = (uintptr_t)__builtin_thread_pointer() - 1 - a;
        if (below < tls_size) note_addr(below << 8 | 0xff);
        for (int i = 0; i < nstatr; i++)
            if (a >= statr[i].lo && a < statr[i].hi) note_addr((u64)(a - statr[i].lo) << 8 | (u64)i);
        return;
    }
    uintptr_t a = (uintptr_t)p;
    int hot = 0;
    for (int i = 0; i < nstatr; i++)
        if (a >= statr[i].lo && a < statr[i].hi) {
            hot = 1;
            T->statics++;
        }
    if (hot || (P.gran & kind)) {
        if (have_baton && (P.gran & (kind | G_SYNC))) yield_slow(kind, hot ? 0x20000000u + kind : 0x10000000u + kind, hot);
    }
}
EXPORT void __sanitizer_cov_load1(void *p) { mem(p, G_LOAD); }
EXPORT void __sanitizer_cov_load2(void *p) { mem(p, G_LOAD); }
EXPORT void __sanitizer_cov_load4(void *p) { mem(p, G_LOAD); }
EXPORT void __sanitizer_cov_load8(void *p) { mem(p, G_LOAD); }
EXPORT void __sanitizer_cov_load16(void *p) { mem(p, G_LOAD); }
EXPORT void __sanitizer_cov_store1(void *p) { mem(p, G_STORE); }
EXPORT void __sanitizer_cov_store2(void *p) { mem(p, G_STORE); }
EXPORT void __sanitizer_cov_store4(void *p) { mem(p, G_STORE); }
EXPORT void __sanitizer_cov_store8(void *p) { mem(p, G_STORE); }
EXPORT void __sanitizer_cov_store16(void *p) { mem(p, G_STORE); }

/* called by the drivers linked to this library */
EXPORT void sim_mark(const char *what, long n) {
    if (!inited || !P.active) return;
    T->marks++;
    ev("mark", what, n, 0, NULL);
}
/* the thread is inside a call of the code under test */
EXPORT void sim_call(int on) {
    if (inited && P.active && my_tid < MAXTHR) thr[my_tid].incall = on;
}
EXPORT u64 sim_live(void) { return T ? T->live : 0; }
EXPORT u64 sim_allocs(void) { return T ? T->allocs : 0; }
EXPORT void sim_yield(void) {
    if (inited && P.active) yield_(G_SYS, 8, 0);
}

/* ------------------------------------------------------------------ */

static char *genv(const char *k) { return find_env(k); }

static void sim_init(void) {
    static int busy;
    if (inited || busy) return;
    busy = 1;
    ip = ibuf_static;
    iend = ibuf_static + sizeof ibuf_static;
    /* internal heap */
    long m = RS(SYS_mmap, 0x0f0000000000, 1L << 28, PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m < 0) m = RS(SYS_mmap, 0, 1L << 28, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m < 0 && m > -4096) die("mmap");
    ilo = (char *)m;
    ihi = ilo + (1L << 28);
    ip = ilo;
    iend = ihi;
    m = RS(SYS_mmap, 0, sizeof(trace_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    dummyT = T = (trace_t *)m;
    P.disk = P.pipe_out = P.pipe_err = -1;
    P.clock_start = 1600000000LL * 1000000000LL;
    P.clock_step = 1000;
    P.pid = 4242;
    P.cpus = 4;
    P.max_ops = 200000;
    P.mtime = 1500000000;
    P.sched = S_LIST;
    P.gran = G_ALLOC | G_SYS | G_BLOCK | G_SYNC;
    P.heap_base = 0x100000000000ULL;
    P.heap_size = 1ULL << 32;
    char *plan = genv("SIM_PLAN"), *trc = genv("SIM_TRACE");
    if (plan) {
        long fd = RS(SYS_openat, AT_FDCWD, plan, O_RDONLY | O_CLOEXEC, 0);
        if (fd < 0) die("cannot open plan");
        struct stat st;
        RS(SYS_fstat, fd, &st);
        size_t n = (size_t)st.st_size;
        char *b = ialloc(n + 1, 16);
        size_t g = 0;
        while (g < n) {
            long r = RS(SYS_read, fd, b + g, n - g);
            if (r <= 0) die("plan read");
            g += r;
        }
        b[n] = 0;
        RS(SYS_close, fd);
        P.pre = ialloc(sizeof *P.pre * MAXPRE, 16);
        char *p = b;
        while (*p) {
            char *q = strchr(p, '\n');
            if (q) *q = 0;
            parse_line(p);
            if (!q) break;
            p = q + 1;
        }
        P.active = 1;
    }
    if (trc) {
        long fd = RS(SYS_openat, AT_FDCWD, trc, O_RDWR | O_CREAT | O_CLOEXEC, 0600);
        if (fd < 0) die("cannot open trace");
        RS(SYS_ftruncate, fd, sizeof(trace_t));
        m = RS(SYS_mmap, 0, sizeof(trace_t), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m < 0 && m > -4096) die("trace mmap");
        RS(SYS_close, fd);
        T = (trace_t *)m;
        T->magic = 0x53494d31;
    }
    rng_sched = P.seed ^ 0x5c4ed;
    rng_rand = P.seed ^ 0x7a4d;
    rng_heap = P.heap_seed ^ 0x4ea9;
    for (int i = 0; i < P.pct_d && i < 32; i++) P.pctchange[i] = 1 + mix(&rng_sched) % (P.pct_len ? P.pct_len : 1);
    m = RS(SYS_mmap, P.heap_base, P.heap_size, PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m < 0 && m > -4096) die("heap mmap");
    hbase = hp = (char *)m;
    hend = hp + P.heap_size;
    m = RS(SYS_mmap, 0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    gmap = (unsigned char *)m;
    T->nguard = gcount;
    fdt[0].kind = K_RFILE;
    fdt[1].kind = K_OUT;
    fdt[2].kind = K_ERR;
    thr[0].state = TS_RUN;
    thr[0].deadline = -1;
    thr[0].prio = 1500000;
    my_tid = 0;
    dl_iterate_phdr(phdr_cb, NULL);
    have_baton = 1;
    inited = 1;
}

__attribute__((constructor)) static void ctor(void) {
    if (!inited) sim_init();
    pthread_key_create(&endkey, end_cb);
    if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
    if (!real_sysconf) real_sysconf = dlsym(RTLD_NEXT, "sysconf");
    turn('b');
}
__attribute__((destructor)) static void dtor(void) {
    if (T && !T->verdict) {
        T->verdict = 1;
        T->simtime = now_ns;
    }
}
