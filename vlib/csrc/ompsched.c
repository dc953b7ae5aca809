/* (One team per OS thread: the simulated MPI processes are threads.) A controlled OpenMP runtime: the threads of a parallel region are coroutines, run one after the other in an order
 * chosen by the harness from barrier to barrier, while the memory accesses of the instrumented code
 * (-fsanitize=thread hooks) are recorded. Two accesses of different threads to one byte within a phase
 * (barrier to barrier), one of them writing, are a conflict. If a phase has none, all its interleavings are equivalent to the one executed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <ucontext.h>
#include <sys/mman.h>

#define MAXT 250
#define STACK (1 << 20)

static int g_threads = 1;          /* omp_get_max_threads */
static int g_mode = 0;             /* 0 forward, 1 backward, k >= 2: permutation number k-2 */
static unsigned long long s_regions, s_phases, s_access, s_conflicts, s_sync, s_maxt, s_switch;
static char conflict_text[16][400];

typedef struct { ucontext_t ctx; char *stack; int state; int ws; int crit; } Co;   /* state 0 ready, 1 at barrier, 2 done */
static __thread Co co[MAXT];
static __thread ucontext_t sched;
static __thread int cur = -1, nteam = 0;     /* cur < 0: outside a parallel region */
static __thread void (*body)(void *);
static __thread void *bdata;

/* ---- deferred frees: no address is reused within a region */
static __thread void **dead; static __thread size_t ndead, cdead;
void *__wrap_malloc(size_t n) { return malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return calloc(a, b); }
void __wrap_free(void *p) {
    if (cur < 0 || !p) { free(p); return; }
    if (ndead == cdead) { cdead = cdead ? 2 * cdead : 1024; dead = realloc(dead, cdead * sizeof(*dead)); }
    dead[ndead++] = p;
}

/* ---- shadow */
typedef struct { uintptr_t key; unsigned ep; uint8_t pw[8], pr[8], aw[8], ar[8]; } Cell;
static __thread Cell *tab; static __thread size_t ntab = 1 << 20, nused; static __thread unsigned epoch = 1;

static Cell *cell(uintptr_t w) {
    if (!tab) tab = mmap(0, ntab * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (nused * 2 > ntab) {
        size_t on = ntab; Cell *o = tab;
        ntab *= 4;
        tab = mmap(0, ntab * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (size_t i = 0; i < on; i++) if (o[i].key && o[i].ep == epoch) {
            size_t h = (o[i].key * 0x9E3779B97F4A7C15ull) >> 20 & (ntab - 1);
            while (tab[h].key && tab[h].ep == epoch) h = (h + 1) & (ntab - 1);
            tab[h] = o[i];
        }
        munmap(o, on * sizeof(Cell));
    }
    size_t h = (w * 0x9E3779B97F4A7C15ull) >> 20 & (ntab - 1);
    for (;; h = (h + 1) & (ntab - 1)) {
        Cell *c = tab + h;
        if (!c->key || c->ep != epoch) { memset(c, 0, sizeof *c); c->key = w; c->ep = epoch; nused++; return c; }
        if (c->key == w) return c;
    }
}
static void next_phase(void) { epoch++; nused = 0; s_phases++; }

static void report(uintptr_t a, int other, int write, int owrite, void *pc) {
    if (s_conflicts < 16) {
        Dl_info d; const char *fn = "?", *so = "?";
        if (dladdr(pc, &d)) { if (d.dli_sname) fn = d.dli_sname; if (d.dli_fname) { so = strrchr(d.dli_fname, '/'); so = so ? so + 1 : d.dli_fname; } }
        snprintf(conflict_text[s_conflicts], 400, "%s: %s: thread %d of %d %s the same memory that thread %d %s", so, fn, cur, nteam, write ? "writes" : "reads", other, owrite ? "wrote" : "read");
    }
    s_conflicts++;
}
static inline int other(uint8_t v) { return v && v != cur + 1; }
static void touch(uintptr_t a, size_t n, int write, int atomic, void *pc) {
    if (cur < 0) return;
    if (a >= (uintptr_t)co[cur].stack && a < (uintptr_t)co[cur].stack + STACK) return;
    s_access++;
    if (co[cur].crit) atomic = 1;
    for (size_t k = 0; k < n; ) {
        Cell *c = cell((a + k) >> 3);
        for (int b = (a + k) & 7; b < 8 && k < n; b++, k++) {
            int o = 0, ow = 0;
            if (other(c->pw[b])) { o = c->pw[b]; ow = 1; }
            else if (write && other(c->pr[b])) o = c->pr[b];
            else if (!atomic && other(c->aw[b])) { o = c->aw[b]; ow = 1; }
            else if (!atomic && write && other(c->ar[b])) o = c->ar[b];
            if (o) { report(a + k, o - 1, write, ow, pc); return; }
            if (atomic && (other(c->aw[b]) || (write && other(c->ar[b])))) s_sync++;
            uint8_t *s = atomic ? (write ? &c->aw[b] : &c->ar[b]) : (write ? &c->pw[b] : &c->pr[b]);
            *s = (*s == 0 || *s == cur + 1) ? cur + 1 : (write ? cur + 1 : 255);
        }
    }
}
#define PC __builtin_return_address(0)
#define T(n) \
    void __tsan_read##n(void *a) { touch((uintptr_t)a, n, 0, 0, PC); } \
    void __tsan_write##n(void *a) { touch((uintptr_t)a, n, 1, 0, PC); } \
    void __tsan_unaligned_read##n(void *a) { touch((uintptr_t)a, n, 0, 0, PC); } \
    void __tsan_unaligned_write##n(void *a) { touch((uintptr_t)a, n, 1, 0, PC); } \
    void __tsan_volatile_read##n(void *a) { touch((uintptr_t)a, n, 0, 0, PC); } \
    void __tsan_volatile_write##n(void *a) { touch((uintptr_t)a, n, 1, 0, PC); } \
    void __tsan_read_write##n(void *a) { touch((uintptr_t)a, n, 1, 0, PC); }
T(1) T(2) T(4) T(8) T(16)
void __tsan_read_range(void *a, unsigned long n) { touch((uintptr_t)a, n, 0, 0, PC); }
void __tsan_write_range(void *a, unsigned long n) { touch((uintptr_t)a, n, 1, 0, PC); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)b; touch((uintptr_t)a, 8, 1, 0, PC); }
void __tsan_vptr_read(void **a) { touch((uintptr_t)a, 8, 0, 0, PC); }
void __tsan_atomic_thread_fence(int m) { (void)m; }
void __tsan_atomic_signal_fence(int m) { (void)m; }
#define A(b, t) \
    t __tsan_atomic##b##_load(const volatile t *a, int m) { touch((uintptr_t)a, sizeof(t), 0, 1, PC); return *a; } \
    void __tsan_atomic##b##_store(volatile t *a, t v, int m) { touch((uintptr_t)a, sizeof(t), 1, 1, PC); *a = v; } \
    t __tsan_atomic##b##_exchange(volatile t *a, t v, int m) { touch((uintptr_t)a, sizeof(t), 1, 1, PC); t o = *a; *a = v; return o; } \
    t __tsan_atomic##b##_fetch_add(volatile t *a, t v, int m) { touch((uintptr_t)a, sizeof(t), 1, 1, PC); t o = *a; *a = o + v; return o; } \
    t __tsan_atomic##b##_fetch_sub(volatile t *a, t v, int m) { touch((uintptr_t)a, sizeof(t), 1, 1, PC); t o = *a; *a = o - v; return o; } \
    t __tsan_atomic##b##_fetch_and(volatile t *a, t v, int m) { touch((uintptr_t)a, sizeof(t), 1, 1, PC); t o = *a; *a = o & v; return o; } \
    t __tsan_atomic##b##_fetch_or(volatile t *a, t v, int m) { touch((uintptr_t)a, sizeof(t), 1, 1, PC); t o = *a; *a = o | v; return o; } \
    t __tsan_atomic##b##_fetch_xor(volatile t *a, t v, int m) { touch((uintptr_t)a, sizeof(t), 1, 1, PC); t o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile t *a, t *e, t v, int m, int f) { touch((uintptr_t)a, sizeof(t), 1, 1, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile t *a, t *e, t v, int m, int f) { return __tsan_atomic##b##_compare_exchange_strong(a, e, v, m, f); } \
    t __tsan_atomic##b##_compare_exchange_val(volatile t *a, t e, t v, int m, int f) { touch((uintptr_t)a, sizeof(t), 1, 1, PC); t o = *a; if (o == e) *a = v; return o; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)

void *__wrap_memcpy(void *d, const void *s, size_t n) { touch((uintptr_t)s, n, 0, 0, PC); touch((uintptr_t)d, n, 1, 0, PC); return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { touch((uintptr_t)s, n, 0, 0, PC); touch((uintptr_t)d, n, 1, 0, PC); return memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { touch((uintptr_t)d, n, 1, 0, PC); return memset(d, v, n); }
void *__wrap_realloc(void *p, size_t n) {
    if (cur < 0 || !p) return realloc(p, n);
    extern size_t malloc_usable_size(void *);
    size_t o = malloc_usable_size(p);
    void *q = malloc(n);
    if (q) { memcpy(q, p, o < n ? o : n); __wrap_free(p); }
    return q;
}

/* ---- work sharing constructs that are not static loops */
typedef struct { int used, kind, taken; long next, end, incr, chunk, k; } Ws;
static __thread Ws wss[512];
static __thread long wnext[MAXT];

static bool loop_next(long *s, long *e) {
    Ws *w = &wss[(co[cur].ws - 1) % 512];
    long n = (w->end - w->next + (w->incr > 0 ? w->incr - 1 : w->incr + 1)) / w->incr;
    long first = wnext[cur] * w->chunk;
    if (n <= 0 || first >= n) return false;
    long last = first + w->chunk < n ? first + w->chunk : n;
    *s = w->next + first * w->incr; *e = w->next + last * w->incr;
    wnext[cur] += nteam;         /* chunk k belongs to thread k modulo the team */
    return true;
}
static bool loop_start(long a, long b, long i, long c, long *s, long *e) {
    Ws *w = &wss[co[cur].ws++ % 512];
    w->next = a; w->end = b; w->incr = i; w->chunk = c > 0 ? c : 1;
    wnext[cur] = cur;
    return loop_next(s, e);
}
#define L(x) \
    bool GOMP_loop_##x##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, s, e); } \
    bool GOMP_loop_##x##_next(long *s, long *e) { return loop_next(s, e); } \
    bool GOMP_loop_ull_##x##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long c, unsigned long long *s, unsigned long long *e) { return loop_start(a, b, i, c, (long *)s, (long *)e); } \
    bool GOMP_loop_ull_##x##_next(unsigned long long *s, unsigned long long *e) { return loop_next((long *)s, (long *)e); }
L(dynamic) L(nonmonotonic_dynamic) L(guided) L(nonmonotonic_guided) L(static)
bool GOMP_loop_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long *s, long *e) { return loop_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return loop_next(s, e); }
bool GOMP_loop_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_nonmonotonic_runtime_next(long *s, long *e) { return loop_next(s, e); }

void GOMP_barrier(void) {
    if (cur < 0) return;
    int me = cur;
    co[me].state = 1;
    swapcontext(&co[me].ctx, &sched);
}
void GOMP_loop_end(void) { GOMP_barrier(); }
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }
void GOMP_loop_end_nowait(void) {}
bool GOMP_single_start(void) {
    Ws *w = &wss[co[cur].ws++ % 512];
    if (w->taken == epoch + 1) return false;
    w->taken = epoch + 1;
    return true;
}
void GOMP_critical_start(void) { if (cur >= 0) co[cur].crit++; }
void GOMP_critical_end(void) { if (cur >= 0) co[cur].crit--; }
void GOMP_critical_name_start(void **p) { (void)p; GOMP_critical_start(); }
void GOMP_critical_name_end(void **p) { (void)p; GOMP_critical_end(); }
void GOMP_atomic_start(void) { GOMP_critical_start(); }
void GOMP_atomic_end(void) { GOMP_critical_end(); }

int omp_get_thread_num(void) { return cur < 0 ? 0 : cur; }
int omp_get_num_threads(void) { return cur < 0 ? 1 : nteam; }
int omp_get_max_threads(void) { return g_threads; }
int omp_get_num_procs(void) { return g_threads; }
void omp_set_num_threads(int n) { g_threads = n; }
int omp_in_parallel(void) { return cur >= 0; }
int omp_get_level(void) { return cur >= 0; }
void omp_set_dynamic(int n) { (void)n; }
int omp_get_dynamic(void) { return 0; }
int omp_get_thread_limit(void) { return MAXT; }
double omp_get_wtime(void) { static double t; return t += 1e-6; }

static void entry(void) { body(bdata); co[cur].state = 2; swapcontext(&co[cur].ctx, &sched); }

static void order(int *o, int n) {
    for (int i = 0; i < n; i++) o[i] = i;
    if (g_mode == 1) for (int i = 0; i < n; i++) o[i] = n - 1 - i;
    if (g_mode >= 2) {
        /* permutation number g_mode - 2 of the first (at most 6) threads, applied to blocks of threads */
        unsigned k = g_mode - 2; int m = n < 6 ? n : 6, left[6], p[6];
        for (int i = 0; i < m; i++) left[i] = i;
        for (int i = 0; i < m; i++) {
            int r = m - i, j = k % r; k /= r;
            p[i] = left[j];
            memmove(left + j, left + j + 1, (r - j - 1) * sizeof(int));
        }
        int q = 0;
        for (int i = 0; i < m; i++) for (int t = p[i]; t < n; t += m) o[q++] = t;
    }
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags) {
    (void)flags;
    if (cur >= 0) {     /* nested: one thread */
        int c = cur, n = nteam;
        cur = -1; nteam = 1;
        fn(data);
        cur = c; nteam = n;
        return;
    }
    int n = num_threads ? (int)num_threads : g_threads;
    if (n > MAXT) n = MAXT;
    if (n < 1) n = 1;
    if ((unsigned long long)n > s_maxt) s_maxt = n;
    s_regions++;
    nteam = n; body = fn; bdata = data;
    int o[MAXT];
    order(o, n);
    for (int i = 0; i < n; i++) {
        if (!co[i].stack) co[i].stack = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        getcontext(&co[i].ctx);
        co[i].ctx.uc_stack.ss_sp = co[i].stack;
        co[i].ctx.uc_stack.ss_size = STACK;
        co[i].ctx.uc_link = 0;
        co[i].state = 0; co[i].ws = 0; co[i].crit = 0;
        makecontext(&co[i].ctx, entry, 0);
    }
    for (int live = n; live; ) {
        next_phase();
        for (int k = 0; k < n; k++) {
            int i = o[k];
            if (co[i].state != 0) continue;
            cur = i;
            s_switch++;
            swapcontext(&sched, &co[i].ctx);
            if (co[i].state == 2) live--;
        }
        cur = -1;
        for (int i = 0; i < n; i++) if (co[i].state == 1) co[i].state = 0;
    }
    cur = -1; nteam = 0;
    for (size_t i = 0; i < ndead; i++) free(dead[i]);
    ndead = 0;
}
#define P(x) \
    void GOMP_parallel_loop_##x(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, long c, unsigned f);
struct ploop { void (*fn)(void *); void *d; long a, b, i, c; };
static void ploop_body(void *v) {
    struct ploop *p = v;
    Ws *w = &wss[co[cur].ws++ % 512];
    w->next = p->a; w->end = p->b; w->incr = p->i; w->chunk = p->c > 0 ? p->c : 1;
    wnext[cur] = cur;
    p->fn(p->d);
}
static void ploop_run(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, long c, unsigned f) {
    struct ploop p = {fn, d, a, b, i, c};
    GOMP_parallel(ploop_body, &p, nt, f);
}
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, long c, unsigned f) { ploop_run(fn, d, nt, a, b, i, c, f); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, long c, unsigned f) { ploop_run(fn, d, nt, a, b, i, c, f); }
void GOMP_parallel_loop_guided(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, long c, unsigned f) { ploop_run(fn, d, nt, a, b, i, c, f); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, long c, unsigned f) { ploop_run(fn, d, nt, a, b, i, c, f); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, unsigned f) { ploop_run(fn, d, nt, a, b, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, unsigned f) { ploop_run(fn, d, nt, a, b, i, 1, f); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, unsigned f) { ploop_run(fn, d, nt, a, b, i, 1, f); }

/* ---- harness interface */
void oms_config(int threads, int mode) { g_threads = threads; g_mode = mode; }
void oms_reset(void) { s_regions = s_phases = s_access = s_conflicts = s_sync = s_maxt = s_switch = 0; }
void oms_stats(unsigned long long *o) { o[0] = s_regions; o[1] = s_phases; o[2] = s_access; o[3] = s_conflicts; o[4] = s_sync; o[5] = s_maxt; o[6] = s_switch; }
const char *oms_conflict(int i) { return i < 16 && (unsigned long long)i < s_conflicts ? conflict_text[i] : 0; }
