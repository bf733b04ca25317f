// Runtime of the 'thr' variant: the whole module runs with its worker threads as fibers of the main thread.
// Every claim of a work block is a scheduling decision, taken from a word over the participants (0 = main thread,
// 1.. = workers in the order in which they were woken). Memory accesses made while a block runs are recorded; two
// blocks of one work item that run on different threads and touch a byte, one of them writing, are a conflict.
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <new>
extern "C" {
int thr_claim(const void *);
int thr_got(const void *, int64_t);
typedef unsigned __int128 u128;

enum { RUN, CLAIM, NOMORE, SPIN, SLEEP, DONE };
struct Fiber { ucontext_t ctx; char * stack; size_t size; int st; int * futex; void * (*fn)(void *); void * arg; int64_t spins; int part; bool track; };
static const int MAXF = 66;
static Fiber F[MAXF];
static int nf = 1, cur = 0;
static __thread bool t_main __attribute__((tls_model("initial-exec")));
static bool g_track;               // the running fiber is inside a block
static char word[256];
static int wordlen = 0, wordpos = 0, rotate_by = 0, next_part = 1;
static int64_t n_claims, n_switch, n_items, n_acc, n_conf;
static char conf_text[1024];
static uint32_t item = 1;
static uintptr_t g_main_sp;       // the main thread's stack pointer where its block started

// ---- happens-before: vector clocks per participant, release clocks per atomic variable, both reset with each work item
static const int P = 4;            // participants (further workers are not tracked)
static uint16_t VC[P][P];
struct Sync { uint32_t gen; uintptr_t a; uint16_t c[P]; };
static Sync S[1024];
static Sync * sync_of(uintptr_t a)
{
    size_t h = (a * 0x9E3779B97F4A7C15ull) >> 54;
    for (int n = 0; n < 1024; n++, h = (h + 1) & 1023) {
        if (S[h].gen != item) { memset(&S[h], 0, sizeof S[h]); S[h].gen = item; S[h].a = a; return &S[h]; }
        if (S[h].a == a) return &S[h];
    }
    return 0;
}
// ---- shadow memory: per byte the last write and the last read of each participant
struct Sh { uint32_t gen; uint16_t w; uint16_t by; uint16_t r[P]; };
static const int HB = 20;
static struct { uintptr_t page; Sh * sh; } * pages;
static uintptr_t last_page = 1;
static Sh * last_sh;
static void die(const char * m) { fprintf(stderr, "vf thr: %s\n", m); fflush(stderr); abort(); }
static Sh * shadow(uintptr_t p)
{
    if (p == last_page) return last_sh;
    if (! pages) pages = (decltype(pages))mmap(0, sizeof(*pages) << HB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    size_t h = p * 0x9E3779B97F4A7C15ull >> (64 - HB), n = 0;
    while (pages[h].sh && pages[h].page != p) { h = (h + 1) & ((1 << HB) - 1); if (++n >> HB) die("shadow table full"); }
    if (! pages[h].sh) { pages[h].page = p; pages[h].sh = (Sh *)mmap(0, 4096 * sizeof(Sh), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    last_page = p; last_sh = pages[h].sh;
    return last_sh;
}
static void conflict(uintptr_t a, size_t n, bool w, int by, bool wrote, void * pc)
{
    if (n_conf++) return;
    Dl_info di;
    memset(&di, 0, sizeof di);
    dladdr(pc, &di);
    snprintf(conf_text, sizeof conf_text, "%s of %zu bytes by participant %d at +%lx%s%s conflicts with a %s by participant %d in another block of the same work item",
             w ? "write" : "read", n, F[cur].part, di.dli_fbase ? (long)((char *)pc - (char *)di.dli_fbase) : 0L, di.dli_sname ? " in " : "", di.dli_sname ? di.dli_sname : "",
             wrote ? "write" : "read", by);
}
static __attribute__((noinline)) void record(void * p, size_t n, bool w, void * pc)
{
    uintptr_t a = (uintptr_t)p;
    Fiber & f = F[cur];
    if (f.stack && a - (uintptr_t)f.stack < f.size) return;
    if (! f.stack) { uintptr_t sp = (uintptr_t)__builtin_frame_address(0); if (a - sp < g_main_sp - sp) return; }
    int me = f.part;
    if (me >= P) return;
    n_acc++;
    uint16_t * vc = VC[me];
    int by = -1; bool wrote = false;
    for (uintptr_t x = a; x < a + n; ) {
        Sh * s = shadow(x >> 12) + (x & 4095);
        uintptr_t e = (x | 4095) + 1; if (e > a + n) e = a + n;
        for (; x < e; x++, s++) {
            if (s->gen != item) { memset(s, 0, sizeof *s); s->gen = item; }
            if (s->w > vc[s->by]) { by = s->by; wrote = true; }     // one's own clock is never behind
            if (w) {
                for (int q = 0; q < P; q++) if (s->r[q] > vc[q]) { by = q; wrote = false; }
                s->w = vc[me]; s->by = me;
            }
            else s->r[me] = vc[me];
        }
    }
    if (by >= 0) conflict(a, n, w, by, wrote, pc);
}
static void forget(void * p, size_t n)
{
    uintptr_t a = (uintptr_t)p;
    for (uintptr_t x = a; x < a + n; x++) shadow(x >> 12)[x & 4095].gen = 0;
}
#define ACC(p, n, w) do { if (g_track && t_main) record((void *)(p), n, w, __builtin_return_address(0)); } while (0)

// ---- scheduling
static int choose()
{
    for (int i = 0; i < nf; i++) if (F[i].st == RUN) return i;
    bool any = false;
    for (int i = 0; i < nf; i++) any |= F[i].st == CLAIM;
    if (any) {
        int want = wordlen ? word[wordpos++ % wordlen] : 0;
        for (int i = 0; i < nf; i++) if (F[i].st == CLAIM && F[i].part == want) return i;
        for (int i = 0; i < nf; i++) if (F[i].st == CLAIM) return i;
    }
    for (int i = nf; i--; ) if (F[i].st == NOMORE) return i;     // workers leave first
    int b = -1;
    for (int i = 0; i < nf; i++) if (F[i].st == SPIN && (b < 0 || F[i].spins < F[b].spins)) b = i;
    if (b < 0) die("every thread sleeps");
    if (++F[b].spins > 2000000) die("the main thread waits for ever");
    return b;
}
static void yield_as(int st)
{
    int me = cur;
    F[me].st = st;
    F[me].track = g_track;
    int to = choose();
    if (to != me) {
        n_switch++;
        cur = to;
        swapcontext(&F[me].ctx, &F[to].ctx);
    }
    cur = me;
    F[me].st = RUN;
    g_track = F[me].track;
}
static void entry() { Fiber & f = F[cur]; f.fn(f.arg); f.st = DONE; g_track = false; int me = cur; int to = choose(); cur = to; setcontext(&F[to].ctx); die("unreachable"); (void)me; }
void vf_pause() { if (t_main) { yield_as(SPIN); } }
int __wrap_pthread_create(pthread_t * th, const pthread_attr_t *, void * (*fn)(void *), void * arg)
{
    t_main = true;
    if (nf >= MAXF) return EAGAIN;
    Fiber & f = F[nf];
    f.size = 8 << 20;
    f.stack = (char *)mmap(0, f.size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    f.fn = fn; f.arg = arg; f.st = RUN; f.part = 0; f.track = false;
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = f.size; f.ctx.uc_link = 0;
    makecontext(&f.ctx, entry, 0);
    *th = (pthread_t)(uintptr_t)(nf + 1000);
    nf++;
    return 0;
}
long __wrap_syscall(long nr, ...)
{
    va_list ap; va_start(ap, nr);
    long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (nr != SYS_futex || ! t_main) return syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    int op = a[1] & 127; int * u = (int *)a[0];
    if (op == 0) {
        if (*u != (int)a[2]) { errno = EAGAIN; return -1; }
        if (cur == 0) die("the main thread sleeps");
        F[cur].futex = u;
        g_track = false;
        yield_as(SLEEP);
        return 0;
    }
    if (op == 1) {
        int n = 0, want = (int)a[2];
        item++; n_items++;
        memset(VC, 0, sizeof VC);
        for (int q = 0; q < P; q++) VC[q][q] = 1;
        next_part = 1;
        for (int k = 0; k < nf - 1 && n < want; k++) {
            int i = 1 + (k + rotate_by) % (nf - 1);
            if (F[i].st == SLEEP && F[i].futex == u) { F[i].st = RUN; F[i].part = next_part < 15 ? next_part++ : 15; n++; }
        }
        g_track = false;
        return n;
    }
    die("unexpected futex operation");
    return -1;
}
static inline void before_rmw(const volatile void * a)
{
    if (! t_main || nf < 2) return;
    int c = thr_claim((const void *)a);
    if (c == 3) return;
    if (c == 0) {                   // synchronisation inside a block
        if (! g_track) return;
        yield_as(CLAIM);
        int me = F[cur].part;
        Sync * s = me < P ? sync_of((uintptr_t)a) : 0;
        if (! s) return;
        for (int q = 0; q < P; q++) { if (s->c[q] > VC[me][q]) VC[me][q] = s->c[q]; s->c[q] = VC[me][q]; }
        if (++VC[me][me] == 65535) die("too many synchronisations");
        return;
    }
    g_track = false;
    yield_as(c == 1 ? CLAIM : NOMORE);
}
static inline void after_rmw(const volatile void * a, int64_t old)
{   // the claim was done: the block may start later
    if (! t_main || nf < 2 || g_track || ! thr_got((const void *)a, old)) return;
    n_claims++;
    yield_as(CLAIM);
    if (! cur) g_main_sp = (uintptr_t)__builtin_frame_address(0);
    g_track = true;
}
static inline void at_load(const volatile void * a)
{
    if (! g_track || ! t_main || thr_claim((const void *)a)) return;
    int me = F[cur].part;
    Sync * s = me < P ? sync_of((uintptr_t)a) : 0;
    if (s) for (int q = 0; q < P; q++) if (s->c[q] > VC[me][q]) VC[me][q] = s->c[q];
}
static inline void at_store(const volatile void * a)
{
    if (! g_track || ! t_main || thr_claim((const void *)a)) return;
    int me = F[cur].part;
    Sync * s = me < P ? sync_of((uintptr_t)a) : 0;
    if (! s) return;
    for (int q = 0; q < P; q++) s->c[q] = VC[me][q];
    VC[me][me]++;
}

// ---- hooks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void ** p, void *) { ACC(p, 8, true); }
void __tsan_vptr_read(void ** p) { ACC(p, 8, false); }
void __tsan_read_range(void * p, size_t n) { if (n) ACC(p, n, false); }
void __tsan_write_range(void * p, size_t n) { if (n) ACC(p, n, true); }
#define RW(N) \
    void __tsan_read##N(void * p) { ACC(p, N, false); } \
    void __tsan_write##N(void * p) { ACC(p, N, true); } \
    void __tsan_unaligned_read##N(void * p) { ACC(p, N, false); } \
    void __tsan_unaligned_write##N(void * p) { ACC(p, N, true); } \
    void __tsan_volatile_read##N(void * p) { ACC(p, N, false); } \
    void __tsan_volatile_write##N(void * p) { ACC(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T * a, int) { T v = __atomic_load_n(a, 5); at_load(a); return v; } \
    void __tsan_atomic##B##_store(volatile T * a, T v, int) { at_store(a); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##B##_exchange(volatile T * a, T v, int) { before_rmw(a); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##B##_fetch_add(volatile T * a, T v, int) { before_rmw(a); T o = __atomic_fetch_add(a, v, 5); after_rmw(a, (int64_t)o); return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T * a, T v, int) { before_rmw(a); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##B##_fetch_and(volatile T * a, T v, int) { before_rmw(a); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##B##_fetch_or(volatile T * a, T v, int) { before_rmw(a); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##B##_fetch_xor(volatile T * a, T v, int) { before_rmw(a); return __atomic_fetch_xor(a, v, 5); } \
    T __tsan_atomic##B##_fetch_nand(volatile T * a, T v, int) { before_rmw(a); return __atomic_fetch_nand(a, v, 5); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T * a, T * c, T v, int, int) { before_rmw(a); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T * a, T * c, T v, int, int) { before_rmw(a); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T * a, T c, T v, int, int) { before_rmw(a); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}

// ---- library calls made by the module
void * __real_memcpy(void *, const void *, size_t);
void * __wrap_memcpy(void * d, const void * s, size_t n) { if (n) { ACC(s, n, false); ACC(d, n, true); } return __real_memcpy(d, s, n); }
void * __real_memmove(void *, const void *, size_t);
void * __wrap_memmove(void * d, const void * s, size_t n) { if (n) { ACC(s, n, false); ACC(d, n, true); } return __real_memmove(d, s, n); }
void * __real_memset(void *, int, size_t);
void * __wrap_memset(void * d, int c, size_t n) { if (n) ACC(d, n, true); return __real_memset(d, c, n); }
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void * a, const void * b, size_t n) { if (n) { ACC(a, n, false); ACC(b, n, false); } return __real_memcmp(a, b, n); }
void * __real_malloc(size_t);
void * __wrap_malloc(size_t n) { void * p = __real_malloc(n); if (p && g_track && t_main) forget(p, n); return p; }
void * __real_calloc(size_t, size_t);
void * __wrap_calloc(size_t a, size_t b) { void * p = __real_calloc(a, b); if (p && g_track && t_main) forget(p, a * b); return p; }
void * __real__Znwm(size_t);
void * __wrap__Znwm(size_t n) { void * p = __real__Znwm(n); if (p && g_track && t_main) forget(p, n); return p; }

// ---- control
void vf_thr_start(const char * w, int n, int rot)
{
    memcpy(word, w, n); wordlen = n; wordpos = 0; rotate_by = rot;
    n_claims = n_switch = n_items = n_acc = n_conf = 0; conf_text[0] = 0;
    for (int i = 0; i < nf; i++) F[i].spins = 0;
}
void vf_thr_stop(int64_t * o) { o[0] = n_claims; o[1] = n_switch; o[2] = n_items; o[3] = n_acc; o[4] = n_conf; o[5] = nf - 1; }
const char * vf_thr_text() { return conf_text; }
}
