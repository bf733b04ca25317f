// Model-checking runtime: fibers, explicit-state exploration of the real code with snapshots.
// The code under test is compiled with -fsanitize=thread; the instrumentation calls land here and are the scheduling points.
#include "mc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <vector>
#include <string>
#include <unordered_map>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <pthread.h>
#include <unistd.h>
#include <link.h>

namespace
{
// the runtime never uses operator new: the harness may replace it by the explored program's heap
template <class T> struct MA
{
    using value_type = T;
    MA() = default;
    template <class U> MA(const MA<U> &) {}
    T * allocate(size_t n) { T * p = (T *)malloc(n * sizeof(T)); if (! p) { fprintf(stderr, "out of memory\n"); _exit(93); } return p; }
    void deallocate(T * p, size_t) { free(p); }
    template <class U> bool operator==(const MA<U> &) const { return true; }
};
template <class T> using Vec = std::vector<T, MA<T>>;
using Str = std::basic_string<char, std::char_traits<char>, MA<char>>;
template <class K, class V, class H = std::hash<K>> using Map = std::unordered_map<K, V, H, std::equal_to<K>, MA<std::pair<const K, V>>>;
constexpr size_t HEAP = 1 << 20;
constexpr int MAXF = 8;
constexpr size_t STK = 64 * 1024;
enum OpK : int { O_NONE, O_START, O_READ, O_WRITE, O_RMW, O_POINT, O_CHOOSE, O_PAUSE, O_FWAIT, O_FWAKE, O_LOCK, O_UNLOCK, O_CWAIT, O_CSIG, O_JOIN, O_CREATE, O_SLEEP, O_TRYLOCK, O_BEGIN };
const char * opname[] = { "none", "start", "read", "write", "rmw", "point", "choose", "pause", "futex-wait", "futex-wake", "lock", "unlock", "cond-wait", "cond-signal", "join", "create", "sleep", "trylock", "begin" };
struct Op
{
    int k, size;
    uint64_t addr;
    int64_t arg;
    const char * what;
    int n;
    int timed;
};
struct Fib
{
    char * sp;
    int st;        // 0 unused, 1 live, 2 done
    int waitw;     // paused until somebody else writes
    int dirty;     // somebody else wrote since the last pause
    int blocked;   // 1 futex, 2 condition
    int res;       // result handed to the fiber when resumed
    int detached;
    int64_t pad;
    uint64_t waddr, wmutex;
    int64_t wval;
    Op op;
    void * (*fn)(void *);
    void * arg;
};
struct World
{
    int nf, cur, spurious, preempt, last, began;
    void (*handler)(int);
    uint64_t user[4];
    int susp0, pad;
    uint32_t used[MAXF];        // bytes of each fiber's heap
    Fib f[MAXF];
};
struct Trans
{
    signed char kind;   // 0 run fiber, 1 spurious wake, 2 timeout
    signed char fib;
    short choice;
};
struct Region { char * p; size_t n; const char * name; char * init; };
struct Name { uint64_t p; size_t n; const char * name; };

struct RT
{
    World w;
    char * stacks;
    char * heap = nullptr;
    void * sched_sp;
    bool active = false;          // inside a fiber
    const mc::Setup * setup;
    uint64_t tls, tlslow;         // thread-local storage of the only thread: [tlslow, tls)
    int bound;                    // preemption bound of this pass
    Vec<Region> regions;
    Vec<Name> names;
    Vec<uint64_t> lines;  // tracked 64-byte lines in order of first write
    Vec<Str> lineinit;
    Map<uint64_t, int> lineidx;
    struct Acc { uint32_t r, w; bool shared; };
    Map<uint64_t, Acc> acc;
    bool restart = false;
    bool violated = false;
    Str msg;
    uint64_t executions = 0;
    Map<uint64_t, int> outcomes;
    bool verbose = false;
    uint64_t steps = 0;
};
RT * R;
RT & rt()
{
    if (! R) R = new (malloc(sizeof(RT))) RT();
    return *R;
}
}
namespace mc { char * trace_text; char trace_choices[65536]; }

extern "C" void mc_switch(void ** save, void * to);
asm(R"(
.text
.globl mc_switch
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");

namespace
{
char * stack_top(int i) { return R->stacks + (size_t)(i + 1) * STK; }

void to_sched()
{
    Fib & f = R->w.f[R->w.cur];
    R->active = false;
    mc_switch((void **)&f.sp, R->sched_sp);
    R->active = true;
}

// the running fiber announces its next operation and is resumed when the scheduler lets it perform it
int announce(int k, const void * a, int size, int64_t arg = 0, const char * what = nullptr, int n = 1, int timed = 0)
{
    Fib & f = R->w.f[R->w.cur];
    f.op = Op{ k, size, (uint64_t)a, arg, what, n, timed };
    f.res = 0;
    to_sched();
    Fib & g = R->w.f[R->w.cur];
    int r = g.res;
    return r;
}

void wrote()
{
    World & w = R->w;
    for (int i = 0; i < w.nf; i++)
        if (i != w.cur) { w.f[i].waitw = 0; w.f[i].dirty = 1; }
}

void track(uint64_t a, size_t n)
{
    if (R->setup->full) return;
    for (uint64_t l = a & ~63ull; l < a + n; l += 64)
    {
        if (R->lineidx.count(l)) continue;
        // stacks are snapshotted anyway
        if ((char *)l >= R->stacks && (char *)l < R->stacks + MAXF * STK) continue;
        R->lineidx[l] = (int)R->lines.size();
        R->lines.push_back(l);
        R->lineinit.emplace_back((char *)l, 64);
    }
}

bool shared(uint64_t a, size_t n, bool wr)
{
    bool sh = false;
    uint32_t bit = 1u << R->w.cur;
    for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++)
    {
        auto & x = R->acc[g];
        if (wr) x.w |= bit; else x.r |= bit;
        if (! x.shared)
        {
            uint32_t all = x.r | x.w;
            if (x.w && (all & (all - 1)))
            {
                x.shared = true;
                R->restart = true;
            }
        }
        sh |= x.shared;
    }
    return sh;
}

inline void access(const void * p, size_t n, bool wr, int k)
{
    if (! R || ! R->active) return;
    if ((uint64_t)p - R->tlslow < R->tls - R->tlslow) return;     // thread-local storage
    if (wr) track((uint64_t)p, n);
    if (! shared((uint64_t)p, n, wr)) return;
    announce(k, p, (int)n);
    if (wr) wrote();
}
}

// ------------------------------------------------------------------ instrumentation entry points
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void ** p, void *) { access(p, 8, true, O_WRITE); }
void __tsan_vptr_read(void ** p) { access(p, 8, false, O_READ); }
void __tsan_read_range(void * p, size_t n) { if (n) access(p, n, false, O_READ); }
void __tsan_write_range(void * p, size_t n) { if (n) access(p, n, true, O_WRITE); }
#define RW(N) \
    void __tsan_read##N(void * p) { access(p, N, false, O_READ); } \
    void __tsan_write##N(void * p) { access(p, N, true, O_WRITE); } \
    void __tsan_unaligned_read##N(void * p) { access(p, N, false, O_READ); } \
    void __tsan_unaligned_write##N(void * p) { access(p, N, true, O_WRITE); } \
    void __tsan_volatile_read##N(void * p) { access(p, N, false, O_READ); } \
    void __tsan_volatile_write##N(void * p) { access(p, N, true, O_WRITE); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T * a, int) { access((void *)a, sizeof(T), false, O_READ); return *a; } \
    void __tsan_atomic##B##_store(volatile T * a, T v, int) { access((void *)a, sizeof(T), true, O_WRITE); *a = v; } \
    T __tsan_atomic##B##_exchange(volatile T * a, T v, int) { access((void *)a, sizeof(T), true, O_RMW); T o = *a; *a = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T * a, T v, int) { access((void *)a, sizeof(T), true, O_RMW); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T * a, T v, int) { access((void *)a, sizeof(T), true, O_RMW); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T * a, T v, int) { access((void *)a, sizeof(T), true, O_RMW); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T * a, T v, int) { access((void *)a, sizeof(T), true, O_RMW); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T * a, T v, int) { access((void *)a, sizeof(T), true, O_RMW); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T * a, T v, int) { access((void *)a, sizeof(T), true, O_RMW); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T * a, T * c, T v, int, int) { access((void *)a, sizeof(T), true, O_RMW); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T * a, T * c, T v, int, int) { access((void *)a, sizeof(T), true, O_RMW); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T * a, T c, T v, int, int) { access((void *)a, sizeof(T), true, O_RMW); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void vf_pause()
{
    if (! R || ! R->active) return;
    Fib & f = R->w.f[R->w.cur];
    if (f.dirty) f.dirty = 0;
    else f.waitw = 1;
    announce(O_PAUSE, nullptr, 0);
}

// ------------------------------------------------------------------ operating system stand-ins
static long do_futex(va_list ap)
{
    int * ua = va_arg(ap, int *);
    int op = va_arg(ap, int);
    int val = va_arg(ap, int);
    const struct timespec * to = va_arg(ap, const struct timespec *);
    int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
    {
        int r = announce(O_FWAIT, ua, 4, val, nullptr, 1, to != nullptr);
        if (r) { errno = r; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
        return announce(O_FWAKE, ua, 4, val);
    errno = ENOSYS;
    return -1;
}

long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long r;
    if (R && R->active)
    {
        if (n == SYS_futex) r = do_futex(ap);
        else if (n == SYS_gettid) r = 1000 + R->w.cur;
        else { errno = ENOSYS; r = -1; }
    }
    else
    {
        long a[6];
        for (long & x : a) x = va_arg(ap, long);
        long ret;
        register long r10 asm("r10") = a[3];
        register long r8 asm("r8") = a[4];
        register long r9 asm("r9") = a[5];
        asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        if (ret < 0) { errno = (int)-ret; ret = -1; }
        r = ret;
    }
    va_end(ap);
    return r;
}

static void fiber_entry()
{
    R->active = true;
    Fib & f = R->w.f[R->w.cur];
    f.fn(f.arg);
    R->w.f[R->w.cur].st = 2;
    wrote();
    R->w.f[R->w.cur].op = Op{};
    to_sched();
    abort();
}

static int new_fiber(void * (*fn)(void *), void * arg)
{
    World & w = R->w;
    if (w.nf >= MAXF) { fprintf(stderr, "too many fibers\n"); _exit(90); }
    int i = w.nf++;
    Fib & f = w.f[i];
    memset(&f, 0, sizeof f);
    f.fn = fn;
    f.arg = arg;
    f.st = 1;
    memset(R->stacks + (size_t)i * STK, 0, STK);
    uint64_t * t = (uint64_t *)(stack_top(i) - 72);
    t[0] = 0;
    *--t = (uint64_t)&fiber_entry;
    for (int k = 0; k < 6; k++) *--t = 0;
    f.sp = (char *)t;
    f.op = Op{ O_START, 0, 0, 0, nullptr, 1, 0 };
    return i;
}

int pthread_create(pthread_t * t, const pthread_attr_t *, void * (*fn)(void *), void * arg) noexcept
{
    if (! R || ! R->active) { fprintf(stderr, "pthread_create outside the exploration\n"); _exit(91); }
    announce(O_CREATE, t, 8);
    int i = new_fiber(fn, arg);
    track((uint64_t)t, 8);
    *t = (pthread_t)(i + 1);
    wrote();
    return 0;
}
int pthread_join(pthread_t t, void ** r)
{
    announce(O_JOIN, nullptr, 0, (int64_t)t - 1);
    if (r) *r = nullptr;
    return 0;
}
int pthread_once(pthread_once_t * o, void (*fn)())
{
    while (*(volatile int *)o == 1) vf_pause();
    if (*(volatile int *)o == 2) return 0;
    *(volatile int *)o = 1;
    fn();
    *(volatile int *)o = 2;
    if (R && R->active) wrote();
    return 0;
}
int pthread_detach(pthread_t) noexcept { return 0; }
pthread_t pthread_self() noexcept { return R && R->active ? (pthread_t)(R->w.cur + 1) : (pthread_t)1000; }
int pthread_mutex_lock(pthread_mutex_t * m) noexcept
{
    if (! R || ! R->active) return 0;
    announce(O_LOCK, m, 8);
    track((uint64_t)m, 8);
    *(int *)m = R->w.cur + 1;
    wrote();
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t * m) noexcept
{
    if (! R || ! R->active) return 0;
    announce(O_TRYLOCK, m, 8);
    track((uint64_t)m, 8);
    if (*(int *)m) return EBUSY;
    *(int *)m = R->w.cur + 1;
    wrote();
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t * m) noexcept
{
    if (! R || ! R->active) return 0;
    announce(O_UNLOCK, m, 8);
    if (*(int *)m != R->w.cur + 1) mc::fail("a mutex is unlocked by a thread that does not hold it");
    *(int *)m = 0;
    wrote();
    return 0;
}
static int cond_wait(pthread_cond_t * c, pthread_mutex_t * m, int timed)
{
    if (*(int *)m != R->w.cur + 1) mc::fail("condition wait without holding the mutex");
    int r = announce(O_CWAIT, c, 8, (int64_t)m, nullptr, 1, timed);
    // resumed holding the mutex
    return r;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { return cond_wait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec *) { return cond_wait(c, m, 1); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const struct timespec *) { return cond_wait(c, m, 1); }
int pthread_cond_signal(pthread_cond_t * c) noexcept { if (R && R->active) announce(O_CSIG, c, 8, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t * c) noexcept { if (R && R->active) announce(O_CSIG, c, 8, 1000); return 0; }
int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
int pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t *) noexcept { memset(c, 0, sizeof *c); return 0; }
void (*signal(int sig, void (*h)(int)) noexcept)(int)
{
    if (! R || ! R->active || sig != SIGINT) return SIG_DFL;
    announce(O_POINT, nullptr, 0, 0, "signal()");
    auto o = R->w.handler;
    R->w.handler = h;
    return o;
}
int usleep(useconds_t) { if (R && R->active) announce(O_SLEEP, nullptr, 0); return 0; }
int nanosleep(const struct timespec *, struct timespec *) { if (R && R->active) announce(O_SLEEP, nullptr, 0); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { if (R && R->active) announce(O_SLEEP, nullptr, 0); return 0; }
int sched_yield() noexcept { vf_pause(); return 0; }
}

// ------------------------------------------------------------------ harness interface
namespace mc
{
void fail(const char * fmt, ...)
{
    if (R->violated) return;
    char b[2000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    R->violated = true;
    R->msg = b;
    if (R->active) to_sched();
}
void point(const char * what) { announce(O_POINT, nullptr, 0, 0, what); }
int choose(int n, const char * what) { return announce(O_CHOOSE, nullptr, 0, 0, what, n); }
int self() { return R->w.cur; }
void mark(const void * p, size_t n) { if (R && R->active) track((uint64_t)p, n); }
// blocks: 16-byte header { size, live }; the lowest free block of the same size is taken, freed memory is zeroed and a free tail
// is cut off, so the heap is a function of the live blocks and loops that allocate and free come back to the same state
void * heap_alloc(size_t n)
{
    rt();
    if (! R->heap)
    {
        R->heap = (char *)mmap((void *)0x210000000000ull, MAXF * HEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (R->heap == MAP_FAILED) { perror("mmap"); _exit(92); }
    }
    int i = R->active ? R->w.cur : 0;
    n = (n + 31) & ~15ull;
    char * p = R->heap + i * HEAP, * e = p + R->w.used[i];
    for (; p < e; p += ((uint64_t *)p)[0])
        if (((uint64_t *)p)[0] == n && ! ((uint64_t *)p)[1]) break;
    if (p >= e)
    {
        if (R->w.used[i] + n > HEAP) { fprintf(stderr, "heap of the explored program exhausted\n"); _exit(94); }
        p = e;
        R->w.used[i] += (uint32_t)n;
    }
    memset(p, 0, n);
    ((uint64_t *)p)[0] = n;
    ((uint64_t *)p)[1] = 1;
    return p + 16;
}
void heap_free(void * q)
{
    if (! q) return;
    char * p = (char *)q - 16;
    if (! R || ! R->heap || p < R->heap || p >= R->heap + MAXF * HEAP) { fail("free of memory that is not from the heap"); return; }
    uint64_t n = ((uint64_t *)p)[0];
    if (! ((uint64_t *)p)[1]) { fail("double free"); return; }
    memset(p + 8, 0, n - 8);
    int i = (int)((p - R->heap) / HEAP);
    char * b = R->heap + i * HEAP, * last = nullptr;
    for (char * x = b; x < b + R->w.used[i]; x += ((uint64_t *)x)[0])
        if (((uint64_t *)x)[1]) last = x + ((uint64_t *)x)[0];
    char * end = last ? last : b;
    memset(end, 0, b + R->w.used[i] - end);
    R->w.used[i] = (uint32_t)(end - b);
}
bool running() { return R && R->active; }
void (*sighandler())(int) { return R->w.handler; }
void set_sighandler(void (*h)(int)) { R->w.handler = h; }
uint64_t & user(int i) { return R->w.user[i]; }
void suspend_main(bool b) { R->w.susp0 = b; }
int fibers() { return R->w.nf; }
bool finished(int i) { return R->w.f[i].st == 2; }
void begin() { announce(O_BEGIN, nullptr, 0); }
int sleeping()
{
    int n = 0;
    for (int i = 0; i < R->w.nf; i++) n += R->w.f[i].st == 1 && R->w.f[i].blocked != 0;
    return n;
}
void region(void * p, size_t n, const char * name) { rt().regions.push_back({ (char *)p, n, name, nullptr }); }
void name(const void * p, size_t n, const char * nm) { rt().names.push_back({ (uint64_t)p, n, nm }); }
void note_outcome(uint64_t h) { R->outcomes[h]++; }
uint64_t outcomes() { return R->outcomes.size(); }
}

// ------------------------------------------------------------------ exploration
namespace
{
struct Key { uint64_t a, b; bool operator==(const Key & o) const { return a == o.a && b == o.b; } };
struct KeyH { size_t operator()(const Key & k) const { return k.a; } };

inline uint64_t mixh(uint64_t x, uint64_t y)
{
    __uint128_t m = (__uint128_t)(x ^ 0x9E3779B97F4A7C15ull) * (y ^ 0xC2B2AE3D27D4EB4Full);
    return (uint64_t)m ^ (uint64_t)(m >> 64);
}
Key hashb(const char * p, size_t n)
{
    uint64_t a = 0x1234567 ^ n, b = 0x89abcdef + n, c = 1, d = 2;
    size_t i = 0;
    for (; i + 32 <= n; i += 32)
    {
        uint64_t v[4];
        memcpy(v, p + i, 32);
        a = mixh(a ^ v[0], v[1] + 0x165667B19E3779F9ull);
        b = mixh(b ^ v[2], v[3] + 0x27D4EB2F165667C5ull);
        c = (c ^ v[0] ^ (v[3] << 1)) * 0x9FB21C651E98DF25ull; c ^= c >> 29;
        d = (d + v[1] + (v[2] ^ v[0])) * 0xD6E8FEB86659FD93ull; d ^= d >> 32;
    }
    for (; i < n; i++) { a = mixh(a ^ (uint8_t)p[i], 0x9E37 + i); b = mixh(b + (uint8_t)p[i], 0x85EB + i); }
    return Key{ mixh(a, c ^ 77), mixh(b, d ^ 99) };
}

void snapshot(Str & s)
{
    s.clear();
    World & w = R->w;
    s.append((char *)&w, offsetof(World, f) + w.nf * sizeof(Fib));
    for (int i = 0; i < w.nf; i++)
        if (w.f[i].st == 1) s.append(w.f[i].sp, stack_top(i) - w.f[i].sp);
    if (R->heap)
        for (int i = 0; i < MAXF; i++) s.append(R->heap + i * HEAP, w.used[i]);
    for (auto & r : R->regions) s.append(r.p, r.n);
    for (uint64_t l : R->lines) s.append((char *)l, 64);
}
void restore(const Str & s)
{
    World & w = R->w;
    const char * p = s.data(), * e = p + s.size();
    memcpy((void *)&w, p, offsetof(World, f));
    p += offsetof(World, f);
    memcpy((void *)w.f, p, w.nf * sizeof(Fib));
    p += w.nf * sizeof(Fib);
    for (int i = 0; i < w.nf; i++)
        if (w.f[i].st == 1)
        {
            size_t n = stack_top(i) - w.f[i].sp;
            memcpy(w.f[i].sp, p, n);
            p += n;
        }
    if (R->heap)
        for (int i = 0; i < MAXF; i++) { memcpy(R->heap + i * HEAP, p, w.used[i]); p += w.used[i]; }
    for (auto & r : R->regions) { memcpy(r.p, p, r.n); p += r.n; }
    size_t k = 0;
    for (uint64_t l : R->lines)
    {
        if (p < e) { memcpy((char *)l, p, 64); p += 64; }
        else memcpy((char *)l, R->lineinit[k].data(), 64);
        k++;
    }
}

int waiters(uint64_t addr, int kind, int * out)
{
    int n = 0;
    for (int i = 0; i < R->w.nf; i++)
        if (R->w.f[i].st == 1 && R->w.f[i].blocked == kind && R->w.f[i].waddr == addr) out[n++] = i;
    return n;
}
int nsubsets(int n, int k)
{
    if (k >= n || k < 0) return 1;
    int r = 1;
    for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1);
    return r;
}
uint32_t subset(int n, int k, int idx)
{
    if (k >= n) return (1u << n) - 1;
    int c = 0;
    for (uint32_t m = 0; m < (1u << n); m++)
        if (__builtin_popcount(m) == k && c++ == idx) return m;
    return 0;
}

bool enabled(int i)
{
    Fib & f = R->w.f[i];
    if (f.st != 1 || f.blocked || f.waitw) return false;
    if (i == 0 && R->w.susp0) return false;
    switch (f.op.k)
    {
    case O_LOCK: return *(int *)f.op.addr == 0;
    case O_JOIN: return R->w.f[f.op.arg].st == 2;
    default: return true;
    }
}

void list(Vec<Trans> & out)
{
    out.clear();
    World & w = R->w;
    bool lastok = w.last >= 0 && enabled(w.last);
    for (int pass = 0; pass < 2; pass++)
        for (int i = 0; i < w.nf; i++)
        {
            if ((i == w.last) != (pass == 0)) continue;
            if (! enabled(i)) continue;
            if (i != w.last && lastok && R->bound >= 0 && w.preempt <= 0) continue;
            Fib & f = w.f[i];
            int n = 1, ws[MAXF];
            if (f.op.k == O_CHOOSE) n = f.op.n;
            if (f.op.k == O_FWAKE) n = nsubsets(waiters(f.op.addr, 1, ws), (int)f.op.arg);
            if (f.op.k == O_CSIG) n = nsubsets(waiters(f.op.addr, 2, ws), (int)f.op.arg);
            for (int c = 0; c < n; c++) out.push_back(Trans{ 0, (signed char)i, (short)c });
        }
    for (int i = 0; i < w.nf; i++)
    {
        Fib & f = w.f[i];
        if (f.st != 1 || ! f.blocked) continue;
        if (w.spurious > 0) out.push_back(Trans{ 1, (signed char)i, 0 });
        if (f.op.timed && R->setup->timeouts) out.push_back(Trans{ 2, (signed char)i, 0 });
    }
}

const char * addrname(uint64_t a)
{
    static char b[200];
    const Name * best = nullptr;
    for (auto & n : R->names)
        if (a >= n.p && a < n.p + n.n && (! best || n.n < best->n)) best = &n;
    if (best) snprintf(b, sizeof b, "%s+%lu", best->name, (unsigned long)(a - best->p));
    else if ((char *)a >= R->stacks && (char *)a < R->stacks + MAXF * STK) snprintf(b, sizeof b, "stack of %d", (int)(((char *)a - R->stacks) / STK));
    else snprintf(b, sizeof b, "%#lx", (unsigned long)a);
    return b;
}
Str describe(const Trans & t)
{
    char b[400];
    Fib & f = R->w.f[(int)t.fib];
    if (t.kind) snprintf(b, sizeof b, "thread %d: %s", t.fib, t.kind == 1 ? "spurious wake-up" : "time-out");
    else snprintf(b, sizeof b, "thread %d: %s %s%s arg=%ld choice=%d", t.fib, opname[f.op.k], f.op.what ? f.op.what : "", f.op.addr ? addrname(f.op.addr) : "", (long)f.op.arg, t.choice);
    return b;
}

void wake(int i, int res)
{
    Fib & f = R->w.f[i];
    int kind = f.blocked;
    f.waddr = 0; f.wval = 0; f.blocked = 0;
    if (kind == 2)
    {   // must take the mutex again
        f.op = Op{ O_LOCK, 8, f.wmutex, res, "re-acquire after wait ", 1, 0 };
        f.wmutex = 0;
        f.pad = 1;
    }
    else
    {
        f.op = Op{ O_POINT, 0, 0, res, "woken", 1, 0 };
        f.pad = 2;
    }
}

void run(int i)
{
    R->w.cur = i;
    mc_switch(&R->sched_sp, R->w.f[i].sp);
    R->active = false;
    R->w.cur = 0;
}

void step(const Trans & t)
{
    World & w = R->w;
    Fib & f = w.f[(int)t.fib];
    R->steps++;
    if (t.kind)
    {
        if (t.kind == 1) w.spurious--;
        wake(t.fib, t.kind == 1 ? 0 : ETIMEDOUT);
        return;
    }
    if (R->bound >= 0)
    {
        if (w.last >= 0 && w.last != t.fib && enabled(w.last)) w.preempt--;
        w.last = t.fib;
    }
    w.cur = t.fib;
    int ws[MAXF];
    switch (f.op.k)
    {
    case O_FWAIT:
        if (*(int *)f.op.addr != (int)f.op.arg) { f.res = EAGAIN; break; }
        f.blocked = 1;
        f.waddr = f.op.addr;
        f.wval = f.op.arg;
        return;
    case O_CWAIT:
        f.blocked = 2;
        f.waddr = f.op.addr;
        f.wmutex = (uint64_t)f.op.arg;
        *(int *)f.wmutex = 0;
        wrote();
        return;
    case O_FWAKE:
    case O_CSIG:
        {
            int kind = f.op.k == O_FWAKE ? 1 : 2;
            int n = waiters(f.op.addr, kind, ws);
            int k = (int)f.op.arg;
            uint32_t m = k <= 0 ? 0 : subset(n, k, t.choice);
            int c = 0;
            for (int j = 0; j < n; j++)
                if (m >> j & 1) { wake(ws[j], 0); c++; }
            f.res = f.op.k == O_FWAKE ? c : 0;
            break;
        }
    case O_CHOOSE: f.res = t.choice; break;
    case O_LOCK:
        if (f.pad == 1)
        {   // finish of a condition wait
            *(int *)f.op.addr = t.fib + 1;
            f.res = (int)f.op.arg;
            f.pad = 0;
            wrote();
            w.cur = t.fib;
        }
        break;
    case O_POINT:
        if (f.pad == 2) { f.res = (int)f.op.arg; f.pad = 0; }
        break;
    default: break;
    }
    int sv = f.res;
    f.res = sv;
    run(t.fib);
}

struct Node
{
    Str snap;
    Vec<Trans> ts;
    size_t next;
    uint32_t id;
    Trans via;
};
Vec<Node> * g_stack;
Trans g_cur;
volatile uint64_t g_lastalarm;

void path_text(const Vec<Trans> & path, const Str & init)
{
    Str s, c;
    restore(init);
    if (R->bound >= 0) { R->w.last = 0; R->w.preempt = R->bound; }
    R->violated = false;
    Str msg = R->msg;
    for (auto & t : path)
    {
        s += "  " + describe(t) + "\n";
        char b[40];
        snprintf(b, sizeof b, "%d.%d.%d,", t.kind, t.fib, t.choice);
        c += b;
        step(t);
    }
    R->violated = true;
    R->msg = msg;
    free(mc::trace_text);
    mc::trace_text = strdup(s.c_str());
    snprintf(mc::trace_choices, 65536, "%s", c.c_str());
}
void raw_path()
{
    Str c;
    char b[40];
    if (g_stack)
        for (auto & n : *g_stack)
            if (n.via.kind >= 0) { snprintf(b, sizeof b, "%d.%d.%d,", n.via.kind, n.via.fib, n.via.choice); c += b; }
    snprintf(b, sizeof b, "%d.%d.%d", g_cur.kind, g_cur.fib, g_cur.choice);
    c += b;
    printf("TRACE %s\n", c.c_str());
    fflush(stdout);
}
void on_crash(int sig)
{
    printf("VIOLATED the code crashed with signal %d\n", sig);
    raw_path();
    _exit(1);
}
void on_alarm(int)
{
    if (R->steps == g_lastalarm)
    {
        printf("VIOLATED one thread runs for ever between two shared accesses\n");
        raw_path();
        _exit(1);
    }
    g_lastalarm = R->steps;
    alarm(20);
}
void * main_entry(void *) { R->setup->main_fiber(); return nullptr; }
void * sig_entry(void *) { R->setup->signal_body(); return nullptr; }
}

namespace mc
{
Result explore(const Setup & setup, const char * replay)
{
    rt();
    R->setup = &setup;
    asm("movq %%fs:0, %0" : "=r"(R->tls));
    R->tlslow = R->tls;
    dl_iterate_phdr([](struct dl_phdr_info * i, size_t, void *) -> int {
        for (int k = 0; k < i->dlpi_phnum; k++)
            if (i->dlpi_phdr[k].p_type == PT_TLS) R->tlslow -= (i->dlpi_phdr[k].p_memsz + 63) & ~63ull;
        return 0;
    }, nullptr);
    R->bound = setup.preempt;
    R->stacks = (char *)mmap((void *)0x200000000000ull, MAXF * STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (R->stacks == MAP_FAILED) { perror("mmap"); _exit(92); }
    auto h0 = R->w.handler;
    uint32_t u0 = R->w.used[0];
    memset((void *)&R->w, 0, sizeof R->w);
    R->w.handler = h0;
    R->w.used[0] = u0;
    R->w.last = -1;
    R->w.spurious = setup.spurious;
    R->w.preempt = setup.preempt;
    new_fiber(main_entry, nullptr);
    if (setup.signal_body) new_fiber(sig_entry, nullptr);
    static char altstack[65536];
    stack_t ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_flags = SA_ONSTACK;
    sa.sa_handler = on_crash;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP }) sigaction(s, &sa, nullptr);
    sa.sa_handler = on_alarm;
    sigaction(SIGALRM, &sa, nullptr);
    alarm(20);
    Str init;
    Result res{};
    if (setup.prefix)
    {   // run to mc::begin() under one schedule: everybody else first
        Vec<Trans> en;
        for (;;)
        {
            list(en);
            const Trans * pick = nullptr;
            for (auto & t : en)
                if (t.kind == 0 && t.fib != 0 && ! (setup.signal_body && t.fib == 1)) { pick = &t; break; }
            if (! pick)
            {
                if (R->w.f[0].op.k == O_BEGIN) break;
                for (auto & t : en)
                    if (t.kind == 0 && t.fib == 0) { pick = &t; break; }
            }
            if (! pick || R->violated || R->steps > 1000000)
            {
                res.violated = true;
                snprintf(res.message, sizeof res.message, "the pool does not start: %s", R->violated ? R->msg.c_str() : pick ? "endless" : "nothing can run");
                return res;
            }
            Trans t = *pick;
            g_cur = t;
            step(t);
        }
        R->acc.clear();
        R->lines.clear();
        R->lineinit.clear();
        R->lineidx.clear();
        R->restart = false;
        R->w.last = -1;
        R->w.preempt = setup.preempt;
    }
    snapshot(init);

    if (replay)
    {
        R->verbose = true;
        // discover the shared locations first: the caller passes a complete path recorded with the final set
        Vec<Trans> ts;
        const char * p = replay;
        while (*p)
        {
            int a, b, c, n = 0;
            if (sscanf(p, "%d.%d.%d%n", &a, &b, &c, &n) < 3) break;
            ts.push_back(Trans{ (signed char)a, (signed char)b, (short)c });
            p += n;
            if (*p == ',') p++;
        }
        for (auto & t : ts)
        {
            Vec<Trans> en;
            list(en);
            printf("  %s\n", describe(t).c_str());
            fflush(stdout);
            g_cur = t;
            step(t);
            if (R->violated) break;
        }
        res.violated = R->violated;
        snprintf(res.message, sizeof res.message, "%s", R->msg.c_str());
        return res;
    }

    Vec<std::pair<uint32_t, uint32_t>> edges;
    Vec<uint8_t> good;
    Map<Key, uint32_t, KeyH> seen;
    Vec<Node> stack;
    g_stack = &stack;
    Str cur;
    auto & out = res;
    // The set of shared locations is found by passes with small bounds first, then the real bound; a pass starts over when the set grows.
    const int want = setup.preempt;
    for (R->bound = want >= 0 && want < 1 ? want : 1;;)
    {
        R->restart = false;
        R->violated = false;
        edges.clear();
        good.clear();
        seen.clear();
        stack.clear();
        R->outcomes.clear();
        restore(init);
        if (R->bound >= 0) { R->w.last = 0; R->w.preempt = R->bound; }
        else { R->w.last = -1; R->w.preempt = 0; }
        snapshot(cur);
        out.states = out.transitions = out.terminal = out.executions = out.max_depth = 0;
        out.complete = true;
        seen.reserve(1 << 16);
        seen[hashb(cur.data(), cur.size())] = 0;
        good.push_back(0);
        out.states = 1;
        stack.push_back(Node{ cur, {}, 0, 0, Trans{ -1, 0, 0 } });
        list(stack.back().ts);
        bool bad = false;
        while (! stack.empty() && ! R->restart)
        {
            Node & n = stack.back();
            if (n.next >= n.ts.size())
            {
                stack.pop_back();
                continue;
            }
            Trans t = n.ts[n.next++];
            restore(n.snap);
            g_cur = t;
            step(t);
            out.transitions++;
            if (R->violated) { bad = true; break; }
            if (R->restart) break;
            snapshot(cur);
            Key k = hashb(cur.data(), cur.size());
            auto it = seen.find(k);
            if (it != seen.end())
            {
                edges.emplace_back(n.id, it->second);
                out.executions++;
                continue;
            }
            uint32_t id = (uint32_t)out.states++;
            seen[k] = id;
            good.push_back(0);
            edges.emplace_back(n.id, id);
            Node m{ cur, {}, 0, id, t };
            list(m.ts);
            bool runnable = false;
            for (auto & x : m.ts) runnable |= x.kind != 1;
            if (! runnable)
            {
                if (R->w.f[0].st == 2)
                {
                    out.terminal++;
                    out.executions++;
                    good[id] = 1;
                    if (setup.quiescent) setup.quiescent();
                    if (R->violated) { g_cur = t; bad = true; break; }
                }
                else
                {
                    R->violated = true;
                    Str m2 = "deadlock: the calling thread is blocked and nothing can run;";
                    for (int i = 0; i < R->w.nf; i++)
                    {
                        Fib & f = R->w.f[i];
                        char b[200];
                        snprintf(b, sizeof b, " thread %d: %s%s;", i, f.st == 2 ? "finished" : f.blocked == 1 ? "asleep in futex" : f.blocked == 2 ? "asleep in condition wait" : f.waitw ? "spinning on memory nobody writes" : opname[f.op.k], "");
                        m2 += b;
                    }
                    R->msg = m2;
                    bad = true;
                    break;
                }
            }
            if (out.states >= setup.max_states) { out.complete = false; break; }
            if (stack.size() > out.max_depth) out.max_depth = stack.size();
            stack.push_back(std::move(m));
        }
        if (R->restart) { out.restarts++; continue; }
        if (! bad && R->bound != want) { R->bound = want; continue; }
        if (bad)
        {
            Vec<Trans> path;
            for (auto & n : stack)
                if (n.via.kind >= 0) path.push_back(n.via);
            path.push_back(g_cur);
            out.violated = true;
            snprintf(out.message, sizeof out.message, "%s", R->msg.c_str());
            // may grow the set of shared locations no further: the same steps are repeated
            path_text(path, init);
            break;
        }
        if (out.complete)
        {   // from every reachable state the run can still end
            Vec<Vec<uint32_t>> pred;
            Vec<uint32_t> head(out.states, UINT32_MAX), nxt(edges.size());
            for (size_t i = 0; i < edges.size(); i++) { nxt[i] = head[edges[i].second]; head[edges[i].second] = (uint32_t)i; }
            Vec<uint32_t> q;
            for (uint32_t i = 0; i < out.states; i++)
                if (good[i]) q.push_back(i);
            while (! q.empty())
            {
                uint32_t v = q.back();
                q.pop_back();
                for (uint32_t e = head[v]; e != UINT32_MAX; e = nxt[e])
                    if (! good[edges[e].first]) { good[edges[e].first] = 1; q.push_back(edges[e].first); }
            }
            for (uint32_t i = 0; i < out.states; i++)
                if (! good[i])
                {
                    out.violated = true;
                    snprintf(out.message, sizeof out.message, "livelock: a reachable state exists from which no continuation ends (state %u of %lu)", i, (unsigned long)out.states);
                    break;
                }
        }
        break;
    }
    alarm(0);
    for (auto & a : R->acc) out.shared += a.second.shared;
    return out;
}
}
