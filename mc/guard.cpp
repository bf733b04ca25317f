// Allocators for the 'grd' build of the module: every block of the module (malloc, calloc, realloc, new of >= 512 bytes)
// and every numpy array allocated while the handler is installed is filled with a pattern and, in the guard modes,
// placed against an inaccessible page; freed blocks become inaccessible and their addresses are not used again.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" void * __real_malloc(size_t);
extern "C" void * __real_calloc(size_t, size_t);
extern "C" void * __real_realloc(void *, size_t);
extern "C" void __real_free(void *);
extern "C" void * __real__Znwm(size_t);
extern "C" void * __real__Znam(size_t);
extern "C" void __real__ZdlPv(void *);
extern "C" void __real__ZdlPvm(void *, size_t);
extern "C" void __real__ZdaPv(void *);

namespace
{
    int g_mode = 0; // 0 fill only, 1 the end against a guard page, 2 the start against a guard page
    int g_fill = -1;
    const size_t ARENA = (size_t)1 << 43; // 8 TB of addresses
    char *arena, *next_;
    pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
    int64_t live[2]; // blocks of the module, of numpy
    int64_t total;
    const size_t PG = 4096;

    struct Head // in the page before the block's pages
    {
        size_t bytes, pages;
        char * start;
        int kind;
    };

    bool mine(const void * p)
    {
        return arena && (const char *)p >= arena && (const char *)p < arena + ARENA;
    }

    // blocks are found again through a side table keyed by the page of the pointer
    struct Slot
    {
        uintptr_t page;
        Head h;
    };
    Slot * tab;
    const size_t NT = 1 << 16;
    Slot * find(uintptr_t page, bool insert)
    {
        if (! tab)
            tab = (Slot *)__real_calloc(NT, sizeof(Slot));
        size_t i = (page * 0x9E3779B97F4A7C15ull >> 40) & (NT - 1);
        Slot * tomb = nullptr;
        for (size_t k = 0; k < NT; ++k, i = (i + 1) & (NT - 1))
        {
            if (tab[i].page == page)
                return &tab[i];
            if (tab[i].page == 1 && ! tomb)
                tomb = &tab[i];
            if (tab[i].page == 0)
                return insert ? (tomb ? tomb : &tab[i]) : nullptr;
        }
        if (insert && ! tomb)
            abort();
        return insert ? tomb : nullptr;
    }

    void * galloc(size_t n, int kind, bool zero)
    {
        pthread_mutex_lock(&mu);
        if (! arena)
        {
            arena = (char *)mmap(nullptr, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (arena == MAP_FAILED)
                abort();
            next_ = arena + PG;
        }
        size_t bytes = n ? n : 1;
        size_t pages = (bytes + PG - 1) / PG;
        if (n > (size_t)1 << 40 || next_ + (pages + 2) * PG > arena + ARENA)
        {
            pthread_mutex_unlock(&mu);
            return nullptr;
        }
        char * base = next_;
        if (mprotect(base, pages * PG, PROT_READ | PROT_WRITE))
        {
            pthread_mutex_unlock(&mu);
            return nullptr;
        }
        next_ += (pages + 1) * PG;
        char * p = g_mode == 2 ? base : base + pages * PG - bytes;
        if (! zero && g_fill >= 0)
            memset(p, g_fill, bytes);
        Slot * s = find((uintptr_t)p / PG, true);
        s->page = (uintptr_t)p / PG;
        s->h = Head{ bytes, pages, base, kind };
        ++live[kind];
        ++total;
        pthread_mutex_unlock(&mu);
        return p;
    }

    void gfree(void * p)
    {
        pthread_mutex_lock(&mu);
        Slot * s = find((uintptr_t)p / PG, false);
        if (! s)
            abort(); // freed twice or never allocated
        Head h = s->h;
        char * expect_end = h.start + h.pages * PG - h.bytes;
        if ((char *)p != h.start && (char *)p != expect_end)
            abort(); // not the start of the block
        s->page = 1;
        --live[h.kind];
        mmap(h.start, h.pages * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        pthread_mutex_unlock(&mu);
    }

    size_t gsize(void * p)
    {
        pthread_mutex_lock(&mu);
        Slot * s = find((uintptr_t)p / PG, false);
        if (! s)
            abort();
        size_t n = s->h.bytes;
        pthread_mutex_unlock(&mu);
        return n;
    }

    void * ralloc(size_t n)
    {
        void * p = __real_malloc(n);
        if (p && g_fill >= 0)
            memset(p, g_fill, n);
        return p;
    }

    void * grealloc(void * p, size_t n, int kind)
    {
        if (p && ! mine(p))
            return __real_realloc(p, n);
        if (! g_mode && ! p)
            return ralloc(n);
        void * q = galloc(n, kind, false);
        if (q && p)
        {
            size_t o = gsize(p);
            memcpy(q, p, o < n ? o : n);
            gfree(p);
        }
        return q;
    }
}

extern "C"
{
    void * __wrap_malloc(size_t n)
    {
        return g_mode ? galloc(n, 0, false) : ralloc(n);
    }
    void * __wrap_calloc(size_t a, size_t b)
    {
        size_t n;
        if (__builtin_mul_overflow(a, b, &n))
            return nullptr;
        return g_mode ? galloc(n, 0, true) : __real_calloc(a, b);
    }
    void * __wrap_realloc(void * p, size_t n)
    {
        return grealloc(p, n, 0);
    }
    void __wrap_free(void * p)
    {
        if (p && mine(p))
            gfree(p);
        else
            __real_free(p);
    }
    // strings cross into libstdc++ and are small: only large blocks are guarded
    void * __wrap__Znwm(size_t n)
    {
        if (g_mode && n >= 512)
            if (void * p = galloc(n, 0, false))
                return p;
        void * p = __real__Znwm(n);
        if (g_fill >= 0)
            memset(p, g_fill, n);
        return p;
    }
    void * __wrap__Znam(size_t n)
    {
        if (g_mode)
            if (void * p = galloc(n, 0, false))
                return p;
        void * p = __real__Znam(n);
        if (g_fill >= 0)
            memset(p, g_fill, n);
        return p;
    }
    void __wrap__ZdlPv(void * p)
    {
        mine(p) ? gfree(p) : __real__ZdlPv(p);
    }
    void __wrap__ZdlPvm(void * p, size_t n)
    {
        mine(p) ? gfree(p) : __real__ZdlPvm(p, n);
    }
    void __wrap__ZdaPv(void * p)
    {
        mine(p) ? gfree(p) : __real__ZdaPv(p);
    }

    // numpy
    static void * np_malloc(void *, size_t n)
    {
        return g_mode ? galloc(n, 1, false) : ralloc(n);
    }
    static void * np_calloc(void *, size_t a, size_t b)
    {
        size_t n;
        if (__builtin_mul_overflow(a, b, &n))
            return nullptr;
        return g_mode ? galloc(n, 1, true) : __real_calloc(a, b);
    }
    static void * np_realloc(void *, void * p, size_t n)
    {
        return grealloc(p, n, 1);
    }
    static void np_free(void *, void * p, size_t)
    {
        __wrap_free(p);
    }
    struct NpAlloc
    {
        void * ctx;
        void * (*malloc)(void *, size_t);
        void * (*calloc)(void *, size_t, size_t);
        void * (*realloc)(void *, void *, size_t);
        void (*free)(void *, void *, size_t);
    };
    struct NpHandler
    {
        char name[127];
        uint8_t version;
        NpAlloc a;
    };
    __attribute__((visibility("default"))) NpHandler vf_g_handler = { "vf", 1, { nullptr, np_malloc, np_calloc, np_realloc, np_free } };
    __attribute__((visibility("default"))) void vf_g_set(int mode, int fill)
    {
        g_mode = mode;
        g_fill = fill;
    }
    __attribute__((visibility("default"))) void vf_g_stat(int64_t * o)
    {
        o[0] = live[0];
        o[1] = live[1];
        o[2] = total;
    }
    // makes the pages of a guarded block read-only (1) or writable (0); returns 0 if p is not such a block
    __attribute__((visibility("default"))) int vf_g_protect(void * p, int ro)
    {
        if (! mine(p))
            return 0;
        pthread_mutex_lock(&mu);
        Slot * s = find((uintptr_t)p / PG, false);
        int r = 0;
        if (s)
            r = ! mprotect(s->h.start, s->h.pages * PG, ro ? PROT_READ : PROT_READ | PROT_WRITE);
        pthread_mutex_unlock(&mu);
        return r;
    }
}
