// Harness of the worker pool: runs a script of operations on the real CMathWorker and checks every callback.
// script: M<n>/<wake>  C<len>/<wake>  G<n>  A<mode>/<len>  F<wake>  N<0|1>  I{...}
#include "mc.h"
#include "pool.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <unistd.h>

namespace
{
constexpr int MAXI = 12, MAXC = 40;
struct Op { char k; int64_t a, b; int len; };
Op ops[32];
int nops;
int workers, want_signal;
uint32_t participants[32];     // not part of the state
uint64_t callbacks;

struct H
{
    int op, active, inflight, interrupted;
    int8_t started[MAXI];
    int8_t busy[MAXC];
    int64_t lo[MAXI], hi[MAXI];
    int nchunk, nitems, section, inner, outer;
} h;
char base1[8], base2[8], baseo[8];
const int64_t VIRT = 1ll << 40;   // virtual bases of arrays that are never touched

void enter(int i, int core)
{
    callbacks++;
    if (! h.active) mc::fail("a work callback (item %d) runs although no operation is active", i);
    if (core >= 0 && core >= sut_cores()) mc::fail("core number %d out of range (%d cores)", core, sut_cores());
    if (core >= 0 && h.busy[core]) mc::fail("two callbacks run at the same time with core number %d", core);
    if (core < -1) mc::fail("negative core number %d", core);
    if (core >= 0) h.busy[core] = 1;
    h.inflight++;
    participants[h.op] |= 1u << mc::self();
    mc::note_outcome(((uint64_t)h.op * 64 + i) * 8 + mc::self());
    int op = h.op;
    mc::point("inside a callback");
    if (! h.active || h.op != op) mc::fail("the operation returned while a callback was running");
    if (core >= 0) h.busy[core] = 0;
    h.inflight--;
}
void item(void * arg, int64_t i, int core)
{
    if (h.active && arg != (void *)(intptr_t)(h.op + 1000)) mc::fail("a callback got the argument of another operation");
    if (i < 0 || i >= h.nitems) mc::fail("callback for item %ld of %d", (long)i, h.nitems);
    if (h.active && h.started[i]++) mc::fail("item %ld was handed out twice", (long)i);
    enter((int)i, core);
}
bool cb_item(void * arg, int32_t core, int64_t i) { if (core < 0) mc::fail("negative core number %d", core); item(arg, i, core); return true; }
bool cb_group(void * arg, int64_t i) { item(arg, i, -1); return true; }
void chunk(int64_t s, int64_t n, int core)
{
    if (n <= 0) mc::fail("callback for an empty chunk");
    int k = 0;
    if (h.active)
    {
        if (h.nchunk >= MAXI) mc::fail("too many chunks");
        while (k < h.nchunk && h.lo[k] < s) k++;
        if ((k < h.nchunk && h.lo[k] < s + n) || (k > 0 && h.hi[k - 1] > s)) mc::fail("chunk [%ld,%ld) overlaps a chunk handed out before", (long)s, (long)(s + n));
        for (int j = h.nchunk; j > k; j--) { h.lo[j] = h.lo[j - 1]; h.hi[j] = h.hi[j - 1]; }
        h.lo[k] = s;
        h.hi[k] = s + n;
        h.nchunk++;
    }
    enter((int)(s / 0x4000), core);
}
bool cb_chunk(void * arg, int32_t core, int64_t s, int64_t n)
{
    if (core < 0) mc::fail("negative core number %d", core);
    if (h.active && arg != (void *)(intptr_t)(h.op + 1000)) mc::fail("a callback got the argument of another operation");
    chunk(s, n, core);
    return true;
}
int64_t any_si = 8, any_so = 4;
int any_mode;
void cb_two(void * a, void * b, void * o, int64_t n, int32_t mode)
{
    int64_t x = (char *)a - (char *)VIRT, y = (char *)b - (char *)(2 * VIRT), z = (char *)o - (char *)(3 * VIRT);
    int64_t s = z / any_so;
    if (z % any_so || (any_mode != 1 ? x != s * any_si : x != 0) || (any_mode != 2 ? y != s * any_si : y != 0))
        mc::fail("a block got inconsistent operand positions (%ld, %ld -> %ld)", (long)x, (long)y, (long)z);
    chunk(s, n, -1);
}
void cb_one(void * a, void * o, int64_t n, int64_t si, int64_t so)
{
    int64_t x = (char *)a - (char *)VIRT, z = (char *)o - (char *)(3 * VIRT);
    int64_t s = z / any_so;
    if (x != s * any_si || si != any_si || so != any_so) mc::fail("a block got inconsistent operand positions (%ld -> %ld)", (long)x, (long)z);
    chunk(s, n, -1);
}

void outer_handler(int) { h.outer++; }
void sig_body()
{
    mc::point("signal arrives");
    mc::suspend_main(true);
    auto f = mc::sighandler();
    if (f == outer_handler || f == SIG_DFL || f == SIG_IGN) h.outer++;
    else
    {
        f(SIGINT);
        h.inner++;
    }
    mc::suspend_main(false);
}

void begin_op(int i, int items)
{
    h.op = i;
    h.nitems = items;
    h.nchunk = 0;
    memset(h.started, 0, sizeof h.started);
    memset(h.lo, 0, sizeof h.lo);
    memset(h.hi, 0, sizeof h.hi);
    h.active = 1;
}
void end_op(const Op & o)
{
    if (h.inflight) mc::fail("the operation returned while %d callbacks are running", h.inflight);
    h.active = 0;
    bool may_miss = h.section && h.inner;
    bool complete = true;
    if (o.k == 'M' || o.k == 'G')
    {
        for (int i = 0; i < o.a; i++)
            if (! h.started[i])
            {
                complete = false;
                if (! may_miss) mc::fail("item %d of %ld was never handed out", i, (long)o.a);
            }
    }
    else
    {
        int64_t at = 0, len = o.k == 'A' ? o.b : o.a;
        for (int k = 0; k < h.nchunk; k++)
        {
            if (h.lo[k] != at) complete = false;
            at = h.hi[k];
        }
        if (at > len) mc::fail("chunks reach %ld beyond the length %ld", (long)at, (long)len);
        if (at != len) complete = false;
        if (! complete && ! may_miss) mc::fail("chunks cover %d pieces up to %ld of %ld, with gaps", h.nchunk, (long)at, (long)len);
    }
}
int pc_section;
void run_ops(int from, int to);
void section_body()
{
    int at = pc_section;
    run_ops(at + 1, at + 1 + ops[at].len);
}
void run_ops(int from, int to)
{
    for (int i = from; i < to; i++)
    {
        const Op & o = ops[i];
        void * arg = (void *)(intptr_t)(i + 1000);
        switch (o.k)
        {
        case 'F': sut_wake((int)o.a); break;
        case 'N': sut_threading(o.a != 0); break;
        case 'M': begin_op(i, (int)o.a); sut_items((int)o.a, cb_item, arg, (int)o.b); end_op(o); break;
        case 'G': begin_op(i, (int)o.a); sut_groups(o.a, cb_group, arg); end_op(o); break;
        case 'C': begin_op(i, 0); sut_chunks(o.a, cb_chunk, arg, (int)o.b); end_op(o); break;
        case 'A':
            begin_op(i, 0);
            any_mode = (int)o.a;
            sut_any(any_mode, o.b, any_mode == 3 ? (void *)cb_one : (void *)cb_two, (char *)VIRT, (char *)(2 * VIRT), (char *)(3 * VIRT), any_si, any_so);
            end_op(o);
            break;
        case 'I':
            {
                h.section = 1;
                h.inner = 0;
                pc_section = i;
                bool r = sut_section(section_body);
                if (mc::sighandler() != outer_handler) mc::fail("the previous signal handler is not back in place after the section");
                if (h.inner && ! r) mc::fail("the interrupt reached the section but the section does not report it");
                if (! h.inner && r) mc::fail("the section reports an interrupt that did not happen");
                h.section = 0;
                h.inner = 0;
                i += o.len;
                break;
            }
        }
    }
}
void main_body()
{
    sut_start();
    if (workers && mc::sleeping() > workers) mc::fail("more workers than started");
    int from = 0;
    if (nops && ops[0].k == 'P')
    {   // earlier operations, under one schedule
        from = 1;
        static const Op two{ 'M', 2, 0, 0 };
        for (int i = 0; i < ops[0].a; i++)
        {
            begin_op(0, 2);
            sut_items(2, cb_item, (void *)(intptr_t)1000, 0);
            end_op(two);
        }
    }
    mc::begin();
    run_ops(from, nops);
}
void quiescent()
{
    int w = mc::fibers() - 1 - want_signal;
    if (w != workers) mc::fail("%d worker threads exist, %d were configured", w, workers);
    if (mc::sleeping() != workers) mc::fail("after the last operation only %d of %d workers are asleep", mc::sleeping(), workers);
}
int parse(const char * s, int at)
{   // returns number of ops appended at top level
    int n0 = nops;
    while (*s && *s != '}')
    {
        if (*s == ' ') { s++; continue; }
        Op & o = ops[nops++];
        o.k = *s++;
        if (o.k == 'I')
        {
            int me = nops - 1, depth = 1;
            s++;
            std::string in;
            while (*s && depth) { if (*s == '{') depth++; if (*s == '}' && --depth == 0) break; in += *s++; }
            s++;
            int b = nops;
            parse(in.c_str(), 0);
            ops[me].len = nops - b;
            continue;
        }
        char * e;
        o.a = strtoll(s, &e, 0);
        s = e;
        if (*s == '/') { o.b = strtoll(s + 1, &e, 0); s = e; }
    }
    return nops - n0;
}
int segment_check()
{
    sut_init(3);
    uint64_t cases = 0, parts = 0;
    for (int wake = 1; wake <= 31; wake++)
    {
        sut_wake(wake);
        for (int64_t maxc = 0; maxc <= 33; maxc++)
            for (int64_t bins = 0; bins <= 130; bins++)
            {
                int64_t lo[64], hi[64], num[64];
                int64_t n = sut_segment(bins, maxc, lo, hi, num);
                int64_t at = 0;
                bool ok = n >= 0 && n <= 31 && (maxc == 0 || n <= maxc) && n <= wake && (bins == 0 || n > 0);
                for (int64_t i = 0; i < n; i++)
                {
                    ok &= lo[i] == at && hi[i] >= lo[i] && num[i] == i;
                    at = hi[i];
                }
                ok &= n == 0 ? bins == 0 : at == bins;
                cases++;
                parts += n;
                if (! ok) { printf("VIOLATED bin segmentation of %ld bins over %ld cores (wake %d) is no partition\n", (long)bins, (long)maxc, wake); return 1; }
            }
    }
    printf("OK states=%lu transitions=%lu executions=%lu terminal=0 outcomes=1 shared=0 restarts=0 depth=1 complete=1 callbacks=0 participants=\n", (unsigned long)cases, (unsigned long)parts, (unsigned long)cases);
    return 0;
}
}

int main(int argc, char ** argv)
{
    // pool <workers> <script> <spurious> <signal> <preempt> <prefix> <maxstates>
    if (argc > 1 && ! strcmp(argv[1], "segment")) return segment_check();
    workers = atoi(argv[1]);
    parse(argv[2], 0);
    mc::Setup s{};
    s.spurious = atoi(argv[3]);
    want_signal = atoi(argv[4]);
    s.preempt = atoi(argv[5]);
    s.prefix = atoi(argv[6]);
    s.max_states = strtoull(argv[7], nullptr, 0);
    s.main_fiber = main_body;
    s.quiescent = quiescent;
    s.signal_body = want_signal ? sig_body : nullptr;
    sut_init(workers);
    size_t n;
    void * ring = sut_ring(&n);
    mc::name(ring, n, "ring");
    mc::region(&h, sizeof h, "harness");
    mc::region(&pc_section, sizeof pc_section, "harness");
    mc::set_sighandler(outer_handler);
    mc::Result r = mc::explore(s, nullptr);
    std::string parts;
    for (int i = 0; i < nops; i++)
    {
        char b[40];
        snprintf(b, sizeof b, "%s%x", i ? "," : "", participants[i]);
        parts += b;
    }
    if (r.violated)
    {
        printf("VIOLATED %s\n", r.message);
        if (mc::trace_text) printf("%s", mc::trace_text);
    }
    printf("%s states=%lu transitions=%lu executions=%lu terminal=%lu outcomes=%lu shared=%lu restarts=%lu depth=%lu complete=%d callbacks=%lu participants=%s\n", r.violated ? "BAD" : "OK",
           (unsigned long)r.states, (unsigned long)r.transitions, (unsigned long)r.executions, (unsigned long)r.terminal, (unsigned long)mc::outcomes(), (unsigned long)r.shared, (unsigned long)r.restarts,
           (unsigned long)r.max_depth, r.complete, (unsigned long)callbacks, parts.c_str());
    fflush(stdout);
    _exit(r.violated ? 1 : 0);
}
