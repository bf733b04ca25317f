// Harness of the log service: the real Logger.cpp (with its Python calls answered here), logging_service, waiting_deque and timer.
// script (calling thread): E enable, D disable, d disable with time-out, L log one message, S<p> start producer p..., J join producers,
//                          l<level> level of the Python logger, C CleanupLogging
#include "log.h"
#include "mc.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <unistd.h>
#include <ctime>
#include <time.h>

void * operator new(size_t n) { return mc::heap_alloc(n); }
void * operator new[](size_t n) { return mc::heap_alloc(n); }
void operator delete(void * p) noexcept { mc::heap_free(p); }
void operator delete(void * p, size_t) noexcept { mc::heap_free(p); }
void operator delete[](void * p) noexcept { mc::heap_free(p); }
void operator delete[](void * p, size_t) noexcept { mc::heap_free(p); }

namespace
{
constexpr int MAXM = 10;
struct Msg { int begun, ended, inwin, delivered, level, must, minlevel; };
struct Obj { Py_ssize_t refs; PyTypeObject * type; int kind; int val; Obj * sub; };
struct H
{
    int clock, enabled, everywin, ndel, sinklevel, winlevel, winlogs, cfg_interval, cfg_batch, cfg_max, finalizing, producers, gilheld, badseq, threads_before;
    int order[MAXM];
    Msg m[MAXM];
    pthread_t pt[4];
    long gil[8];
    int gilowner;
} h;
pthread_mutex_t & gilm() { return *(pthread_mutex_t *)h.gil; }
const char * script;
int nprod, permsg, withgil, maxsize, elapse;
int plevel = 30;
uint64_t deliveries;

// Python objects are immortal and one per value: they carry no state
Obj objs[200];
Obj * mk(int kind, int val = 0, Obj * sub = nullptr, PyTypeObject * type = nullptr)
{
    for (Obj & o : objs)
    {
        if (o.kind && ! (o.kind == kind && o.val == val && o.sub == sub)) continue;
        if (! o.kind) o = Obj{ 0x3fffffff | (Py_ssize_t)0xffffffff, type, kind, val, sub };
        return &o;
    }
    abort();
}
}
// ------------------------------------------------------------------ the part of Python that Logger.cpp uses
extern "C"
{
PyObject * PyExc_ValueError = (PyObject *)"ValueError";
PyTypeObject PyFunction_Type;
PyObject _Py_NoneStruct;
static PyTypeObject long_type;
void _Py_Dealloc(PyObject *) { mc::fail("a Python object is released once too often"); }
int _Py_IsFinalizing() { return h.finalizing; }
static void need(const char * f)
{
    if (mc::running() && h.gilowner != mc::self() + 1) mc::fail("%s is called without holding the GIL", f);
}
static void gil_take()
{
    pthread_mutex_lock(&gilm());
    h.gilowner = mc::self() + 1;
}
static void gil_drop(const char * f)
{
    need(f);
    h.gilowner = 0;
    pthread_mutex_unlock(&gilm());
}
PyGILState_STATE PyGILState_Ensure()
{
    if (h.gilowner == mc::self() + 1) return PyGILState_LOCKED;
    gil_take();
    return PyGILState_UNLOCKED;
}
int PyGILState_Check() { return h.gilowner == mc::self() + 1; }
void PyGILState_Release(PyGILState_STATE s)
{
    need("PyGILState_Release");
    if (s == PyGILState_UNLOCKED) gil_drop("PyGILState_Release");
}
PyThreadState * PyEval_SaveThread() { gil_drop("PyEval_SaveThread"); return (PyThreadState *)(intptr_t)(mc::self() + 1); }
void PyEval_RestoreThread(PyThreadState * t)
{
    if (t != (PyThreadState *)(intptr_t)(mc::self() + 1)) mc::fail("PyEval_RestoreThread with the state of another thread");
    gil_take();
}
PyObject * PyErr_Format(PyObject *, const char *, ...) { need("PyErr_Format"); return nullptr; }
int PyArg_ParseTuple(PyObject * args, const char * fmt, ...)
{
    need("PyArg_ParseTuple");
    va_list ap;
    va_start(ap, fmt);
    int i = 0;
    for (; *fmt; fmt++, i++)
        switch (*fmt)
        {
        case 'l': *va_arg(ap, long *) = i == 0 ? ((Obj *)args)->val : 0; break;
        case 'I': *va_arg(ap, unsigned *) = i == 1 ? h.cfg_batch : h.cfg_max; break;
        case 'O': *va_arg(ap, PyObject **) = &_Py_NoneStruct; break;
        }
    va_end(ap);
    return 1;
}
PyObject * PyImport_ImportModule(const char *) { return (PyObject *)mk(1); }
PyObject * PyObject_CallMethod(PyObject *, const char *, const char *, ...) { return (PyObject *)mk(2); }
PyObject * PyObject_GetAttrString(PyObject * o, const char * n)
{
    need("PyObject_GetAttrString");
    if (! o || ((Obj *)o)->kind != 2) { mc::fail("attribute %s of something that is no logger", n); return nullptr; }
    long_type.tp_flags = Py_TPFLAGS_LONG_SUBCLASS;
    if (! strcmp(n, "level")) return (PyObject *)mk(3, h.sinklevel, nullptr, &long_type);
    return (PyObject *)mk(4, 0, nullptr, &long_type + 1);
}
long PyLong_AsLong(PyObject * o) { return ((Obj *)o)->val; }
PyObject * PyUnicode_Decode(const char * s, Py_ssize_t, const char *, const char *) { need("PyUnicode_Decode"); return (PyObject *)mk(5, s[0] == 'm' ? atoi(s + 1) : -1); }
PyObject * Py_BuildValue(const char * f, ...)
{
    need("Py_BuildValue");
    if (strcmp(f, "(iN)")) return (PyObject *)mk(6);
    va_list ap;
    va_start(ap, f);
    int level = va_arg(ap, int);
    Obj * s = va_arg(ap, Obj *);
    va_end(ap);
    return (PyObject *)mk(7, level, s);
}
PyObject * PyList_New(Py_ssize_t) { return (PyObject *)mk(8); }
int PyList_SetItem(PyObject *, Py_ssize_t, PyObject *) { return 0; }
PyObject * PyUnicode_FromString(const char *) { return (PyObject *)mk(5); }
PyObject * PyObject_CallFunction(PyObject *, const char *, ...) { need("PyObject_CallFunction"); return (PyObject *)mk(9); }
// the delivery
PyObject * PyObject_Call(PyObject * f, PyObject * args, PyObject *)
{
    need("PyObject_Call");
    Obj * a = (Obj *)args;
    if (((Obj *)f)->kind != 4 || a->kind != 7 || ! a->sub || a->sub->kind != 5) { mc::fail("the handler is called with wrong objects"); return nullptr; }
    int id = a->sub->val;
    deliveries++;
    if (id < 0 || id >= MAXM || ! h.m[id].begun) mc::fail("a message that nobody logged is delivered (%d)", id);
    else
    {
        if (h.m[id].delivered++) mc::fail("message %d is delivered twice", id);
        if (! h.enabled) mc::fail("the handler runs (message %d) although logging is disabled", id);
        if (maxsize == 0) mc::fail("message %d is delivered although the queue may hold none", id);
        if (h.m[id].inwin && h.m[id].level < h.m[id].minlevel) mc::fail("message %d is delivered although it is below the level of the logger", id);
        if (a->val != h.m[id].level) mc::fail("message %d is delivered with level %d instead of %d", id, a->val, h.m[id].level);
        for (int j = 0; j < MAXM; j++)
            if (j != id && h.m[j].delivered && h.m[id].ended && h.m[j].begun > h.m[id].ended)
                mc::fail("message %d is delivered after message %d, which was logged later", id, j);
        // Python code may let other threads run
        h.gilowner = 0;
        pthread_mutex_unlock(&gilm());
        gil_take();
        if (! h.enabled) mc::fail("disable returned while the handler was running");
    }
    return (PyObject *)mk(9);
}
int clock_gettime(clockid_t, struct timespec * t)
{
    t->tv_sec = 1000;
    t->tv_nsec = 0;
    if (mc::running() && elapse && mc::user(0) < (uint64_t)elapse)
        if (mc::choose(2, "interval elapsed")) { mc::user(0)++; }
    t->tv_sec += (long)mc::user(0) * 100;
    return 0;
}
}

namespace
{
void log_one(int id, int level)
{
    Msg & m = h.m[id];
    m.level = level;
    bool in = h.enabled == 1;
    m.begun = ++h.clock;
    m.inwin = in;
    m.minlevel = h.winlevel;
    h.winlogs++;
    sut_log(id, level);
    m.ended = ++h.clock;
    // logged entirely while enabled, level high enough
    if (m.inwin && h.enabled == 1 && m.inwin == h.enabled && level >= h.winlevel) m.must = 1;
}
int winid;
void * producer(void * p)
{
    int n = (int)(intptr_t)p;
    for (int k = 0; k < permsg; k++)
    {
        if (withgil) gil_take();
        int w = h.everywin;
        log_one(1 + n * permsg + k, plevel);
        if (w != h.everywin) h.m[1 + n * permsg + k].must = 0;
        if (withgil) gil_drop("producer");
    }
    return nullptr;
}
void run_script()
{
    gil_take();
    int lm = 0, pr = 0;
    for (const char * s = script; *s; s++)
        switch (*s)
        {
        case 'E':
            {
                Obj * a = mk(10, h.cfg_interval);
                if (h.enabled) { sut_enable((PyObject *)a); break; }
                h.enabled = 2;       // being enabled
                h.winlevel = h.sinklevel;
                h.winlogs = 0;
                sut_enable((PyObject *)a);
                h.enabled = 1;
                h.everywin++;
                break;
            }
        case 'D':
        case 'd':
            {
                Obj * a = mk(10, *s == 'D' ? -1 : 0);
                bool was = h.enabled;
                if (was) { h.enabled = 2; h.everywin++; }
                sut_disable((PyObject *)a);
                if (was)
                    for (int i = 0; i < MAXM; i++)
                        if (h.m[i].must && ! h.m[i].delivered && *s == 'D' && h.winlogs <= maxsize)
                            mc::fail("message %d was logged while logging was enabled but not delivered before disable returned", i);
                for (int i = 0; i < MAXM; i++) h.m[i].must = 0;
                h.enabled = 0;
                break;
            }
        case 'C': sut_cleanup(); h.enabled = 0; break;
        case 'L': log_one(9 - lm++, 40); break;
        case 'l': h.sinklevel = (s[1] - '0') * 10; s++; break;
        case 'S': pthread_create(&h.pt[pr], nullptr, producer, (void *)(intptr_t)pr); pr++; break;
        case 'J':
            {
                PyThreadState * t = PyEval_SaveThread();
                for (int i = 0; i < pr; i++) pthread_join(h.pt[i], nullptr);
                PyEval_RestoreThread(t);
                break;
            }
        case '+':
            if (! sut_active()) mc::fail("logging is not active although it was enabled");
            break;
        }
    gil_drop("end");
}
void quiescent()
{
    for (int i = 0; i < mc::fibers(); i++)
        if (! mc::finished(i)) mc::fail("thread %d is still there after logging was disabled and everything was joined", i);
}
}
extern long mc_bss_begin[], mc_bss_end[], mc_data_begin[], mc_data_end[];
int main(int argc, char ** argv)
{
    // log <script> <producers: messages each> <gil> <maxsize> <batch> <timeouts/elapse> <spurious> <preempt> <maxstates>
    script = argv[1];
    permsg = atoi(argv[2]);
    withgil = atoi(argv[3]);
    maxsize = atoi(argv[4]);
    h.cfg_max = maxsize;
    h.cfg_batch = atoi(argv[5]);
    h.cfg_interval = 1000;
    elapse = atoi(argv[6]);
    mc::Setup s{};
    s.timeouts = true;
    s.spurious = atoi(argv[7]);
    s.preempt = atoi(argv[8]);
    s.max_states = strtoull(argv[9], nullptr, 0);
    s.full = true;
    s.main_fiber = run_script;
    s.quiescent = quiescent;
    if (! ((char *)mc_bss_begin < (char *)mc_bss_end) || ! ((char *)mc_data_begin < (char *)mc_data_end)) { printf("link order\n"); _exit(95); }
    sut_logger();
    sut_setup();
    mc::region(mc_bss_begin, (char *)mc_bss_end - (char *)mc_bss_begin, "bss");
    mc::region(mc_data_begin, (char *)mc_data_end - (char *)mc_data_begin, "data");
    mc::region(&h, sizeof h, "harness");
    mc::name(&h, sizeof h, "harness");
    mc::name(mc_bss_begin, (char *)mc_bss_end - (char *)mc_bss_begin, "static");
    mc::Result r = mc::explore(s, nullptr);
    if (r.violated)
    {
        printf("VIOLATED %s\n", r.message);
        if (mc::trace_text) printf("%s", mc::trace_text);
    }
    printf("%s states=%lu transitions=%lu executions=%lu terminal=%lu outcomes=%lu shared=%lu restarts=%lu depth=%lu complete=%d callbacks=%lu bss=%ld\n", r.violated ? "BAD" : "OK",
           (unsigned long)r.states, (unsigned long)r.transitions, (unsigned long)r.executions, (unsigned long)r.terminal, (unsigned long)mc::outcomes(), (unsigned long)r.shared, (unsigned long)r.restarts,
           (unsigned long)r.max_depth, r.complete, (unsigned long)deliveries, (long)((char *)mc_bss_end - (char *)mc_bss_begin));
    fflush(stdout);
    _exit(r.violated ? 1 : 0);
}
