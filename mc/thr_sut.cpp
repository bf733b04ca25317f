// Facts about the work ring, compiled against the real headers (see thr.cpp).
#include "MathWorker.h"
extern "C" {
static stMATH_WORKER_ITEM * item_of(const void * a, bool & counter)
{
    counter = false;
    if (! g_cMathWorker || ! g_cMathWorker->pWorkerRing) return nullptr;
    const char * r = (const char *)g_cMathWorker->pWorkerRing;
    if ((const char *)a < r || (const char *)a >= r + sizeof(stWorkerRing)) return nullptr;
    const char * q = (const char *)g_cMathWorker->pWorkerRing->WorkerQueue;
    size_t d = (const char *)a - q;
    stMATH_WORKER_ITEM * w = (stMATH_WORKER_ITEM *)(q + d / sizeof(stMATH_WORKER_ITEM) * sizeof(stMATH_WORKER_ITEM));
    counter = (const char *)a >= q && d % sizeof(stMATH_WORKER_ITEM) == offsetof(stMATH_WORKER_ITEM, BlockNext);
    return w;
}
// the counter of blocks handed out: 1 if a block will be handed out, 2 if none is left; other parts of the ring: 3; else 0
int thr_claim(const void * a)
{
    bool c;
    stMATH_WORKER_ITEM * w = item_of(a, c);
    return ! w ? 0 : ! c ? 3 : w->BlockNext < w->BlockLast ? 1 : 2;
}
int thr_got(const void * a, int64_t old)
{
    bool c;
    stMATH_WORKER_ITEM * w = item_of(a, c);
    return w && c && old < w->BlockLast;
}
}
