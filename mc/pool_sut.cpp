// The part of the pool harness that is compiled with the scheduling instrumentation: it only forwards to the real classes.
#include "MathWorker.h"
#include "interrupt.h"
#include "pool.h"
CMathWorker * g_cMathWorker;
void sut_init(int workers)
{
    g_cMathWorker = new CMathWorker();
    g_cMathWorker->WorkerThreadCount = workers;
}
void sut_start() { g_cMathWorker->StartWorkerThreads(0); }
void sut_items(int n, bool (*cb)(void *, int32_t, int64_t), void * arg, int wake) { g_cMathWorker->DoMultiThreadedWork(n, cb, arg, wake); }
bool sut_chunks(int64_t n, bool (*cb)(void *, int32_t, int64_t, int64_t), void * arg, int wake) { return g_cMathWorker->DoMultiThreadedChunkWork(n, cb, arg, wake); }
void sut_groups(int64_t n, bool (*cb)(void *, int64_t), void * arg) { g_cMathWorker->WorkGroupByCall((GROUPBY_FUNC)cb, arg, n); }
static FUNCTION_LIST g_fl;
void sut_any(int mode, int64_t n, void * cb, char * in1, char * in2, char * out, int64_t si, int64_t so)
{   // as in the two-input and one-input kernels
    stMATH_WORKER_ITEM * w = g_cMathWorker->GetWorkItem(n);
    if (! w) return;
    w->DoWorkCallback = CMathWorker::AnyTwoCallback;
    w->OldCallback.FunctionList = &g_fl;
    w->OldCallback.ScalarMode = mode == 3 ? 0 : mode == 0 ? NO_SCALARS : mode == 1 ? FIRST_ARG_SCALAR : SECOND_ARG_SCALAR;
    w->OldCallback.pDataInBase1 = in1;
    w->OldCallback.pDataInBase2 = in2;
    w->OldCallback.pDataOutBase1 = out;
    g_fl.TypeOfFunctionCall = mode == 3 ? ANY_ONE : ANY_TWO;
    g_fl.InputItemSize = si;
    g_fl.OutputItemSize = so;
    g_fl.FunctionPtr = cb;
    g_cMathWorker->WorkMain(w, n, 0);
}
int sut_wake(int n) { return g_cMathWorker->SetFutexWakeup(n); }
void sut_threading(bool on) { g_cMathWorker->NoThreading = ! on; }
int sut_cores() { return g_cMathWorker->GetNumCores(); }
bool sut_section(void (*fn)()) { return riptide::interruptible_section([fn] { fn(); }); }
int64_t sut_segment(int64_t bins, int64_t maxc, int64_t * lo, int64_t * hi, int64_t * num)
{
    stBinCount * p = nullptr;
    int64_t n = g_cMathWorker->SegmentBins(bins, maxc, &p);
    for (int64_t i = 0; i < n && i < 64; i++) { lo[i] = p[i].BinLow; hi[i] = p[i].BinHigh; num[i] = p[i].BinNum; }
    free(p);
    return n;
}
void * sut_ring(size_t * n) { *n = sizeof(stWorkerRing); return g_cMathWorker->pWorkerRing; }
void * FmAlloc(size_t n) { return malloc(n); }
void FmFree(void * p) { free(p); }
