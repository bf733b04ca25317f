// Interface between the model-checking runtime and a harness.
#pragma once
#include <cstddef>
#include <cstdint>
namespace mc
{
// ---- called by the harness, inside fibers
void fail(const char * fmt, ...);            // the property is violated in this state
void point(const char * what);               // an explicit scheduling point
int choose(int n, const char * what);        // nondeterministic choice (explored exhaustively)
int self();                                  // number of the running fiber (0 = main)
bool spend(int which);                       // take one unit of a budget
void mark(const void * p, size_t n);         // memory written by code that is not instrumented
void * heap_alloc(size_t n);                  // the explored program's heap, one area per fiber
void heap_free(void * p);
bool running();
void begin();                                // end of the part that is not explored (Setup::prefix)
void (*sighandler())(int);                   // what signal(SIGINT, ...) installed last
void set_sighandler(void (*h)(int));
uint64_t & user(int i);                      // four words of harness state kept with the world
void suspend_main(bool b);                   // fiber 0 may not run (a signal handler runs on it)
int fibers();
bool finished(int i);
int sleeping();                              // number of fibers blocked in a futex or condition wait
// ---- provided by the harness
struct Setup
{
    void (*main_fiber)();                    // body of fiber 0
    void (*quiescent)();                     // called (not on a fiber) in every state where nothing can run and main has finished
    void (*signal_body)();                   // body of the signal pseudo fiber, or null
    int spurious;                            // number of spurious wake-ups that may happen
    bool timeouts;                           // timed waits may time out
    int preempt;                             // preemption bound, -1 = none
    uint64_t max_states;
    bool prefix;                             // run to begin() under one schedule first
    bool full;                               // snapshot data, bss and arena completely (else: only lines written)
};
void region(void * p, size_t n, const char * name);   // memory that belongs to the state
void name(const void * p, size_t n, const char * name);
struct Result
{
    uint64_t states, transitions, executions, terminal, restarts, max_depth, shared;
    bool complete, violated;
    char message[2048];
};
Result explore(const Setup & s, const char * replay);
void note_outcome(uint64_t h);               // distinct observed outcomes (counted)
uint64_t outcomes();
extern char * trace_text;                    // text of the violating schedule
extern char trace_choices[];
}
