"""Worker pool: exactly-once distribution and completion. Explicit-state exploration of the real CMathWorker."""
import pool

# workers, script, spurious wake-ups, signal, preemption bound (-1: none), explore from after start-up, state limit
LIM = 30000000
QUICK = []
for w in (1, 2):
    QUICK += [[w, s, 0, 0, -1, 1, LIM] for s in
              ('M1/0', 'M2/0', 'M3/0', 'M4/0', 'M3/1', 'M3/2', 'G2', 'G3', 'C0x7fff/0', 'C0x8000/0', 'C0x8001/0', 'C0xbfff/0', 'C0xc000/0', 'C0xc001/0', 'C0x8001/1',
               'A0/0x8001', 'A1/0x8001', 'A2/0x8001', 'A3/0x8001', 'A0/0xc000', 'M0/0', 'M2/0 M2/0', 'F1 M2/0 M2/0', 'F1 M2/0 F2 M2/0', 'M2/0 N0 M3/0 N1 M2/0', 'P1023 M2/0 M1/0')]
QUICK += [[1, s, 1, 0, -1, 1, LIM] for s in ('M2/0 M2/0 M2/0', 'M2/0 C0x8001/0 M3/0', 'C0x8001/0 M3/0 G2', 'A0/0x8001 C0x8001/0')]
QUICK += [[3, 'M2/0', 0, 0, -1, 1, LIM], [3, 'M3/0', 0, 0, -1, 1, LIM], [3, 'M3/2', 0, 0, -1, 1, LIM]]
QUICK += [[2, s, 1, 0, 2, 1, LIM] for s in ('M2/0 M3/0 C0x8001/0', 'C0x8001/0 M3/0 G2', 'F1 M2/0 F11 M3/0 C0xc001/0', 'M3/0 A3/0x8001 M2/0', 'M1/0 M1/0 M1/0 M1/0')]
QUICK += [[3, 'M3/0 M2/0', 0, 0, 2, 1, LIM], [4, 'M2/0 M2/0', 0, 0, 1, 1, LIM], [2, 'M2/0 M2/0', 0, 0, -1, 0, LIM]]
THOROUGH = QUICK + [[3, s, 0, 0, -1, 1, LIM] for s in ('M4/0', 'C0x8001/0', 'A0/0x8001', 'G3')] + \
    [[3, 'M3/0 M2/0', 1, 0, 3, 1, LIM], [3, 'C0x8001/0 M2/0 G3', 0, 0, 3, 1, LIM], [4, 'M3/0', 0, 0, 4, 1, LIM], [4, 'M3/0 M2/0', 0, 0, 2, 1, LIM],
     [2, 'M2/0 M2/0', 1, 0, -1, 1, LIM], [2, 'C0x8001/0 M3/0', 0, 0, -1, 1, LIM], [2, 'M2/0 M2/0 M2/0', 0, 0, 4, 1, LIM], [1, 'M2/0 M2/0 M2/0 M2/0 M2/0', 1, 0, -1, 1, LIM],
     [5, 'M2/0', 0, 0, 3, 1, LIM]]
META = {'bounds': '1-5 worker threads x scripts of 1-5 operations (item counts 0-4, chunk lengths around 2 and 3 blocks, group-by, two-input and one-input blocks, wake limits, threading off and on, ring wrap-around); '
                  'all interleavings at every access to shared memory for 1-3 workers (no preemption bound), preemption bound 1-4 for longer series; every choice of threads woken by the futex; up to one spurious wake-up',
        'assumptions': ['sequentially consistent memory (all synchronisation is by locked instructions, which are full barriers on x86)', 'futex and thread creation are modelled per their specification',
                        'one calling thread (the Python API holds the GIL)']}
MEANING = ('states: distinct states of the real code (memory written + stacks + registers of all threads); transitions: steps of one thread between two accesses to shared memory, all executed on the real code; '
           'traces_validated_against_impl: explorations (script x configuration) run to completion; the model is the implementation itself')
HANG = 900


def parent_init(tier):
    pool.parent_init(tier)


def units(tier):
    u = [list(c) for c in (THOROUGH if tier == 'thorough' else QUICK)]
    u.sort(key=lambda c: -cost(c))
    return u + [['segment']]


def cost(c):
    n = c[1].count(' ') + 1
    return c[0] * 3 + n * 2 + (c[4] < 0) * 4


def run_unit(u, t):
    if not t.begin(u):
        return
    r = pool.explore(t, pool.EXE, u)
    if r:
        t.outcome((u[0], str(u[1:2]), r['outcomes']))
        t.count('distinct_assignments', r['outcomes'])
        t.sample({'config': u, 'states': r['states'], 'transitions': r['transitions']})
