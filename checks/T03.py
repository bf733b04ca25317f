"""Interrupts at every moment of an interruptible section, on the real pool and the real section."""
import pool

LIM = 30000000
QUICK = [[w, s, 0, 1, -1, 1, LIM] for w in (1, 2) for s in ('I{}', 'I{M1/0}', 'I{M2/0}', 'I{M3/0}', 'I{G2}', 'I{C0x8001/0}', 'M2/0 I{}', 'I{} M2/0')]
QUICK += [[1, s, 1, 1, -1, 1, LIM] for s in ('I{M2/0} M2/0', 'I{M2/0 G2}', 'I{M2/0} I{M2/0}', 'M1/0 I{M2/0} M2/0', 'I{C0x8001/0} C0x8001/0', 'I{A0/0x8001} M2/0', 'I{G3} G2', 'N0 I{M2/0} N1 M2/0', 'I{N0 M3/0 G2 N1} M2/0')]
QUICK += [[2, s, 0, 1, 2, 1, LIM] for s in ('I{M2/0} M2/0', 'I{M2/0 M2/0} M2/0', 'I{M2/0} I{M2/0}', 'I{G3} M3/0', 'I{C0x8001/0} M2/0', 'F1 I{M3/0} F2 M2/0')]
QUICK += [[3, 'I{M3/0} M1/0', 0, 1, 2, 1, LIM]]
THOROUGH = QUICK + [[2, s, 0, 1, -1, 1, LIM] for s in ('I{M2/0} M1/0', 'I{M4/0}', 'I{C0xc001/0}', 'I{G4}')] + \
    [[2, s, 1, 1, 4, 1, LIM] for s in ('I{M2/0} M2/0', 'I{M2/0} I{M2/0}', 'I{G3} M3/0')] + [[3, 'I{M2/0}', 0, 1, 5, 1, LIM], [3, 'I{M3/0} M2/0', 0, 1, 3, 1, LIM], [4, 'I{M2/0} M1/0', 0, 1, 2, 1, LIM]]
META = {'bounds': '1-4 workers x scripts with 1-2 interruptible sections and operations before and after; the signal is delivered at every reachable state (before, inside or after the section); '
                  'all interleavings for 1-2 workers, preemption bound 2-5 for longer scripts',
        'assumptions': ['the signal handler runs on the calling thread, which is suspended meanwhile', 'sequentially consistent memory', 'one signal per run']}
MEANING = ('states: distinct states of the real code including the installed handler; transitions: steps between accesses to shared memory or the delivery of the signal; traces_validated_against_impl: explorations run to completion')
HANG = 900


def parent_init(tier):
    pool.parent_init(tier)


def units(tier):
    u = [list(c) for c in (THOROUGH if tier == 'thorough' else QUICK)]
    u.sort(key=lambda c: -(c[0] * 3 + c[1].count(' ') * 2 + (c[4] < 0) * 4))
    return u


def run_unit(u, t):
    if not t.begin(u):
        return
    r = pool.explore(t, pool.EXE, u)
    if r:
        t.outcome((u[0], u[1], r['outcomes']))
        t.sample({'config': u, 'states': r['states'], 'transitions': r['transitions']})
