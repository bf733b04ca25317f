"""Worker pool: no deadlock, livelock or unusable pool; start-up, series of operations, wake limits, wake orders, spurious wake-ups."""
import pool

LIM = 30000000
ALLW = ('F2 M2/0', 'M2/0 M2/0', 'M3/0', 'G2', 'C0x8001/0')
# workers, script, spurious wake-ups, signal, preemption bound, prefix, limit
QUICK = [[w, '', s, 0, -1, 0, LIM] for w in (1, 2, 3) for s in (0, 1)] + [[4, '', 0, 0, 4, 0, LIM]]
QUICK += [[w, s, 0, 0, -1, 0, LIM] for w in (1, 2) for s in ('M1/0', 'M2/0', 'M2/1', 'F1 M3/0')]
QUICK += [[w, s, sp, 0, -1, 1, LIM] for w in (1, 2) for sp in (0, 2 if w == 1 else 1) for s in
          ('M2/0', 'M2/1', 'F1 M2/0 M1/0', 'C0x8001/0', 'G2', 'A2/0x8001')]
QUICK += [[1, s, 2, 0, -1, 1, LIM] for s in ('M1/0 M1/0 M1/0', 'F1 M2/0 F0 M2/0 F40 M2/0', 'G2 C0x8000/0', 'P1023 M1/0 M1/0')]
QUICK += [[2, s, 1, 0, 2, 1, LIM] for s in ('M1/0 M1/0 M1/0 M1/0', 'F1 M2/0 F2 M2/0 F11 M2/0', 'G2 C0x8000/0 M1/0', 'P1023 M1/0 M2/0')]
QUICK += [[3, s, 0, 0, 2, 1, LIM] for s in ('F1 M2/0 M2/0', 'F2 M3/0 M1/0', 'M1/0 M1/0')]
QUICK += [[3, 'M2/0', 0, 0, -1, 1, LIM], [3, 'F2 M2/0', 0, 0, -1, 1, LIM], [2, 'M1/0 M1/0', 0, 0, -1, 1, LIM]]
THOROUGH = QUICK + [[2, s, 2, 0, -1, 1, LIM] for s in ('M2/0', 'F1 M2/0 M1/0')] + [[2, 'M1/0 M1/0 M1/0', 0, 0, 5, 1, LIM], [3, 'M1/0 M1/0', 0, 0, 4, 1, LIM], [3, 'M2/0', 1, 0, 5, 1, LIM],
                    [3, 'M1/0', 0, 0, 4, 0, LIM], [2, 'M2/0 M2/0', 1, 0, -1, 0, LIM], [4, 'M1/0 M1/0', 0, 0, 3, 1, LIM], [1, 'M1/0 M1/0 M1/0 M1/0 M1/0 M1/0', 3, 0, -1, 1, LIM],
                    [5, '', 0, 0, 3, 0, LIM]]
META = {'bounds': '1-5 workers; start-up explored from the first thread creation; scripts of 0-6 operations with wake limits 0..40; every subset of sleepers a limited wake can choose; up to 3 spurious wake-ups; '
                  'full interleaving (1-3 workers) or preemption bound 1-5. Checked in the state graph: no deadlock, every reachable state can still reach the end, at the end every worker is asleep, '
                  'and every worker can take part in every operation that may wake all of them',
        'assumptions': ['sequentially consistent memory', 'futex semantics: compare-and-sleep atomic, a wake picks any sleepers up to its count', 'a spinning thread is scheduled again once another thread wrote shared memory']}
MEANING = ('states: distinct states of the real code; transitions: steps between accesses to shared memory, executed on the real code; traces_validated_against_impl: explorations run to completion')
HANG = 900


def parent_init(tier):
    pool.parent_init(tier)


def units(tier):
    u = [list(c) for c in (THOROUGH if tier == 'thorough' else QUICK)]
    u.sort(key=lambda c: -(c[0] * 3 + c[1].count(' ') * 2 + (c[4] < 0) * 4))
    return u


def run_unit(u, t):
    if not t.begin(u):
        return
    r = pool.explore(t, pool.EXE, u)
    if not r:
        return
    t.outcome((u[0], u[1], r['outcomes']))
    t.sample({'config': u, 'states': r['states'], 'transitions': r['transitions']})
    lim = 11
    for o, m in zip(u[1].split(), str(r['participants']).split(',')):
        if o[0] == 'F':
            lim = max(1, min(31, int(o[1:])))
        if o in ('M2/0', 'M3/0', 'G2', 'C0x8000/0', 'C0x8001/0') and lim >= u[0] and u[0] <= 2 and u[5] == 1:
            t.count('participation_checked')
            if int(m, 16) != (1 << (u[0] + 1)) - 1:
                t.fail('in no schedule does every worker take part in %s (threads seen: %s): a needed wake-up is lost' % (o, m))
