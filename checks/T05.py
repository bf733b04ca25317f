"""The log service: the real Logger.cpp, logging_service, waiting queue and timer under every interleaving within a preemption bound."""
import pool

EXE = None
LIM = 30000000
# script, messages per producer, producers hold the GIL, queue limit, batch size, interval can elapse (times), spurious wake-ups, preemptions
QUICK = [[s, 1, 0, 100, 2, 0, 0, p, LIM] for p in (0, 1, 2) for s in ('EL+D', 'ED', 'EDEDED', 'ELLDL', 'LELD')]
QUICK += [['EL+d', 1, 0, 100, 2, 1, 0, 2, LIM], ['EDELD', 1, 0, 100, 1, 0, 0, 2, LIM], ['ESDJE+D', 1, 0, 100, 2, 0, 0, 2, LIM], ['ESDJE+LD', 1, 1, 100, 1, 0, 0, 2, LIM],
          ['ESDE+LDJ', 1, 0, 100, 2, 0, 0, 2, LIM], ['ES+LD', 2, 0, 100, 1, 0, 0, 1, LIM], ['ESS+D', 1, 0, 100, 2, 0, 0, 1, LIM], ['ESS+JD', 1, 1, 100, 2, 0, 0, 1, LIM],
          ['ELLLDELD', 1, 0, 2, 2, 0, 0, 1, LIM], ['l4ELS+JDl3ELSD', 1, 0, 100, 1, 0, 0, 1, LIM], ['l5EL+D', 1, 0, 100, 1, 0, 0, 1, LIM], ['ELLD', 0, 0, 0, 2, 0, 0, 2, LIM], ['ELLLLD', 0, 0, 4, 3, 0, 0, 1, LIM],
          ['ELLLD', 1, 0, 100, 2, 2, 1, 1, LIM], ['ESLLD', 1, 0, 3, 1, 1, 0, 1, LIM], ['ESdE+LdJ', 1, 0, 100, 2, 0, 0, 1, LIM], ['ELLLLdELD', 1, 0, 100, 1, 0, 0, 1, LIM],
          ['EESDDJD', 1, 1, 100, 2, 0, 0, 1, LIM]]
THOROUGH = QUICK + [['ESDJE+D', 1, 0, 100, 2, 0, 0, 3, LIM], ['ESLD', 2, 1, 5, 2, 1, 0, 2, LIM], ['ESSLD', 2, 1, 5, 2, 1, 0, 1, LIM], ['ESdE+LdJ', 1, 0, 100, 2, 0, 0, 2, LIM],
                    ['ES+LDJELD', 1, 0, 100, 1, 0, 1, 2, LIM], ['EL+D', 1, 0, 100, 2, 1, 1, 4, LIM], ['EDELD', 1, 0, 100, 1, 1, 1, 3, LIM], ['ELLd', 1, 0, 100, 1, 1, 1, 3, LIM], ['ESSD', 1, 0, 100, 2, 0, 0, 2, LIM],
                    ['ESS+JDELD', 1, 1, 100, 1, 1, 0, 2, LIM]]
META = {'bounds': 'scripts of up to 9 control calls and messages of the controlling thread, 0-2 producer threads with 1-2 messages, with and without the GIL, batch size 1-3, queue limit 0-100, '
                  'flush interval elapsing 0-2 times (time-outs of the waits themselves at any moment), 0-1 spurious wake-ups; preemption bound 0-4',
        'assumptions': ['one thread makes the control calls', 'sequentially consistent memory', 'the Python C API and the GIL are modelled (the GIL is a mutex, the handler lets other threads run)', 'flush interval and batch size are not 0']}
MEANING = ('states: distinct states of the real log service (all of its memory, stacks and queue); transitions: steps between accesses to shared memory; traces_validated_against_impl: explorations run to completion')
HANG = 900


def parent_init(tier):
    global EXE
    EXE = pool.program('log', ['Logger.cpp', 'logging/logging.cpp', pool.MC + 'log_sut.cpp'], ['rt.cpp', 'log.cpp'], first=['log_begin.cpp'], last=['log_end.cpp'])


def units(tier):
    u = [list(c) for c in (THOROUGH if tier == 'thorough' else QUICK)]
    u.sort(key=lambda c: -(c[0].count('S') * 2 + len(c[0]) + c[7] * 4 + c[6] * 3 + c[5] * 2))
    return u


def run_unit(u, t):
    if not t.begin(u):
        return
    r = pool.explore(t, EXE, u)
    if r:
        t.outcome((u[0], u[7], r['terminal']))
        t.sample({'config': u, 'states': r['states'], 'transitions': r['transitions']})
