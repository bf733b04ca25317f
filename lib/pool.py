"""Builds and runs the explicit-state exploration of the worker pool (mc/rt.cpp + mc/pool*.cpp + the real MathThreads/MathWorker/interrupt)."""
import os, re, subprocess
import build
from build import ROOT

EXE = None
MC = ROOT + '/mc/'


def own_flags():
    return ['-std=c++20', '-O2', '-w', '-fPIC', '-x', 'c++', '-pthread']


def program(name, sut, own, first=(), last=()):
    """Link an exploration program: instrumented sources (absolute or relative to /repo/src) plus our own files (first and last: link order)."""
    objs, n = build.compile_many(sut, 'mc', _key(['mc.h', 'pool.h', 'force.h', 'log.h']))
    def one(f):
        return build.compile_tu(MC + f, own_flags(), _key(['mc.h', 'pool.h', 'log.h']))[0]
    objs = [one(f) for f in first] + objs + [one(f) for f in last] + [one(f) for f in own]
    return build.link(objs, ['-no-pie'], 'mc-' + name, name, shared=False) + '/' + name


def _key(fs):
    import hashlib
    h = hashlib.sha256()
    for f in fs:
        if os.path.exists(MC + f):
            h.update(open(MC + f, 'rb').read())
    return h.hexdigest()


def parent_init(tier=None):
    global EXE
    EXE = program('pool', ['MathThreads.cpp', 'MathWorker.cpp', 'interrupt.cpp', MC + 'pool_sut.cpp'], ['rt.cpp', 'pool.cpp'])


def explore(t, exe, args, limit=800):
    """Run one exploration; returns the parsed result, reports violations through the tracker."""
    p = subprocess.Popen([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    import threading, time
    out = []
    th = threading.Thread(target=lambda: out.append(p.stdout.read()))
    th.start()
    t0 = time.time()
    while th.is_alive():
        th.join(2)
        t.beat()
        if time.time() - t0 > limit:
            p.kill()
    p.wait()
    txt = out[0] if out else ''
    m = re.search(r'^(OK|BAD) (states=.*)$', txt, re.M)
    r = {}
    if m:
        for kv in m.group(2).split():
            k, v = kv.split('=', 1)
            r[k] = int(v) if re.fullmatch(r'\d+', v) else v
        t.nstates += r['states']
        t.calls += r['transitions']
        t.count('complete_executions', r['executions'])
        t.count('terminal_states', r['terminal'])
        t.count('callbacks_checked', r.get('callbacks', 0))
        t.extra['max_depth'] = max(t.extra.get('max_depth', 0), r['depth'])
        if not r['complete']:
            t.count('bounded_by_state_limit')
    if 'VIOLATED' in txt or p.returncode != 0 or not m:
        i = txt.find('VIOLATED')
        msg = txt[i:] if i >= 0 else 'exploration ended with status %s: %s' % (p.returncode, txt[-1500:])
        t.fail(msg)
        return None
    r['text'] = txt
    return r
