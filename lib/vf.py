"""Bounded-exhaustive exploration driver.

A check module defines
    units(tier)          -> deterministic list of unit descriptors (JSON values)
    run_unit(unit, t)    -> enumerates every case of the unit; for each case
                              if not t.begin(desc): continue
                              ... call the real code, compare with the reference model ...
                              t.fail(msg, key=None)  on a mismatch
    META                 -> dict(bounds=..., assumptions=[...], alphabet=...)
Units are handed to forked worker processes; a worker that dies or stops making progress names the case it was in
(kept in shared memory), which is then re-run alone in a fresh process before anything is reported.
"""
import os, sys, json, time, mmap, struct, signal, traceback, select, importlib, hashlib, resource

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = '/opt/vp/venv/lib/python3.12/site-packages'
EVID = os.path.join(ROOT, 'evidence')
HANG = float(os.environ.get('VF_HANG', '60'))
MAXFAIL = 5
REC = 32          # bytes per worker in the shared progress area


class StopUnit(Exception):
    pass


class T:
    """Tracker of one worker."""

    def __init__(self, shm, slot, known, only=None, upto=None, announce=False):
        self.shm, self.slot = shm, slot * REC
        self.known = known
        self.only, self.upto, self.announce = only, upto, announce
        self.states = set()
        self.outcomes = set()
        self.calls = 0
        self.samples = []
        self.fails = []
        self.knowns = {}
        self.extra = {}
        self.i = -1
        self.cur = None
        self.evals = 0
        self.pid = os.getpid()
        self.nstates = 0          # states explored inside a case by another engine

    def reset(self):
        self.states = set(); self.outcomes = set(); self.calls = 0; self.samples = []
        self.fails = []; self.knowns = {}; self.extra = {}; self.i = -1; self.cur = None; self.evals = 0; self.nstates = 0

    def begin(self, desc, key=None):
        self.i += 1
        i = self.i
        if self.only is not None:
            if i > self.only:
                raise StopUnit
            if i != self.only:
                return False
        if self.upto is not None and i > self.upto:
            raise StopUnit
        struct.pack_into('q', self.shm, self.slot, i)
        self.cur = desc
        self.evals += 1
        k = desc if key is None else key
        try:
            self.states.add(hash(k))
        except TypeError:
            self.states.add(hash(repr(k)))
        if self.announce and (self.only is not None or i == self.upto):
            sys.stderr.write('CASE %s\n' % json.dumps(jsonable(desc() if callable(desc) else desc)))
            sys.stderr.flush()
        return True

    def beat(self):
        """Progress inside one long case."""
        v = struct.unpack_from('q', self.shm, self.slot + 8)[0]
        struct.pack_into('q', self.shm, self.slot + 8, v + 1)

    def outcome(self, o):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(o))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def fail(self, msg, key=None):
        d = self.cur() if callable(self.cur) else self.cur
        if key is not None and key in self.known:
            self.knowns[key] = self.knowns.get(key, 0) + 1
            return
        self.fails.append({'index': self.i, 'case': jsonable(d), 'message': str(msg)[:2000], 'key': key})
        if len(self.fails) >= MAXFAIL:
            raise StopUnit


def jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, bytes):
        return repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    return repr(x)[:500]


def load_known(prop):
    """key -> description of the recorded (not repaired) findings of this property."""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                k, what = rest.split(' ', 1)
                assert k.startswith('key='), line
                out[k[4:]] = what
    return out


def setup_child(mod):
    sys.path.insert(0, SITE)
    os.environ.setdefault('HOME', '/root')
    if hasattr(mod, 'child_init'):
        mod.child_init()


def worker(mod, units, shm, slot, rfd, wfd, known):
    setup_child(mod)
    t = T(shm, slot, known)
    out = os.fdopen(wfd, 'wb', buffering=0)
    inp = os.fdopen(rfd, 'rb', buffering=0)

    def send(o):
        b = json.dumps(o).encode()
        out.write(struct.pack('I', len(b)) + b)
    send({'ready': 1})
    nstates = 0
    while True:
        b = inp.read(4)
        if len(b) < 4:
            break
        u = struct.unpack('i', b)[0]
        if u < 0:
            break
        t.reset()
        struct.pack_into('q', shm, slot * REC, -1)
        try:
            mod.run_unit(units[u], t)
        except StopUnit:
            pass
        except Exception:
            t.fails.append({'index': t.i, 'case': jsonable(t.cur() if callable(t.cur) else t.cur), 'key': None,
                            'message': 'exception: ' + traceback.format_exc()[-1800:]})
        send({'unit': u, 'states': t.nstates or len(t.states), 'outcomes': len(t.outcomes), 'calls': t.calls, 'evals': t.evals,
              'samples': jsonable(t.samples), 'fails': t.fails, 'knowns': t.knowns, 'extra': t.extra})
    sys.stdout.flush()
    os._exit(0)


def spawn(mod, units, shm, slot, known, close=()):
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            for fd in close:
                os.close(fd)
            os.close(w1); os.close(r2)
            worker(mod, units, shm, slot, r1, w2, known)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(97)
    os.close(r1); os.close(w2)
    return {'pid': pid, 'w': w1, 'r': r2, 'buf': b'', 'unit': None, 'slot': slot, 'last': (-1, -1), 'since': time.time(), 'ready': False}


def rerun(mod, units, u, known, only=None, upto=None, limit=150):
    """Run one case (or a unit up to a case) in a fresh process. Returns ('ok'|'fail'|'crash'|'hang', info)."""
    shm = mmap.mmap(-1, REC)
    r, w = os.pipe()
    re_, we_ = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r); os.close(re_)
            os.dup2(we_, 2)
            setup_child(mod)
            t = T(shm, 0, known, only=only, upto=upto, announce=True)
            try:
                mod.run_unit(units[u], t)
            except StopUnit:
                pass
            except Exception:
                t.fails.append({'index': t.i, 'case': jsonable(t.cur() if callable(t.cur) else t.cur), 'key': None,
                                'message': 'exception: ' + traceback.format_exc()[-1800:]})
            with os.fdopen(w, 'wb') as f:
                f.write(json.dumps({'fails': t.fails}).encode())
        except BaseException:
            traceback.print_exc()
            os._exit(98)
        os._exit(0)
    os.close(w); os.close(we_)
    bufs = {r: b'', re_: b''}
    end = time.time() + limit
    opened = {r, re_}
    hung = False
    while opened:
        left = end - time.time()
        if left <= 0:
            hung = True
            break
        rs, _, _ = select.select(list(opened), [], [], min(left, 1.0))
        for fd in rs:
            b = os.read(fd, 65536)
            if not b:
                opened.discard(fd)
            bufs[fd] += b
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    os.close(r); os.close(re_)
    case = None
    for line in bufs[re_].decode(errors='replace').splitlines():
        if line.startswith('CASE '):
            try:
                case = json.loads(line[5:])
            except ValueError:
                case = line
    tail = bufs[re_].decode(errors='replace')[-1500:]
    if hung:
        return 'hang', {'case': case, 'tail': tail}
    if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) != 0:
        return 'crash', {'case': case, 'signal': os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0, 'status': st, 'tail': tail}
    res = json.loads(bufs[r].decode() or '{"fails": []}')
    if res['fails']:
        return 'fail', res['fails'][0]
    return 'ok', {'case': case}


def run_check(prop, mod, tier, seed, nproc=None, only_units=None):
    t0 = time.time()
    known = load_known(prop)
    if hasattr(mod, 'parent_init'):
        mod.parent_init(tier)
    build_s = time.time() - t0
    units = mod.units(tier)
    if only_units:
        units = [u for u in units if only_units in json.dumps(u)]
    nproc = nproc or getattr(mod, 'NPROC', os.cpu_count() or 8)
    nproc = max(1, min(nproc, len(units)))
    shm = mmap.mmap(-1, REC * nproc)
    for k in range(nproc):
        struct.pack_into('qq', shm, k * REC, -1, 0)
    violations = []
    agg = {'states': 0, 'outcomes': 0, 'calls': 0, 'evals': 0, 'units_done': 0, 'clean_units': 0}
    extra, samples, knowns, unstable = {}, [], {}, []
    retry = {}
    hang = getattr(mod, 'HANG', HANG)
    pending = list(range(len(units)))[::-1]
    ws = []
    slots = list(range(nproc))

    def start(slot):
        ws.append(spawn(mod, units, shm, slot, known, close=[w['w'] for w in ws] + [w['r'] for w in ws]))

    def feed(w):
        if violations and len(violations) >= MAXFAIL:
            pending.clear()
        if pending:
            w['unit'] = pending.pop()
            w['last'] = (-1, -1); w['since'] = time.time()
            struct.pack_into('q', shm, w['slot'] * REC, -1)
            n = w['unit']
        else:
            w['unit'] = None
            n = -1
        try:
            os.write(w['w'], struct.pack('i', n))
        except BrokenPipeError:       # it died after the previous unit: seen as end of file below
            w['prev_crash'] = w.get('prev')
            if n >= 0:
                pending.append(n)
            w['unit'] = None
        w['prev'] = n

    def suspect(u, idx, kind, sig):
        """A worker died or stalled in unit u at case idx: reproduce before reporting."""
        for kw in ({'only': idx}, {'upto': idx}, {'upto': idx}):
            res, info = rerun(mod, units, u, known, limit=max(150, 2 * hang) if kind != 'crash' else 300, **kw)
            if res in ('crash', 'hang'):
                what = 'crashed with signal %s' % info.get('signal') if res == 'crash' else 'did not return within its time limit'
                key = None
                if hasattr(mod, 'crash_key'):
                    key = mod.crash_key(units[u], info.get('case'), res)
                if key is not None and key in known:
                    knowns[key] = knowns.get(key, 0) + 1
                    return
                violations.append({'unit': units[u], 'index': idx, 'case': info.get('case'), 'mode': list(kw)[0],
                                   'message': 'the code %s; %s' % (what, info.get('tail', '')[-600:]), 'key': key})
                return
            if res == 'fail':
                info = dict(info); info['unit'] = units[u]; info['mode'] = list(kw)[0]
                violations.append(info)
                return
        retry[u] = retry.get(u, 0) + 1
        if retry[u] <= 2:
            pending.append(u)
        else:
            unstable.append({'unit': units[u], 'index': idx, 'kind': kind, 'signal': sig})

    for s in slots:
        start(s)
    while ws:
        rs, _, _ = select.select([w['r'] for w in ws], [], [], 1.0)
        for w in list(ws):
            if w['r'] in rs:
                b = os.read(w['r'], 1 << 20)
                if not b:
                    _, st = os.waitpid(w['pid'], 0)
                    os.close(w['r']); os.close(w['w'])
                    ws.remove(w)
                    if w['unit'] is not None:
                        idx = struct.unpack_from('q', shm, w['slot'] * REC)[0]
                        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
                        if not (violations and len(violations) >= MAXFAIL):
                            suspect(w['unit'], idx, 'crash', sig)
                            start(w['slot'])
                    elif w.get('prev_crash') is not None:
                        suspect(w['prev_crash'], 1 << 60, 'crash', os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st))
                        start(w['slot'])
                    elif not w['ready']:
                        raise SystemExit('worker failed to start (status %d)' % st)
                    continue
                w['buf'] += b
                while len(w['buf']) >= 4:
                    n = struct.unpack('I', w['buf'][:4])[0]
                    if len(w['buf']) < 4 + n:
                        break
                    o = json.loads(w['buf'][4:4 + n]); w['buf'] = w['buf'][4 + n:]
                    if 'ready' in o:
                        w['ready'] = True
                    else:
                        for k in ('states', 'outcomes', 'calls', 'evals'):
                            agg[k] += o[k]
                        agg['units_done'] += 1
                        agg['clean_units'] += not o['fails']
                        for k, v in o['extra'].items():
                            extra[k] = max(extra.get(k, 0), v) if k.startswith('max_') else extra.get(k, 0) + v
                        for k, v in o['knowns'].items():
                            knowns[k] = knowns.get(k, 0) + v
                        if o['samples'] and len(samples) < 6:
                            samples.extend(o['samples'][:1])
                        for f in o['fails']:
                            f['unit'] = units[o['unit']]; f['unit_no'] = o['unit']
                            violations.append(f)
                    feed(w)
            elif w['unit'] is not None:
                cur = struct.unpack_from('qq', shm, w['slot'] * REC)
                if cur != w['last']:
                    w['last'] = cur; w['since'] = time.time()
                elif time.time() - w['since'] > hang:
                    u = w['unit']
                    os.kill(w['pid'], signal.SIGKILL)
                    os.waitpid(w['pid'], 0)
                    os.close(w['r']); os.close(w['w'])
                    ws.remove(w)
                    suspect(u, cur[0], 'hang', 9)
                    start(w['slot'])
    # a worker restarted after everything was handed out ends through feed()
    # confirm the failures in a fresh process
    for v in violations:
        if 'mode' in v or 'unit_no' not in v:
            continue
        for mode in ('only', 'upto'):
            res, info = rerun(mod, units, v['unit_no'], known, limit=300, **{mode: v['index']})
            if res != 'ok':
                v['mode'] = mode
                break
        else:
            v['mode'] = 'not reproduced in a fresh process (observed once against the real code)'
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': agg['states'], 'transitions': agg['calls'],
              'traces_validated_against_impl': agg['clean_units'],
              'cases': agg['evals'], 'distinct_outcomes': agg['outcomes'],
              'units': len(units), 'units_completed': agg['units_done'],
              'exhaustive': agg['units_done'] == len(units) and not violations and not unstable,
              'meaning': getattr(mod, 'MEANING', 'states: distinct (operation, configuration, input) points enumerated; transitions: calls made on the real code; '
                         'traces_validated_against_impl: driver traces (units) whose every step agreed with the reference model'),
              'bounds': mod.META.get('bounds', '') if not callable(mod.META) else mod.META(tier)['bounds'],
              'samples': samples or [jsonable(units[0])] if units else [],
              'known_findings_hit': knowns, 'unstable': unstable, 'build_s': round(build_s, 2)},
          'assumptions': (mod.META if not callable(mod.META) else mod.META(tier)).get('assumptions', []),
          'wall_s': round(wall, 2), 'violations': len(violations)}
    for k, v in extra.items():
        ev['coverage'].setdefault(k, v)
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(EVID, prop + '.json'))
    print('%s %s: units=%d/%d cases=%d states=%d calls=%d outcomes=%d wall=%.1fs (build %.1fs)' % (
        prop, tier, agg['units_done'], len(units), agg['evals'], agg['states'], agg['calls'], agg['outcomes'], wall, build_s))
    for k in extra:
        print('  %s=%s' % (k, extra[k]))
    for k in known:
        if k in knowns:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    if unstable:
        print('note: unstable (not reproduced) events: %s' % unstable)
    if violations:
        d = os.path.join(ROOT, '.cache', 'replay')
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(violations[:MAXFAIL]):
            p = os.path.join(d, '%s-%d.json' % (prop, n))
            v['property'] = prop
            v['replay_cmd'] = 'python3 checks/run.py %s %s --replay %s' % (prop, tier, p)
            json.dump(v, open(p, 'w'), indent=1)
            print('  case: %s' % json.dumps(v.get('case'))[:600])
            print('  unit: %s  index %s (%s)' % (json.dumps(v.get('unit'))[:300], v.get('index'), v.get('mode')))
            print('  %s' % v['message'][:1200])
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if agg['units_done'] < len(units) and not unstable:
        print('internal error: units missing')
        return 3
    return 0


def replay(prop, mod, tier, path):
    v = json.load(open(path))
    if hasattr(mod, 'parent_init'):
        mod.parent_init(tier)
    known = load_known(prop)
    units = [v['unit']]
    mode = v.get('mode') if v.get('mode') in ('only', 'upto') else 'upto'
    res, info = rerun(mod, units, 0, known, limit=300, **{mode: v['index']})
    print('replay of %s: %s' % (path, res))
    print(json.dumps(info, indent=1)[:3000])
    return 0 if res == 'ok' else 1
