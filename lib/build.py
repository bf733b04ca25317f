"""Content-keyed builds of /repo's sources.

Every translation unit is keyed by its preprocessed text (comments and line markers removed) plus its flags, so an
edit recompiles exactly the units whose code changed. Objects live in /verif/.cache (ignored by git); setup.sh fills it.
"""
import hashlib, os, re, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
CACHE = os.path.join(ROOT, '.cache')
SRC = os.path.join(REPO, 'src')
VENV = '/opt/vp/venv'
SITE = VENV + '/lib/python3.12/site-packages'
NCPU = os.cpu_count() or 8

INCS = ['-DBUILDING_RIPTIDE_CPP', '-Driptide_cpp_EXPORTS', '-I' + SITE + '/numpy/core/include',
        '-isystem', '/usr/include/python3.12', '-isystem', VENV + '/include', '-isystem', '/opt/vp/compat']
BASE = ['-DNDEBUG', '-std=c++20', '-fPIC', '-x', 'c++', '-mavx2', '-mbmi2', '-fpermissive', '-pthread',
        '-fno-strict-aliasing', '-w']
HEAVY = {'HashLinear.cpp', 'GroupBy.cpp', 'Ema.cpp', 'Bins.cpp'}
LINK = ['-Wl,-rpath,' + VENV + '/lib', '/usr/lib/x86_64-linux-gnu/libpython3.12.so',
        '-l:libzstd.so.1' if not os.path.exists('/usr/lib/x86_64-linux-gnu/libzstd.so') else '-lzstd',
        VENV + '/lib/libtbb.so', VENV + '/lib/libtbbmalloc.so', '-lrt', '-pthread']


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    return r.returncode, r.stdout, r.stderr


def sources():
    txt = open(os.path.join(SRC, 'CMakeLists.txt')).read()
    out = []
    for m in re.findall(r'^\s+([\w/]+\.cpp)\s*\)?$', txt, re.M):
        if m not in out:
            out.append(m)
    return out


def _headers_digest():
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(SRC)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.h', '.hpp', '.inl', '.inc', '.def')):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, SRC).encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()


_hd = None


def compile_tu(path, flags, extra_key='', incs=INCS):
    """Return the object file of one translation unit, compiling it if no object with the same content exists."""
    global _hd
    if _hd is None:
        _hd = _headers_digest()
    os.makedirs(CACHE + '/obj', exist_ok=True)
    os.makedirs(CACHE + '/key', exist_ok=True)
    text = open(path, 'rb').read()
    fkey = ' '.join(flags) + '|' + ' '.join(incs) + '|' + extra_key
    quick = hashlib.sha256(text + b'|' + _hd.encode() + b'|' + path.encode() + fkey.encode()).hexdigest()
    kf = CACHE + '/key/' + quick
    if os.path.exists(kf):
        obj = CACHE + '/obj/' + open(kf).read().strip() + '.o'
        if os.path.exists(obj):
            return obj, False
    rc, out, err = sh(['g++'] + flags + incs + ['-E', '-P', path])
    if rc:
        raise BuildError('preprocessing %s failed:\n%s' % (path, err.decode(errors='replace')[-3000:]))
    # runs of white space carry no meaning outside literals; keep the text as it is inside lines
    key = hashlib.sha256(out + fkey.encode()).hexdigest()
    obj = CACHE + '/obj/' + key + '.o'
    fresh = False
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid() + str(time.time_ns())
        rc, out, err = sh(['g++'] + flags + incs + ['-c', path, '-o', tmp])
        if rc:
            raise BuildError('compiling %s failed:\n%s' % (path, err.decode(errors='replace')[-3000:]))
        os.rename(tmp, obj)
        fresh = True
    with open(kf + '.t%d' % os.getpid(), 'w') as f:
        f.write(key)
    os.rename(kf + '.t%d' % os.getpid(), kf)
    return obj, fresh


def tu_flags(rel, variant):
    f = list(BASE)
    name = os.path.basename(rel)
    if variant == 'std':
        f += ['-O1' if name in HEAVY else '-O2']
    elif variant == 'mc':      # scheduling points for the model checker
        f += ['-O2', '-fsanitize=thread', '-I' + SRC, '-include', ROOT + '/mc/force.h', '-DVF_MC']
    elif variant == 'thr':     # as mc, for the whole module (mc/thr.cpp)
        f += ['-O1', '-fsanitize=thread', '-I' + SRC, '-include', ROOT + '/mc/force.h', '-DVF_MC']
    else:
        raise ValueError(variant)
    return f


def compile_many(rels, variant, extra_key=''):
    order = {'HashLinear.cpp': 0, 'GroupBy.cpp': 1, 'Ema.cpp': 2, 'Bins.cpp': 3, 'SDSFile.cpp': 4}
    rels = sorted(rels, key=lambda r: order.get(os.path.basename(r), 9))
    objs = {}
    n = 0
    with ThreadPoolExecutor(NCPU) as ex:
        futs = {r: ex.submit(compile_tu, r if os.path.isabs(r) else os.path.join(SRC, r), tu_flags(r, variant), extra_key) for r in rels}
        for r, fu in futs.items():
            o, fresh = fu.result()
            objs[r] = o
            n += fresh
    return [objs[r] for r in rels], n


def link(objs, extra, outdir_prefix, outname, shared=True):
    k = hashlib.sha256(('|'.join(objs) + '|'.join(extra) + str(shared)).encode()).hexdigest()[:24]
    d = os.path.join(CACHE, outdir_prefix + '-' + k)
    so = os.path.join(d, outname)
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        tmp = so + '.%d.tmp' % os.getpid()
        rc, out, err = sh(['g++'] + (['-shared'] if shared else []) + ['-o', tmp] + objs + extra + LINK)
        if rc:
            raise BuildError('link failed:\n' + err.decode(errors='replace')[-3000:])
        os.rename(tmp, so)
    return d


def module(variant='std'):
    """Build the Python module from /repo's working tree; returns the directory to put on sys.path."""
    objs, n = compile_many(sources(), 'std' if variant in ('io', 'grd') else variant)
    extra = []
    if variant == 'io':        # file I/O of the module goes through mc/iowrap.cpp
        extra = [tool('iowrap.o', [ROOT + '/mc/iowrap.cpp'], ('-std=c++17', '-O2', '-fPIC', '-c'))]
        extra += ['-Wl,--wrap=' + f for f in ('open', 'pread', 'pwrite', 'close', 'ftruncate')]
    if variant == 'grd':       # allocations are filled and guarded
        extra = [tool('guard.o', [ROOT + '/mc/guard.cpp'], ('-std=c++17', '-O2', '-fPIC', '-c'))]
        extra += ['-Wl,--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', '_Znwm', '_Znam', '_ZdlPv', '_ZdlPvm', '_ZdaPv')]
    if variant == 'thr':       # worker threads are fibers, accesses are recorded
        extra = [tool('thr.o', [ROOT + '/mc/thr.cpp'], ('-std=c++17', '-O2', '-fPIC', '-c')),
                 compile_tu(ROOT + '/mc/thr_sut.cpp', BASE + ['-O1', '-I' + SRC])[0]]
        extra += ['-Wl,--wrap=' + f for f in ('pthread_create', 'syscall', 'memcpy', 'memmove', 'memset', 'memcmp', 'malloc', 'calloc', '_Znwm')]
    d = link(objs, extra, 'mod_' + variant, 'riptide_cpp.cpython-312-x86_64-linux-gnu.so')
    return d, n


def tool(name, srcs, flags=(), libs=()):
    """Build a helper shared object or program of ours (sources in /verif), keyed by content."""
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(s, 'rb').read())
    h.update(repr((flags, libs)).encode())
    d = os.path.join(CACHE, 'tool-' + h.hexdigest()[:24])
    out = os.path.join(d, name)
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        rc, o, err = sh(['gcc' if srcs[0].endswith('.c') else 'g++'] + list(flags) + ['-o', tmp] + list(srcs) + list(libs))
        if rc:
            raise BuildError('building %s failed:\n%s' % (name, err.decode(errors='replace')[-3000:]))
        os.rename(tmp, out)
    return out


if __name__ == '__main__':
    t = time.time()
    for v in sys.argv[1:] or ['std']:
        d, n = module(v)
        print(v, d, 'compiled', n, 'units in %.1fs' % (time.time() - t))
