#!/usr/bin/env python3
"""python3 checks/run.py <property> [quick|thorough] [--replay FILE] [--units SUBSTR] [--procs N]"""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('VF_CHILD') != '1':
    env = dict(os.environ, VF_CHILD='1', PYTHONHASHSEED='0', MALLOC_PERTURB_='165', PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH='', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8', TZ='UTC',
               HOME=os.environ.get('HOME', '/root'))
    argv = [sys.executable] + sys.argv
    sa = '/usr/bin/setarch'
    import subprocess
    if os.path.exists(sa) and subprocess.run([sa, '-R', '/bin/true'], stderr=subprocess.DEVNULL).returncode == 0:
        os.execve(sa, [sa, '-R'] + argv, env)      # no address randomisation: runs are reproducible
    os.execve(sys.executable, argv, env)
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
sys.path.append('/opt/vp/venv/lib/python3.12/site-packages')
import importlib
import build, vf


def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    tier = a.pop(0) if a and not a[0].startswith('--') else os.environ.get('VERIF_TIER', 'quick')
    opt = {}
    while a:
        k = a.pop(0)
        opt[k] = a.pop(0)
    mod = importlib.import_module(prop)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if hasattr(mod, 'main'):
        return mod.main(tier, seed, opt)
    try:
        if '--replay' in opt:
            return vf.replay(prop, mod, tier, opt['--replay'])
        return vf.run_check(prop, mod, tier, seed, int(opt['--procs']) if '--procs' in opt else None, opt.get('--units'))
    except build.BuildError as e:
        print('BUILD ERROR:', e)
        return 3


rc = main()
sys.stdout.flush()
os._exit(rc)
