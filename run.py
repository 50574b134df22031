#!/opt/venv/bin/python
"""run.py <PROPERTY> [quick|thorough] | --replay FILE | --determinism PROPERTY...

Every check is started here.  The interpreter is restarted once with a pinned
environment (hash seed, import path, no byte code) so that one seed is one
execution."""
import argparse
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def pinned():
    env = dict(os.environ)
    env['VSIM_PINNED'] = '1'
    env.setdefault('PYTHONHASHSEED', '0')
    if env.get('VSIM_HASHSEED'):
        env['PYTHONHASHSEED'] = env['VSIM_HASHSEED']
    repo = env.get('VERIF_REPO', '/repo')
    env['PYTHONPATH'] = repo + os.pathsep + HERE
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPYCACHEPREFIX'] = '/nonexistent-pycache'
    env['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env['LANG'] = env['LC_ALL'] = 'C.UTF-8'
    env.pop('PYVERILOG_IVERILOG', None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    if os.environ.get('VSIM_PINNED') != '1':
        pinned()
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(16 * 1024)
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--workers', type=int)
    ap.add_argument('-n', type=int)
    ap.add_argument('--only', type=int, action='append')
    ap.add_argument('--digests')
    a = ap.parse_args()
    from simkit import core
    own = not os.environ.get('VSIM_SCRATCH')
    if own:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
        root = tempfile.mkdtemp(prefix='vsim_', dir=base)
        os.environ['VSIM_SCRATCH'] = root
    rc = 2
    try:
        os.chdir(os.environ['VSIM_SCRATCH'])
        if a.replay:
            os.chdir(os.environ['VSIM_SCRATCH'])
            rc = core.do_replay(os.path.join(HERE, a.replay) if not os.path.isabs(a.replay) else a.replay)
        else:
            dg = {} if a.digests else None
            rc = core.main(a.prop, a.tier, a.seed, a.workers, a.n, a.only, dg)
            if a.digests:
                import json
                json.dump(dg, open(a.digests, 'w'))
    finally:
        if own:
            os.chdir('/')
            shutil.rmtree(root, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
