"""triage.py PROP START N [MAXSHOW]: run scenarios, group violations, minimise one of each kind."""
import os, sys, collections, json, multiprocessing as mp, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(16 * 1024)
from simkit import core


def job(a):
    prop, i = a
    mod = core.load(prop)
    sc = mod.make(core.rng_for(int(os.environ.get('SEED', '1')), mod.PROPERTY, i), i, 'quick')
    try:
        out = core.evaluate(mod, sc)
    except BaseException as e:
        import traceback
        return i, [('HARNESS', traceback.format_exc()[-1500:], 'h')], {}
    return i, [(v['kind'], v['detail'], v['key']) for v in out.violations], out.probes


def main():
    prop, start, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    show = int(sys.argv[4]) if len(sys.argv) > 4 else 6
    mod = core.load(prop)
    if hasattr(mod, 'prepare'):
        mod.prepare('quick')
    groups = collections.OrderedDict()
    probes = collections.Counter()
    with mp.Pool(8) as p:
        for i, vs, pr in p.imap(job, [(prop, i) for i in range(start, start + n)], 4):
            probes.update(pr)
            for k, d, key in vs:
                groups.setdefault(key, []).append((i, k, d))
    print('bad scenarios:', sum(len(v) for v in groups.values()), 'of', n)
    print(dict(probes))
    todo = []
    for key, v in sorted(groups.items(), key=lambda x: -len(x[1])):
        print('==', len(v), key, [x[0] for x in v[:12]])
        if 'no-progress' in key:
            continue
        todo += [(key,) + x for x in v[:max(1, show // len(groups))]]
    for key, i, k, d in todo[:show]:
        print('-----', key, i)
        if k == 'HARNESS':
            print(d)
            continue
        sc = mod.make(core.rng_for(int(os.environ.get('SEED', '1')), mod.PROPERTY, i), i, 'quick')
        small, tried = core.minimise(mod, sc, k, int(os.environ.get('MIN', '15')))
        out = core.evaluate(mod, small)
        print('tried', tried)
        for v in out.violations[:1]:
            print(v['detail'][:3000])
        if 'design' in small:
            from hw import gen
            print('\n'.join(l for l in gen.text(small['design']).split('\n') if not l.strip().startswith('input')))
        else:
            print(json.dumps(small)[:3000])


if __name__ == '__main__':
    d = tempfile.mkdtemp(prefix='vsim_triage_', dir='/dev/shm')
    os.environ['VSIM_SCRATCH'] = d
    os.chdir(d)
    try:
        main()
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)
