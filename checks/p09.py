"""P09: results do not depend on the hash seed or the memory layout."""
import copy
import json
import os
import random
import subprocess
import sys

from simkit import core, observe, texts
from checks import _session, p08

PROPERTY = 'P09'
LEVEL = 'exploration'
RULE = ('A case is one design analysed by every query in several processes that differ in hash seed and memory layout '
        '(the parser tables are generated in each of them); all results must be identical. Non-trivial: every case '
        '(at least two different hash seeds); identity is the design and the pair of environments.')
STATE_MEASURE = 'distinct (hash seeds, layouts) combinations'
COMPONENTS = {'real': ['pyverilog.vparser', 'pyverilog.dataflow', 'pyverilog.controlflow', 'pyverilog.utils',
                       'pyverilog.ast_code_generator', 'PLY table generation', 'the interpreter\'s hash randomisation',
                       'iverilog -E'],
              'stub': ['memory layout: seeded allocations before the session']}
ASSUMPTIONS = ['sets and dictionaries that are handed out as such are compared without order',
               'graph drawing and subset output are compared without line order']
REQUIRED_PROBES = ('seeds-differ', 'fsm', 'hw', 'texts', 'gallery')
POOL = [0, 1, 2, 3, 17, 4242]
SERVERS = {}


def budget(tier):
    return (700, 110) if tier == 'quick' else (30000, 780)


def make(r, i, tier):
    a = r.sample(POOL, 2 if tier == 'quick' else 3)
    return {'text': [r.choice(['texts', 'fsm', 'fsm', 'hw', 'hw', 'gallery']), r.randrange(1 << 32)],
            'env': [[h, r.randrange(1 << 31)] for h in a]}


def server(h):
    p = SERVERS.get((os.getpid(), h))
    if p is None:
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(core.VERIF, 'checks', '_server.py')],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        if p.stdout.readline() != b'ready\n':
            raise core.HarnessError('the server with hash seed %s did not start' % h)
        SERVERS[os.getpid(), h] = p
    return p


def ask(h, q):
    p = server(h)
    try:
        p.stdin.write(json.dumps(q).encode() + b'\n')
        p.stdin.flush()
        line = p.stdout.readline()
    except BaseException:
        p.kill()
        SERVERS.pop((os.getpid(), h), None)
        raise
    if not line:
        SERVERS.pop((os.getpid(), h), None)
        raise core.HarnessError('the server with hash seed %s ended' % h)
    r = json.loads(line)
    if 'error' in r:
        raise core.HarnessError(r['error'])
    return r['ok']


def run(sc):
    out = core.Outcome()
    text, top = p08.text_of(sc['text'])
    first = None
    for h, alloc in sc['env']:
        res = ask(h, {'text': text, 'top': top, 'alloc': alloc})
        out.nruns += 1
        if first is None:
            first = res
            continue
        for (n, x), (_, y) in zip(first, res):
            if x != y and not out.violations:
                out.fail('hash-dependent', '"%s" with hash seed %s differs from hash seed %s:\n%s'
                         % (n, h, sc['env'][0][0], _session.diff(x, y)), 'hash-dependent:' + n)
    out.nruns -= 1
    out.probe('seeds-differ')
    out.probe(sc['text'][0])
    out.fault('hash-seed', len(sc['env']))
    out.fault('memory-layout', len(sc['env']))
    for n, x in first:
        out.log(n, x)
    out.steps = len(first) * len(sc['env'])
    out.states.append([sorted(h for h, _ in sc['env'])] + [a % 4096 for _, a in sc['env']])
    out.nontrivial = [sc['text'], sc['env']]
    out.sample = dict(sc)
    return out


def shrink(sc):
    if len(sc['env']) > 2:
        for k in range(len(sc['env'])):
            c = copy.deepcopy(sc)
            del c['env'][k]
            yield c
    for k in range(len(sc['env'])):
        if sc['env'][k][1]:
            c = copy.deepcopy(sc)
            c['env'][k][1] = 0
            yield c
    for s in range(12):
        for kind in ('fsm', 'texts'):
            if sc['text'][1] >= 12:
                c = copy.deepcopy(sc)
                c['text'] = [kind, s]
                yield c
