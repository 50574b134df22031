"""P07: concurrent sessions in one process do not affect each other."""
import copy
import importlib
import os
import pkgutil
import random
import re

from hw.dfeval import TooBig
from simkit import child, core, iosim, observe, texts, threads
from checks import _hw, _session, p08

PROPERTY = 'P07'
LEVEL = 'exploration'
RULE = ('A case is 2-3 sessions with their own objects, run as threads of one process in one directory under a seeded '
        'scheduler that switches between source lines of PyVerilog and at file and process operations; some have an '
        'I/O fault. Every step of every thread is compared with the same session running alone. Non-trivial: at least '
        'one switch happened while two sessions were unfinished; identity is the sessions and the switch places.')
STATE_MEASURE = 'distinct source places at which a switch happened, per kind of session'
COMPONENTS = {'real': ['pyverilog.vparser', 'pyverilog.dataflow', 'pyverilog.controlflow', 'pyverilog.utils',
                       'pyverilog.ast_code_generator', 'PLY', 'jinja2', 'Python threads (one runs at a time)'],
              'stub': ['the thread scheduler (simkit.threads)', 'locks of the code under test',
                       'file and child process operations (simkit.iosim)']}
ASSUMPTIONS = ['switches happen between source lines of PyVerilog and at file or process operations, not inside '
               'library functions', 'sessions of one process do not share objects and do not change the directory']
REQUIRED_PROBES = ('switched', 'same-file', 'text-source', 'fault', 'cold-tables', 'three-threads')
KINDS = {
    'parse': ['parsefn', 'codeparse'],
    'front': ['codeparse', 'generate'],
    'analyze': ['generate', 'resolve', 'optimize', 'tree', 'walk'],
    'queries': ['generate', 'resolve', 'subset', 'fsm', 'active', 'dfcode'],
    'codegen': ['parse', 'codegen', 'identifiers', 'codegen'],
    'visitors': ['parse', 'visitors', 'codegen'],
    'full': ['parsefn', 'codeparse', 'parse', 'visitors', 'generate', 'resolve', 'walk', 'fsm', 'codegen', 'tocode'],
    'graph': ['generate', 'resolve', 'graph'],
}


def budget(tier):
    return (1400, 150) if tier == 'quick' else (30000, 780)


def prepare(tier):
    threads.install_locks()
    observe.warm()
    observe.warm_templates()
    _hw.limit_nodes()
    import pyverilog
    for m in pkgutil.walk_packages(pyverilog.__path__, 'pyverilog.'):
        if not m.name.rsplit('.', 1)[-1] in ('touch', 'parsetab') and 'template' not in m.name:
            importlib.import_module(m.name)
    import pygraphviz                                   # imports hold a lock: none may happen under the scheduler
    from pyverilog.vparser.parser import VerilogParser
    from pyverilog.ast_code_generator.codegen import ASTCodeGenerator


def spec(r):
    t = p08.spec(r, r.random() < 0.85)
    if t[0] == 'hw' and r.random() < 0.6:               # these are large
        t[0] = r.choice(['texts', 'fsm', 'gallery'])
    return t


def make(r, i, tier):
    n = r.choice([2, 2, 2, 3])
    sc = {'threads': [], 'sched': r.randrange(1 << 32), 'mean': r.choice([0, 8, 60, 400, 3000] + [['lines', n] for n in (5, 15, 50, 200)] + [['func', n] for n in (8, 20, 20, 50, 50, 100)]),
          'ops': r.choice([0.1, 0.5, 0.9]), 'switches': None, 'cold': r.random() < 0.03}
    same = r.random() < 0.25
    kind = r.choice(sorted(KINDS))
    for k in range(n):
        t = {'kind': kind if r.random() < 0.7 else r.choice(sorted(KINDS)), 'text': spec(r),
             'plan': p08.fault(r) if r.random() < 0.25 else [], 'file': 'a.v' if same else 't%d.v' % k}
        if sc['cold']:
            t['kind'] = r.choice(['parse', 'front', 'codegen'])
        if same and k:
            t['text'] = sc['threads'][0]['text']
        sc['threads'].append(t)
    return sc


class Session(_session.State):
    def parsefn(self):
        from pyverilog.vparser.parser import parse
        src = [self.text] if self.as_text else [self.name]
        ast, d = parse(src, preprocess_define=self.define)
        return observe.ast_dump(ast) + '\n%r' % (d,)

    def outcome_of(self, name):
        _hw.new_budget()
        try:
            return re.sub(r'pyverilog_temp_\w+|preprocess\.output\.[0-9.]+|sim\d+', '#', _session.outcome(getattr(self, name)))
        except KeyboardInterrupt:
            return 'interrupt'
        except TooBig:
            return 'too-big'


def play(sc, d, only=None):
    """In a child: the threads `only` (or all of them) in directory d."""
    os.chdir(d)
    if sc['cold']:
        observe.cold()
    who = range(len(sc['threads'])) if only is None else [only]
    ses = []
    for k in who:
        t = sc['threads'][k]
        text, top = p08.text_of(t['text'])
        s = Session('', text, top, t['file'])
        s.path = s.name
        s.as_text = k % 2 == 1
        s.write()
        ses.append((k, t, s))
    sch = threads.Sched(len(ses), sc['sched'], sc['mean'] if only is None else 0, sc['ops'],
                        sc['switches'] if only is None else None)
    fired = {}

    class W(iosim.World):
        """Faults and their numbering belong to the thread."""
        def op(self, kind, path, pending=None):
            sch.point(kind, True)
            k = sch.me()
            if k is None:
                return None
            return worlds[k].op(kind, path, pending)
    w = W(d, ())
    worlds = []
    for k, t, s in ses:
        x = iosim.World(d, t['plan'])
        worlds.append(x)
    w.created = []

    def body(j):
        k, t, s = ses[j]
        res = []
        for name in KINDS[t['kind']]:
            r = s.outcome_of(name)
            res.append([name, r])
        return res
    with w:
        r = sch.run([lambda j=j: body(j) for j in range(len(ses))])
    out = []
    for j, (v, e) in enumerate(r):
        if e is not None:
            if isinstance(e, threads.Deadlock):
                out.append([['deadlock', str(e)]])
                continue
            raise e
        out.append(v)
    return {'res': out, 'trace': sch.trace, 'places': sorted(sch.places), 'points': sch.k,
            'fired': [x.fired for x in worlds], 'left': sorted(os.listdir(d))}


def run(sc):
    out = core.Outcome()
    want = []
    for k in range(len(sc['threads'])):
        with core.Scratch('p07') as d:
            want.append(child.run(lambda: play(sc, d, k)))
    with core.Scratch('p07') as d:
        got = child.run(lambda: play(sc, d))
    out.nruns = 1
    out.steps = got['points']
    sc_trace = got['trace']
    if sc_trace:
        out.probe('switched')
        out.nontrivial = [[t['kind'] for t in sc['threads']], got['places'][:40], len(sc_trace)]
    out.fault('thread-switch', len(sc_trace))
    for p in got['places']:
        out.states.append(p)
    for f in got['fired']:
        for a, b, _ in f:
            out.fault('%s:%s' % (a, b))
            out.probe('fault')
    if len({t['file'] for t in sc['threads']}) == 1:
        out.probe('same-file')
    if any('parsefn' in KINDS[t['kind']] for t in sc['threads'][1::2]):
        out.probe('text-source')
    if sc['cold']:
        out.probe('cold-tables')
    if len(sc['threads']) > 2:
        out.probe('three-threads')
    out.log(sc_trace, got['points'])
    for k in range(len(sc['threads'])):
        alone, here = want[k]['res'][0], got['res'][k]
        for (n, x), (_, y) in zip(alone, here):
            out.log(k, n, hash_of(y))
            if 'too-big' in (x, y):
                break                                   # the node count is shared by the threads
            if x != y:
                out.fail('interference', 'thread %d (%s), step "%s", after %d switches at %s: result differs from the one '
                         'it gets alone:\n%s' % (k, sc['threads'][k]['kind'], n, len(sc_trace), got['places'][:6],
                                                _session.diff(x, y)))
                break
        if len(alone) != len(here) and not out.violations:
            out.fail('interference', 'thread %d: %s' % (k, here[-1]))
    out.sample = {'threads': sc['threads'], 'switches': len(sc_trace), 'mean': sc['mean']}
    return out


def hash_of(s):
    import hashlib
    return hashlib.sha256(s.encode()).hexdigest()[:10]


def shrink(sc):
    for k in range(len(sc['threads'])):
        if len(sc['threads']) > 2:
            c = copy.deepcopy(sc)
            del c['threads'][k]
            yield c
    for k in range(len(sc['threads'])):
        if sc['threads'][k]['plan']:
            c = copy.deepcopy(sc)
            c['threads'][k]['plan'] = []
            yield c
    if sc['switches'] is None:
        with core.Scratch('p07') as d:
            t = child.run(lambda: play(sc, d))['trace']
        c = copy.deepcopy(sc)
        c['switches'] = t
        yield c
        return
    t = sc['switches']
    size = len(t) // 2
    while size >= 1:
        for a in range(0, len(t), size):
            c = copy.deepcopy(sc)
            c['switches'] = t[:a] + t[a + size:]
            yield c
        size //= 2
