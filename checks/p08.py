"""P08: results do not depend on what the process did before."""
import copy
import os
import random

from hw import gen
from simkit import child, core, iosim, lines, observe, texts
from checks import _hw, _session

PROPERTY = 'P08'
LEVEL = 'exploration'
RULE = ('A case is one design and a seeded history: sessions on other (same-named, broken, unanalysable) texts, calls '
        'interrupted at a seeded line, failed by an I/O fault or repeated, on other or on the same objects. Every query '
        'of the final session is compared with the same query in a process without that history. Non-trivial: the '
        'history was not empty; identity is the tuple of history operations and their outcomes.')
STATE_MEASURE = 'distinct (operation, interrupted or failing place, outcome) tuples of the histories'
COMPONENTS = {'real': ['pyverilog.vparser', 'pyverilog.dataflow', 'pyverilog.controlflow', 'pyverilog.utils',
                       'pyverilog.ast_code_generator', 'PLY', 'jinja2', 'pygraphviz', 'iverilog -E'],
              'stub': ['processes are forks of one clean process (simkit.child)', 'interrupts between lines '
                       '(simkit.lines)', 'file and child process faults (simkit.iosim)']}
ASSUMPTIONS = ['both processes start with the parser tables already imported',
               'an error is a result: the same error is expected again',
               'sets are compared without order']
REQUIRED_PROBES = ('interrupted', 'same-object-interrupted', 'broken-text', 'same-name', 'io-fault', 'repeated')
S = _session.STEPS


def budget(tier):
    return (560, 130) if tier == 'quick' else (30000, 780)


def prepare(tier):
    observe.warm()
    observe.warm_templates()
    _hw.limit_nodes()


def text_of(spec):
    kind, seed = spec[0], spec[1]
    r = random.Random(seed)
    if kind == 'gallery':
        return texts.gallery(r), 'GAL'
    if kind == 'texts':
        return texts.design(r)
    if kind == 'fsm':
        return texts.fsm(r)
    if kind == 'broken':
        t, top = texts.design(r)
        return texts.broken(r, t), top
    if kind == 'semantic':                      # parses, but cannot be analysed
        t, top = texts.design(r)
        return texts.unanalysable(r, t), top
    d = gen.design(r, size=1)
    return gen.text(d), 'TOP'


def spec(r, target=False):
    kinds = ['texts', 'texts', 'fsm', 'hw', 'gallery']
    if not target:
        kinds += ['broken', 'semantic', 'broken', 'semantic']
    return [r.choice(kinds), r.randrange(1 << 32)]


def make(r, i, tier):
    sc = {'text': spec(r, True), 'history': [], 'before': []}
    for k in range(r.choice([0, 1, 1, 2, 3])):
        op = {'text': spec(r), 'upto': r.randrange(1, len(S) + 1), 'same_parser': r.random() < 0.4,
              'line': None, 'plan': [], 'planstep': r.choice(['codeparse', 'generate', 'generate', 'codegen'])}
        m = r.random()
        if m < 0.35:
            op['line'] = [r.choice(S), r.choice([r.randint(1, 40), r.randint(1, 600), r.randint(1, 6000)])]
        elif m < 0.55:
            op['plan'] = fault(r)
        sc['history'].append(op)
    for n in S:                                   # what happens on the final session's own objects before each query
        if r.random() < 0.22:
            m = r.random()
            b = {'step': n, 'line': None, 'plan': [], 'again': 0}
            if m < 0.55:
                b['line'] = r.choice([r.randint(1, 30), r.randint(1, 400), r.randint(1, 5000)])
            elif m < 0.65 and n in ('codeparse', 'generate', 'codegen', 'parse'):
                b['plan'] = fault(r)
            else:
                b['again'] = 1
            sc['before'].append(b)
    return sc


def fault(r):
    kind = r.choice(['open', 'read', 'write', 'close', 'spawn', 'create', 'remove'])
    do = {'open': ['EMFILE', 'EIO', 'sigint'], 'read': ['EIO', 'sigint'], 'write': ['ENOSPC', 'EIO', 'sigint'],
          'close': ['EIO', 'sigint'], 'spawn': ['EAGAIN', 'exit', 'killed', 'interrupt'],
          'create': ['ENOSPC', 'EMFILE', 'sigint'], 'remove': ['EACCES', 'EIO', 'sigint']}[kind]
    return [{'at': [kind, r.choice([1, 1, 2, 3])], 'do': [r.choice(do), 0.5]}]


class Log(object):
    def __init__(self):
        self.events, self.faults, self.probes = [], {}, {}

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n


def call(st, name, log, line=None, plan=(), root=None):
    """One possibly disturbed call; returns its outcome."""
    w = iosim.World(root, plan, outcome=log) if plan else None
    ln = lines.Lines(line)
    if w:
        w.__enter__()
    try:
        with ln:
            r = _session.step(st, name)
    except KeyboardInterrupt:
        r = 'interrupt'
    finally:
        if w:
            w.__exit__()
    if ln.where:
        log.fault('interrupt-at-line')
        log.probe('interrupted')
    if w and w.fired:
        log.probe('io-fault')
    kind = r if r.startswith(('raise', 'interrupt', 'too-big')) else 'ok'
    log.events.append([name, ln.where, [list(f[:2]) for f in w.fired] if w else [], kind[:60]])
    return r


def share(st, objects):
    st.o.update({k: v for k, v in objects.items() if k == 'parser' or k == 'gen' and objects['indent'] == st.indent})


def play(sc, d, fresh):
    """The child's life: history (unless fresh), then the final session."""
    os.chdir(d)
    log = Log()
    text, top = text_of(sc['text'])
    st = _session.State(d, text, top)
    parser = None
    if not fresh:
        for op in sc['history']:
            t, tp = text_of(op['text'])
            old = _session.State(d, t, tp)
            old.write()
            if op['text'][0] in ('broken', 'semantic'):
                log.probe('broken-text')
            if tp == top:
                log.probe('same-name')
            if op['same_parser'] and parser is not None:
                share(old, parser)
            for n in S[:op['upto']]:
                line = op['line'][1] if op['line'] and op['line'][0] == n else None
                plan = op['plan'] if n == op['planstep'] else ()
                call(old, n, log, line, plan, d)
            if op['same_parser']:
                parser = {k: old.o[k] for k in ('parser', 'gen') if k in old.o}
                parser['indent'] = old.indent
        if parser is not None:
            share(st, parser)
    st.write()
    before = {b['step']: b for b in sc['before']} if not fresh else {}
    res = []
    for n in S:
        b = before.get(n)
        if b:
            call(st, n, log, b['line'], b['plan'], d)
            if b['again']:
                log.probe('repeated')
            elif log.events[-1][1] or log.events[-1][2]:
                log.probe('same-object-interrupted')
        r = _session.step(st, n)
        res.append([n, r])
        if n in ('visitors', 'codegen', 'identifiers', 'optimize', 'walk', 'subset', 'active', 'graph', 'tocode', 'dfcode'):
            res.append([n + ':unchanged', st.unchanged()])
    return {'res': res, 'events': log.events, 'faults': log.faults, 'probes': log.probes}


def run(sc):
    out = core.Outcome()
    with core.Scratch('p08') as a, core.Scratch('p08') as b:
        base = child.run(lambda: play(sc, a, True))
        got = child.run(lambda: play(sc, b, False))
    out.nruns = 2
    for k, n in got['faults'].items():
        out.fault(k, n)
    for k, n in got['probes'].items():
        out.probe(k, n)
    for e in got['events']:
        out.log(e)
        out.states.append(e)
    out.steps = len(got['events']) + len(S)
    judge(out, sc, base['res'], got['res'])
    if sc['history'] or sc['before']:
        out.nontrivial = got['events']
    out.sample = {'text': sc['text'], 'history': sc['history'], 'before': sc['before']}
    return out


def judge(out, sc, base, got):
    views = {}
    for who, res in (('fresh', base), ('after the history', got)):
        last = {}
        for n, r in res:
            if not n.endswith(':unchanged'):
                continue
            for k, v in r.items():
                if k in last and last[k] != v:
                    out.fail('object-changed', 'the %s objects read by "%s" (%s) changed:\n%s'
                             % (k, n[:-10], who, _session.diff(last[k], v)))
                last[k] = v
        views[who] = last
    if out.violations:
        return
    for (n, x), (_, y) in zip(base, got):
        if x != y and 'too-big' not in (x, y):
            if isinstance(x, dict):
                for k in x:
                    if x[k] != y.get(k):
                        x, y = x[k], y.get(k) or ''
                        break
                else:
                    continue
            out.fail('history-dependent', '"%s" gives another result than in a process without the history:\n%s'
                     % (n, _session.diff(x, y)))
            return


def shrink(sc):
    for k in range(len(sc['history'])):
        c = copy.deepcopy(sc)
        del c['history'][k]
        yield c
    for k in range(len(sc['before'])):
        c = copy.deepcopy(sc)
        del c['before'][k]
        yield c
    for k in range(len(sc['history'])):
        h = sc['history'][k]
        for f, v in (('line', None), ('plan', []), ('same_parser', False)):
            if h[f] != v:
                c = copy.deepcopy(sc)
                c['history'][k][f] = v
                yield c
        if h['upto'] > 1:
            for u in (1, h['upto'] // 2, h['upto'] - 1):
                c = copy.deepcopy(sc)
                c['history'][k]['upto'] = u
                yield c
    for s in range(4):
        for kind in ('texts', 'fsm'):
            if sc['text'] != [kind, s] and sc['text'][1] > 8:
                c = copy.deepcopy(sc)
                c['text'] = [kind, s]
                yield c
