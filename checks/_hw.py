"""Shared by the hardware-history checks: one design, one execution history,
and what PyVerilog says about the design."""
import os
import random

from simkit import core, observe
from hw import gen, stim, vfront, vsim, dfeval
from hw.dfeval import TooBig

COMPONENTS = {'real': ['pyverilog.vparser (preprocessor, lexer, parser)', 'pyverilog.dataflow',
                       'PLY', 'iverilog -E'],
              'stub': ['the hardware: hw.vsim, an event-driven two-state simulator with its own front end '
                       '(hw.vfront), cross-validated against Icarus vvp (hw/xval.py)']}


def prepare(tier):
    observe.warm()
    limit_nodes()


# The analyzer distributes branches over expressions: some designs grow exponentially.  How long PyVerilog
# takes is no property; such designs are set aside after a fixed number of dataflow nodes (not after a time,
# which would differ from machine to machine).
NODES = 120000
_count = [0, False]


def limit_nodes():
    if _count[1]:
        return
    _count[1] = True
    from pyverilog.dataflow import dataflow as D
    for c in (D.DFBranch, D.DFOperator, D.DFConcat, D.DFPartselect):
        def init(self, *a, _o=c.__init__, **k):
            _count[0] += 1
            if _count[0] > NODES:
                raise TooBig()
            return _o(self, *a, **k)
        c.__init__ = init


def new_budget():
    _count[0] = 0


def bounded(run):
    """Decorator of a check's run()."""
    def f(sc):
        new_budget()
        if 'pinned' in sc:
            return pinned_run(run, sc)
        try:
            return run(sc)
        except TooBig:
            out = core.Outcome()
            out.probe('too-big')
            out.log('too-big')
            return out
        except Unusable:
            out = core.Outcome()
            out.probe('unusable')
            out.log('unusable')
            return out
    return f


# ------------------------------------------------------------------ scenarios
def scenario(r, i, feats=None, uniform=None, nops=(12, 60), allowed=None):
    f = gen.features(r, allowed or gen.ALL) if feats is None else feats
    d = gen.design(r, f, uniform)
    return {'design': d, 'seed': r.getrandbits(48), 'nops': r.randint(*nops), 'skip': []}


def shrink(sc):
    """Drop source items, then operations."""
    d = sc['design']
    for k in (2, 1):
        n = sc['nops'] * (0 if k == 2 else 1) // 2
        if sc['nops'] > 1 and n < sc['nops']:
            yield dict(sc, nops=max(n, 1))
    for mi, m in enumerate(d['modules']):
        if m['name'] != d['top'] and len(d['modules']) > 1:
            yield dict(sc, design=dict(d, modules=[x for j, x in enumerate(d['modules']) if j != mi]))
    for mi, m in enumerate(d['modules']):
        for key in ('items',):
            n = len(m[key])
            size = max(n // 2, 1)
            while size >= 1:
                for k in range(0, n, size):
                    m2 = dict(m)
                    m2[key] = m[key][:k] + m[key][k + size:]
                    yield dict(sc, design=dict(d, modules=[m2 if j == mi else x for j, x in enumerate(d['modules'])]))
                size //= 2
    for mi, m in enumerate(d['modules']):
        for ii, it in enumerate(m['items']):
            for new in smaller(it):
                m2 = dict(m)
                m2['items'] = m['items'][:ii] + [new] + m['items'][ii + 1:]
                yield dict(sc, design=dict(d, modules=[m2 if j == mi else x for j, x in enumerate(d['modules'])]))
    if len(sc['skip']) < sc['nops']:
        for k in range(sc['nops']):
            if k not in sc['skip']:
                yield dict(sc, skip=sc['skip'] + [k])


def smaller(item):
    """Replace parenthesised parts of an item by one of their operands, or drop lines."""
    spans = []
    st = []
    for i, c in enumerate(item):
        if c == '(':
            st.append(i)
        elif c == ')' and st:
            spans.append((st.pop(), i))
    spans.sort(key=lambda x: x[0] - x[1])
    for a, b in spans[:24]:
        body = item[a + 1:b]
        if a and (item[a - 1].isalnum() or item[a - 1] in '_@'):
            continue
        for part in operands(body):
            yield item[:a] + part + item[b + 1:]
    L = item.split('\n')
    if len(L) > 3:
        for k in range(1, len(L) - 1):
            yield '\n'.join(L[:k] + L[k + 1:])


def operands(body):
    out, depth, cur = [], 0, ''
    for tok in body.split(' '):
        if depth == 0 and tok in ('+', '-', '*', '&', '|', '^', '~^', '&&', '||', '==', '!=', '<', '>', '<=', '>=', '<<', '>>',
                                  '<<<', '>>>', '?', ':', '===', '!==', '/', '%', '**'):
            out.append(cur.strip())
            cur = ''
            continue
        depth += sum(tok.count(c) for c in '({[') - sum(tok.count(c) for c in ')}]')
        cur += tok + ' '
    out.append(cur.strip())
    return [o for o in out if o] if len(out) > 1 else []


# ------------------------------------------------------------------ execution
class World(object):
    """One design, its hardware and one fixed history of it."""

    def __init__(self, sc, text=None):
        self.sc = sc
        d = sc['design']
        self.text = text if text is not None else sc['text'] if 'text' in sc else gen.text(d)
        try:
            self.d = vfront.elaborate(self.text, d['top'])
        except vfront.VError as e:
            raise Unusable(str(e))
        self.m = vsim.Model(self.d)
        r = random.Random(sc['seed'])
        self.init = stim.initial(self.d, self.m, r)
        ops = stim.history(self.d, r, sc['nops'], d['clocks'], d['rst'], self.init)
        self.ops = [o for k, o in enumerate(ops) if k not in sc['skip']]

    def sim(self, seed=0, init=None):
        init = self.init if init is None else init
        try:
            return vsim.Sim(self.m, random.Random(self.sc['seed'] + 1 + seed), lambda s: init.get(s.index))
        except vfront.VError as e:
            raise Unusable(str(e))

    def steps(self, sim):
        """(operation number, changed inputs, values before, values after)"""
        before = sim.snapshot()
        for k, op in enumerate(self.ops):
            try:
                sim.drive(op)
            except vfront.VError as e:
                raise Unusable(str(e))
            after = sim.snapshot()
            yield k, op, before, after
            before = after


class Unusable(Exception):
    """The scenario (usually while minimising) is not a legal design."""


def analyze(text, top, name='d.v', **kw):
    """The real analyzer, on a real file in a scratch directory."""
    from pyverilog.dataflow.dataflow_analyzer import VerilogDataflowAnalyzer
    with core.Scratch('hw') as wd:
        old = os.getcwd()
        os.chdir(wd)
        try:
            p = os.path.join(wd, name)
            with open(p, 'w') as f:
                f.write(text)
            a = VerilogDataflowAnalyzer([p], top, **kw)
            a.generate()
            return a
        finally:
            os.chdir(old)


def bits(v, lo, w):
    return (v >> lo) & ((1 << w) - 1)


# ---------------------------------------------------------- known findings
def pinned(name, text, top='TOP', seed=1, nops=120, clocks=('CLK',), rst='RST', **kw):
    """A fixed design that shows a finding; its violations have the key pinned:<name>."""
    return dict({'pinned': name, 'text': text, 'seed': seed, 'nops': nops, 'skip': [],
                 'design': {'top': top, 'clocks': list(clocks), 'rst': rst, 'feats': [], 'modules': []}}, **kw)


def pinned_run(run, sc):
    key = 'pinned:' + sc['pinned']
    try:
        out = run(sc)
    except core.Violation as v:
        out = core.Outcome()
        out.fail(v.kind, v.detail, key)
    except Unusable as e:
        raise core.HarnessError('pinned design %s: %s' % (sc['pinned'], e))
    except (Exception, TooBig) as e:
        if core.repo_frame(e) is None:
            raise
        out = core.Outcome()
        out.fail('exception', '%s: %s' % (type(e).__name__, e), key)
    for v in out.violations:
        v['key'] = key
    out.nontrivial = None
    return out


def describe(world, op):
    return {world.d.sigs[i].name: v for i, v in op.items()}
