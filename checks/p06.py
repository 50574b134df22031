"""P06: reported active conditions cover every change of a signal."""
import contextlib
import io
import re

from simkit import core
from checks import _hw, p01, p05
from hw import dfeval, fsmgen, vfront
from hw.dfeval import NoValue, TooBig

PROPERTY = 'P06'
LEVEL = 'exploration'
RULE = ('A case is one generated design with state machines and registers they control, and one seeded history with resets and '
        'upsets; at every clock edge outside reset the reported active conditions (assigned, held, assigned a constant above zero) are '
        'compared with what the register does, both ways. Non-trivial: a reported condition was true and the register changed.')
STATE_MEASURE = 'distinct (design, register, state, condition kind) that became active'
COMPONENTS = _hw.COMPONENTS
ASSUMPTIONS = ['two-state values: X and Z are outside', 'reset signals are named after reset or rst, have a branch of their own and clear '
               'the register', 'bitwise operators between a comparison with the state and something else have operands of one bit',
               'every assignment of the register is under a condition on the state of a recognised machine']
REQUIRED_PROBES = ('modify', 'unmodify', 'constant', 'modify-not', 'unmodify-not', 'constant-not',
                   'submodule', 'two-machines', 'conditional', 'unconditional')
prepare = _hw.prepare
shrink = _hw.shrink
history = p05.history


def budget(tier):
    return (3000, 150) if tier == 'quick' else (60000, 780)


def _reg(name, body):
    sc = _hw.pinned(name, """
module TOP(input CLK, input RST, input go, input [7:0] a, output y);
  reg [1:0] state;
  reg q;
  assign y = q;
  always @(posedge CLK) begin
    if(RST) begin
      state <= 0;
    end else begin
      case(state)
        0: if(go) state <= 1;
        1: state <= 2;
        2: state <= 0;
      endcase
    end
  end
  always @(posedge CLK) begin
    %s
  end
endmodule
""" % body)
    sc['design'].update(machines=[['TOP.state', 'CLK', 'RST', True, True]], lits=[0, 1, 2, 3],
                        outs=[['TOP.q', 'TOP.state', None, True, True, 'assign']])
    return sc


PINNED = [
    _reg('no-condition', 'q <= a[0];'),
    _reg('condition-without-state', "if(go) q <= 1'b1; else if(state == 1) q <= 1'b0;"),
    _reg('condition-and-vector', "if(a & (state == 1)) q <= 1'b1;"),
    _reg('condition-on-bit-of-state', "if(state[1]) q <= 1'b1; else if(state == 1) q <= 1'b0;"),
]


def make(r, i, tier):
    if i < len(PINNED):
        return PINNED[i]
    return {'design': fsmgen.outputs(r), 'seed': r.getrandbits(48), 'nops': r.choice([60, 120, 240]), 'skip': []}


def legal(text, d):
    """While minimising: a reset has a branch of its own."""
    for path, fsm, rst, high, const, whole in d['outs']:
        n = path.rsplit('.', 1)[1]
        if rst and re.search(r'reg [^;]*\b%s;' % n, text) and not re.search(
                r'if\(!?%s\) begin\s*%s <= 0;\s*end else begin' % (rst, n), text):
            raise _hw.Unusable('reset')


class Reg(object):
    pass


def does(sim, q, op, before, after=None, state=None):
    """What the register does at this edge, by disturbing its old value: it is still there if it is held."""
    res = []
    for v in (before[q.i], before[q.i] ^ (1 << q.w) - 1):
        if after is not None and v == before[q.i]:
            res.append(after[q.i])
            continue
        sim.restore(before)
        if state is not None:
            sim.poke(q.m, state)
        sim.poke(q.i, v)
        sim.drive(op)
        res.append(sim.S[q.i])
    x, y = res
    held = x == before[q.i] and y == before[q.i] ^ (1 << q.w) - 1
    if not held and x != y:
        raise core.HarnessError('%s is neither held nor assigned' % q.n)
    return {'modify': not held, 'unmodify': held, 'constant': not held and x > 0}


def elsewhere(sim, q, op, before, after, kind):
    """Whether the register would not do this in another state of its machine."""
    try:
        return any(not does(sim, q, op, before, None, x)[kind] for x in range(1 << q.mw) if x != before[q.m])
    finally:
        sim.restore(after)


@_hw.bounded
def run(sc):
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
    from pyverilog.controlflow.active_analyzer import VerilogActiveConditionAnalyzer
    from pyverilog.controlflow import splitter
    out = core.Outcome()
    world = _hw.World(sc)
    d = sc['design']
    if 'pinned' not in sc:
        p05.legal(world.text, d)
        legal(world.text, d)
    world.rst = d['rst']
    history(world, sc)
    sim = world.sim()
    top = d['top']
    a = _hw.analyze(world.text, top)
    terms, binds = a.getTerms(), a.getBinddict()
    df = dfeval.DF(terms, binds, world.d)
    o = VerilogDataflowOptimizer(terms, binds)
    o.resolveConstant()
    kinds = (('modify', splitter.active_modify), ('unmodify', splitter.active_unmodify), ('constant', splitter.active_constant))
    byname = {str(n): n for n in terms}
    regs = []
    with contextlib.redirect_stdout(io.StringIO()):
        aa = VerilogActiveConditionAnalyzer(top, terms, binds, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        for path, fsm, rst, high, const, whole in d['outs']:
            n, m = byname.get(path), byname.get(fsm)
            if n is None or m is None or n not in df.sigof or m not in df.sigof or not binds.get(n):
                continue
            q = Reg()
            q.n, q.i, q.rst, q.high, q.const, q.whole = n, df.sigof[n].index, rst, high, const, whole
            q.w = world.d.sigs[q.i].width
            q.m = df.sigof[m].index
            q.mw = world.d.sigs[q.m].width
            q.known = m in aa.fsms
            q.conds = {}
            for kind, f in kinds:
                L = q.conds[kind] = []
                for name, pairs in aa.getActiveConditions(n, condition=f).items():
                    for state, cond in pairs:
                        L.append((name, None if state == 'any' else df.sigof[name].index, state, cond))
            regs.append(q)
            out.log(path, {k: sorted((str(x), str(s), str(c)) for x, _, s, c in L) for k, L in q.conds.items()})
    if len(d['modules']) > 1:
        out.probe('submodule')
    if len(aa.fsms) > 1:
        out.probe('two-machines')
    index = {s.name: s.index for s in world.d.sigs}
    c = index[top + '.' + d['clocks'][0]]
    cache = {}

    def true(cond, S):
        if cond is None:
            return True
        f = cache.get(id(cond))
        if f is None:
            f = cache[id(cond)] = df.compile_cond(cond)
        return bool(f(S))

    active = False
    for k, op, before, after in p05.steps(world, sim, out):
        if not (op.get(c) and not before[c]):
            continue
        pre = list(before)
        for i, v in op.items():
            pre[i] = after[i]
        for s in world.d.sigs:          # the clock inside
            if s.name.endswith('.CLK'):
                pre[s.index] = after[s.index]
        for q in regs:
            x = index.get(top + '.' + q.rst) if q.rst else None
            if x is not None and bool(pre[x]) == q.high:
                continue
            did = does(sim, q, op, before, after)
            sim.restore(after)
            held = did['unmodify']
            for kind, L in q.conds.items():
                hit = None
                for name, i, state, cond in L:
                    if i is not None and pre[i] != state:
                        continue
                    try:
                        on = true(cond, pre)
                    except (NoValue, vfront.VError) as e:
                        out.fail('undefined', 'the condition %s of %s cannot be evaluated: %s' % (cond.tostr(), q.n, e))
                        return out
                    if on:
                        hit = (name, state, cond)
                        out.probe('unconditional' if cond is None else 'conditional')
                        if not did[kind]:
                            break
                        out.states.append(repr((hash(world.text), str(q.n), state, kind)))
                what = 'op %d: %s is %d and becomes %d (%s)' % (k, q.n, before[q.i], after[q.i], 'held' if held else 'assigned')
                if hit:
                    out.probe(kind)
                    if after[q.i] != before[q.i]:
                        active = True
                    if not did[kind]:
                        out.fail('not-active', '%s, but %s is %s and %s is true: reported for %s' % (
                            what, hit[0], hit[1], hit[2] and hit[2].tocode(), kind))
                        return out
                elif q.known and did[kind] and (kind != 'constant' or q.const) \
                        and ('hold' if kind == 'unmodify' else 'assign') in q.whole \
                        and ('pinned' in sc or elsewhere(sim, q, op, before, after, kind)):
                    out.fail('unreported', '%s, which none of the conditions reported for %s is true for\nreported: %s' % (
                        what, kind, ''.join('\n  %s is %s: %s' % (x, s, y and y.tocode()) for x, _, s, y in L)[:2500]))
                    return out
                elif q.known and did[kind]:
                    out.probe(kind + '-anywhere')
                else:
                    out.probe(kind + '-not')
    p01.account(world, sim, out)
    if active:
        out.nontrivial = (world.text, sc['seed'])
    out.log(sim.order, str(sim.S))
    out.sample = world.text[:800]
    return out
