"""P05: extracted state machines cover every transition the hardware takes."""
import contextlib
import io
import random
import re

from simkit import core
from checks import _hw, p01
from hw import dfeval, fsmgen, vfront
from hw.dfeval import NoValue, TooBig

PROPERTY = 'P05'
LEVEL = 'exploration'
RULE = ('A case is one generated design with state machines and one seeded history with resets; every clock edge outside reset '
        'is compared with the reported transitions, both ways, and every executed cycle of states with the reported loops. '
        'Non-trivial: a reported machine changed its state.')
STATE_MEASURE = 'distinct (machine text, executed transition) pairs'
COMPONENTS = _hw.COMPONENTS
ASSUMPTIONS = ['two-state values: X and Z are outside', 'reset signals are named after reset or rst and have a branch of their own',
               'states are assigned constants']
REQUIRED_PROBES = ('machine', 'taken', 'taken-any', 'conditional', 'unconditional', 'not-taken', 'loop', 'self', 'reset', 'recognised',
                   'submodule', 'next', 'async', 'sync', 'no-reset')
prepare = _hw.prepare
shrink = _hw.shrink


def budget(tier):
    return (5000, 170) if tier == 'quick' else (80000, 780)


def _fsm(name, body, regs='reg [1:0] state;'):
    sc = _hw.pinned(name, """
module TOP(input CLK, input RST, input go, input [7:0] a, output [1:0] y);
  %s
  assign y = state;
  always @(posedge CLK) begin
    if(RST) begin
      state <= 0;
    end else begin
%s
    end
  end
endmodule
""" % (regs, body))
    sc['design'].update(machines=[['TOP.state', 'CLK', 'RST', True, True]], lits=[0, 1, 2, 3])
    return sc


PINNED = [
    _fsm('computed-state', '''
      case(state)
        0: if(go) state <= 1;
        1: state <= state + 1;
        2: state <= 0;
      endcase
'''),
    _fsm('state-by-bits', '''
      case(state)
        0: if(go) state <= 1;
        1: begin state[1] <= 1; state[0] <= 0; end
        2: state <= 0;
      endcase
'''),
]


def make(r, i, tier):
    if i < len(PINNED):
        return PINNED[i]
    return {'design': fsmgen.design(r), 'seed': r.getrandbits(48), 'nops': r.choice([60, 120, 240]), 'skip': []}


def history(world, sc):
    """Clock edges, changes of the inputs towards the constants of the design, short resets and upsets of state registers."""
    r = random.Random(sc['seed'] ^ 0xf5f5)
    d = sc['design']
    sig = {s.name.split('.', 1)[1]: s for s in world.d.inputs}
    rst = sig.get(d['rst'])
    active = 0 if d['rst'] in ('rst_x', 'rst_n') else 1
    clk = sig['CLK'].index
    cur = dict(world.init)
    data = [s for n, s in sig.items() if n not in ('CLK', d['rst'])]
    ops = []
    if rst is not None and cur[rst.index] == active and r.random() < 0.8:
        cur[rst.index] = world.init[rst.index] = 1 - active
    left = None
    rate = r.choice([0.0, 0.01, 0.03, 0.1])
    names = set(m[0] for m in d['machines'])
    mach = [s for s in world.d.sigs if s.name in names and s.isreg and not s.depth] if r.random() < 0.5 else []
    lits = d.get('lits') or [0, 1, 255]
    while len(ops) < sc['nops']:
        if rst is not None and cur[rst.index] == active:
            left = r.randint(1, 6) if left is None else left - 1
            if left <= 0:
                left = None
                cur[rst.index] = 1 - active
                ops.append({rst.index: cur[rst.index]})
                continue
        elif rst is not None and r.random() < rate:
            cur[rst.index] = active
            ops.append({rst.index: active})
            continue
        if mach and r.random() < 0.06:      # a single-event upset
            s = r.choice(mach)
            ops.append({s.index: None, 'bit': r.randrange(s.width)})
            continue
        if data and r.random() < 0.35:
            op = {}
            for s in r.sample(data, r.randint(1, len(data))):
                v = r.choice(lits) + r.choice([0, 0, 0, 1, -1]) if r.random() < 0.7 else r.getrandbits(s.width)
                op[s.index] = cur[s.index] = v & ((1 << s.width) - 1)
            ops.append(op)
        else:
            cur[clk] ^= 1
            ops.append({clk: cur[clk]})
    world.ops = [o for k, o in enumerate(ops) if k not in sc['skip']]


def legal(text, d):
    """While minimising: no latches, and a reset has a branch of its own."""
    if len(re.findall(r'always @\*', text)) != len(re.findall(r'always @\*\s*begin\s*nx\d+ = \w+;', text)):
        raise _hw.Unusable('latch')
    for path, clk, rst, high, certain in d['machines']:
        n = path.rsplit('.', 1)[1]
        if rst and re.search(r'reg [^;]*\b%s;' % n, text) and not re.search(
                r'if\([^()]*%s[^()]*\) begin\s*%s <= [\w\']+;\s*end else begin' % (rst, n), text):
            raise _hw.Unusable('reset')
    if re.search(r'case\([^()]*\)\s*endcase', text):
        raise _hw.Unusable('empty case')


@_hw.bounded
def run(sc):
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
    from pyverilog.controlflow.controlflow_analyzer import VerilogControlflowAnalyzer
    out = core.Outcome()
    world = _hw.World(sc)
    if 'pinned' not in sc:
        legal(world.text, sc['design'])
    world.rst = sc['design']['rst']
    history(world, sc)
    sim = world.sim()
    d = sc['design']
    top = d['top']
    a = _hw.analyze(world.text, top)
    terms, binds = a.getTerms(), a.getBinddict()
    df = dfeval.DF(terms, binds, world.d)
    o = VerilogDataflowOptimizer(terms, binds)
    o.resolveConstant()
    with contextlib.redirect_stdout(io.StringIO()):
        ca = VerilogControlflowAnalyzer(top, terms, binds, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        loops, fsms = ca.getLoops()
    byname = {str(n): n for n in terms}
    watched = []
    if len(d['modules']) > 1:
        out.probe('submodule')
    for path, clk, rst, high, certain in d['machines']:
        n = byname.get(path)
        if n is None or n not in df.sigof or not binds.get(n):
            continue
        out.probe('machine')
        out.probe('no-reset' if rst is None else 'async' if any(b.getResetName() is not None for b in binds[n]) else 'sync')
        if n not in fsms:
            out.probe('unrecognised')
            if certain:
                watched.append(Machine(df, world, n, None, (), rst, high))
            continue
        out.probe('recognised')
        watched.append(Machine(df, world, n, fsms[n], loops.get(n, set()), rst, high))
    world_index = {s.name: s.index for s in world.d.sigs}
    c = world_index[top + '.' + d['clocks'][0]]
    moved = False
    for k, op, before, after in steps(world, sim, out):
        if not (op.get(c) and not before[c]):
            for m in watched:
                if after[m.i] != before[m.i]:
                    m.trail = [after[m.i]]
                    if m.i not in op:
                        out.probe('reset')
            continue
        pre = list(before)
        for i, v in op.items():
            pre[i] = after[i]
        for s in world.d.sigs:          # the clock inside
            if s.name.endswith('.CLK'):
                pre[s.index] = after[s.index]
        for m in watched:
            x = world_index.get(top + '.' + m.rst) if m.rst else None
            if x is not None and bool(pre[x]) == m.high:
                m.trail = [after[m.i]]
                out.probe('reset')
                continue
            r = m.step(k, op, pre, before[m.i], after[m.i], out, world, before)
            if r is False:
                return out
            if r:
                moved = True
                out.states.append((hash(world.text), str(m.n), before[m.i], after[m.i]).__repr__())
    for m in watched:
        if m.fsm is None and depends(m, sim, out):
            return out
    p01.account(world, sim, out)
    if moved:
        out.nontrivial = (world.text, sc['seed'])
    for m in watched:
        if m.fsm is None:
            continue
        out.log(str(m.n), sorted(map(str, m.loops)), sorted((s, str(cd), t) for s, x in m.fsm.fsm.items() for cd, t in x.items()))
    out.log(sim.order, str(sim.S))
    if 'nx' in world.text:
        out.probe('next')
    out.sample = world.text[:800]
    return out


def steps(world, sim, out):
    """As World.steps, with upsets."""
    before = sim.snapshot()
    for k, op in enumerate(world.ops):
        if 'bit' in op:
            i, = (x for x in op if x != 'bit')
            op = {i: before[i] ^ 1 << op['bit']}
            out.fault('state-upset')
        elif world.d.sigs[next(iter(op))].name.rsplit('.', 1)[1] == world.rst:
            out.fault('reset')
        try:
            sim.drive(op)
        except vfront.VError as e:
            raise _hw.Unusable(str(e))
        after = sim.snapshot()
        yield k, op, before, after
        before = after


def depends(m, sim, out):
    """Whether the state to go to depends on the present one."""
    for k, op, snap, s, t in m.seen[:12]:
        for x in range(1 << sim.m.d.sigs[m.i].width):
            sim.restore(snap)
            sim.poke(m.i, x)
            sim.drive(op)
            y = sim.S[m.i]
            if y != x and y != t:
                out.fail('unrecognised', 'op %d: %s goes from %d to %d, and would go from %d to %d, but is not among the state machines'
                         % (k, m.n, s, t, x, y))
                return True
    return False


class Machine(object):
    def __init__(self, df, world, n, fsm, loops, rst, high):
        self.n, self.fsm, self.rst, self.high = n, fsm, rst, high
        self.i = df.sigof[n].index
        self.loops = set(loops)
        self.df = df
        self.cache = {}
        self.trail = []
        self.seen = []

    def true(self, cond, S):
        if cond is None:
            return True
        f = self.cache.get(id(cond))
        if f is None:
            f = self.cache[id(cond)] = self.df.compile_cond(cond)
        return bool(f(S))

    def step(self, k, op, pre, s, t, out, world, snap):
        """Compare one clock edge outside reset: false after a violation, true after a change."""
        found = False
        if self.fsm is None:
            if s != t:
                self.seen.append((k, op, snap, s, t))
            return None
        for label, table in (('from %d' % s, self.fsm.fsm.get(s, {})), ('from any state', self.fsm.any)):
            for cond, dst in table.items():
                try:
                    on = self.true(cond, pre)
                except (NoValue, vfront.VError) as e:
                    out.fail('undefined', 'the condition %s of %s cannot be evaluated: %s' % (cond.tostr(), self.n, e))
                    return False
                out.probe('unconditional' if cond is None else 'conditional')
                if not on:
                    out.probe('not-taken')
                    continue
                if dst != t:
                    out.fail('not-taken', 'op %d: %s is %d and goes to %d, but a transition %s to %d under %s, which is true, is '
                             'reported\nreported: %s' % (k, self.n, s, t, label, dst, cond and cond.tocode(), self.show()))
                    return False
                found = True
                out.probe('taken-any' if table is self.fsm.any else 'taken')
        if s == t:
            out.probe('self')
            self.trail = self.trail or [s]
            return None
        if not found:
            out.fail('unreported', 'op %d %s: %s goes from %d to %d, which is not a reported transition under a true condition\n'
                     'reported: %s' % (k, _hw.describe(world, op), self.n, s, t, self.show()))
            return False
        if not self.trail or self.trail[-1] != s:
            self.trail = [s]
        if t in self.trail:
            j = self.trail.index(t)
            cyc = tuple(self.trail[j:])
            m = cyc.index(min(cyc))
            cyc = cyc[m:] + cyc[:m]
            out.probe('loop')
            if cyc not in self.loops:
                out.fail('loop-unreported', 'op %d: %s went through the states %s, which is not a reported loop\nloops: %s\nreported: '
                         '%s' % (k, self.n, cyc, sorted(self.loops)[:40], self.show()))
                return False
            self.trail = self.trail[:j]
        self.trail.append(t)
        return True

    def show(self):
        L = ['any -- %s --> %d' % (c and c.tocode(), t) for c, t in self.fsm.any.items()]
        L += ['%d -- %s --> %d' % (s, c and c.tocode(), t) for s, x in sorted(self.fsm.fsm.items()) for c, t in x.items()]
        return '\n  '.join([''] + L)[:2500]
