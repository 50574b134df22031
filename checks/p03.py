"""P03: a signal outside the reported cone of influence never affects the target."""
import random
import re

from simkit import core
from checks import _hw, p01, p02
from hw import dfeval, fold, gen, optgen, vfront
from hw.dfeval import NoValue, TooBig

PROPERTY = 'P03'
LEVEL = 'exploration'
RULE = ('A case is one generated design, one seeded history and seeded disturbances. For each target the subset tool, the '
        'walked tree and the dataflow graph say what feeds it; the history is run again with bit flips and stuck values on '
        'signals outside, and the target compared after every event. Non-trivial: a disturbance changed some other signal '
        'and the target itself changed.')
STATE_MEASURE = 'distinct process activation orders (hash of the scheduling decisions)'
COMPONENTS = _hw.COMPONENTS
ASSUMPTIONS = ['two-state values: X and Z are outside', 'designs are race free and have no combinational loops',
               'the clock given to set_clock_info feeds every register']
REQUIRED_PROBES = ('disturbed', 'effective', 'inside-effective', 'walked', 'graph', 'one-step', 'two-steps', 'walked-twice', 'graph-twice', 'reordered', 'closed', 'clocked-target',
                   'level-target', 'memory-target')
prepare = _hw.prepare
shrink = _hw.shrink
FLIPS, STUCK = 'bit-flip', 'stuck-signal'


def budget(tier):
    return (4000, 170) if tier == 'quick' else (60000, 780)


PINNED = [
    _hw.pinned('whole-after-part', '''
module TOP(input CLK, input RST, input s, input [7:0] a, input [7:0] b, output [3:0] y);
  reg [3:0] c, d;
  always @* begin
    d = 0;
    if(s) c = a[3:0];
    else begin {d, c} = a; c = b[7:4]; end
  end
  assign y = c;
endmodule
'''),
    _hw.pinned('graph-through-width', '''
module TOP(input CLK, input RST, input [7:0] a, input [3:0] b, output [3:0] y);
  wire [3:0] p;
  wire [7:0] q;
  assign p = a + 8'd1;
  assign q = {b, p};
  assign y = q[7:4];
endmodule
'''),
]


def make(r, i, tier):
    if i < len(PINNED):
        return PINNED[i]
    k = i % 8
    if k < 2:
        return {'design': optgen.design(r), 'seed': r.getrandbits(48), 'nops': r.randint(12, 50), 'skip': []}
    allowed = [f for f in gen.ALL if f != 'casewild' and (k == 7 or f != 'supply')]
    return _hw.scenario(r, i, gen.features(r, allowed), r.choice([4, 8, 16]) if k < 4 else None)


def bindrefs(b):
    """The names a definition refers to."""
    s = set()
    for t in (b.tree, b.msb, b.lsb, b.ptr):
        p02.terminals(t, s) if t is not None else None
    if b.isClockEdge():
        s |= {n for n in (b.getClockName(), b.getResetName()) if n is not None}
    return s


def whole(df, b, s):
    if b.msb is None:
        return b.ptr is None
    try:
        return not df.isconst(df.conv(b.msb)) or df.brange(b, s)[1] == s.width
    except (NoValue, vfront.VError):
        return True


def disturb(world, df, clock, target, inside, base, rng, out, n):
    """Run the history with disturbances on the signals not in `inside`; the target's trace must not change."""
    d = world.d
    outside = [s for s in d.sigs if s.index not in inside]
    if not outside:
        out.probe('whole-design')
        return True
    out.probe('disturbed')
    sim = world.sim(seed=n)
    held = {}
    todo = []
    T = target.index
    eff = False
    for k, op in enumerate(world.ops):
        for i in [i for i, t in held.items() if t <= k]:
            del held[i], sim.force[i]
            poke(sim, i, sim.S[i])
            todo.append('%d: release %s' % (k, d.sigs[i].name))
        if rng.random() < 0.4:
            for s in rng.sample(outside, min(len(outside), rng.choice([1, 1, 2, 4, 8]))):
                i = s.index
                if i in held:
                    continue
                if s.depth:
                    e = rng.randrange(s.depth)
                    v = list(sim.S[i])
                    v[e] ^= 1 << rng.randrange(s.width)
                    out.fault(FLIPS)
                else:
                    v = sim.S[i] ^ (1 << rng.randrange(s.width) if rng.random() < 0.6 else rng.getrandbits(s.width))
                    if rng.random() < 0.4:
                        held[i] = k + rng.randint(1, 6)
                        sim.force[i] = v
                        out.fault(STUCK)
                    else:
                        out.fault(FLIPS)
                todo.append('%d: %s %s = %s' % (k, 'hold' if i in held else 'set', s.name, v))
                poke(sim, i, v)
        try:
            sim.drive(op)
        except vfront.VError as e:
            raise _hw.Unusable(str(e))
        if sim.S[T] != base[k][T]:
            out.fail('outside-affects', 'op %d %s: %s is %s, undisturbed %s, but only signals reported not to feed it were '
                     'disturbed (%s)\ndisturbances: %s\nreported to feed it: %s' % (
                         k, _hw.describe(world, op), target.name, show(sim.S[T]), show(base[k][T]), 'subset', '; '.join(todo[-12:]),
                         ', '.join(sorted(d.sigs[i].name for i in inside))[:900]))
            return False
        eff = eff or sim.S != base[k]
    if eff:
        out.probe('effective')
    out.steps += sim.steps
    out.simtime += len(world.ops)
    out.states.append(sim.order)
    return eff or None


def poke(sim, i, v):
    try:
        sim.poke(i, v)
    except vfront.VError as e:
        raise _hw.Unusable(str(e))


def show(v):
    return '%x' % v if type(v) is int else str(v)


@_hw.bounded
def run(sc):
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
    from pyverilog.dataflow.subset import VerilogSubset
    from pyverilog.dataflow.walker import VerilogDataflowWalker
    from pyverilog.dataflow.graphgen import VerilogGraphGenerator
    from pyverilog.dataflow.dataflow import DFTerminal
    out = core.Outcome()
    world = _hw.World(sc)
    sim = world.sim()
    rng = random.Random(sc['seed'] ^ 0x5eed)
    top = sc['design']['top']
    clock = sc['design']['clocks'][0]
    a = _hw.analyze(world.text, top)
    terms, binds = a.getTerms(), a.getBinddict()
    df = dfeval.DF(terms, binds, world.d)
    o = VerilogDataflowOptimizer(terms, binds)
    o.resolveConstant()
    rt, rb, cl = o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist()
    index = {n: s.index for n, s in df.sigof.items()}
    base = [after for _, _, _, after in world.steps(sim)]
    apart = 'pinned' not in sc          # the findings are kept apart, except where they are shown
    reads = {n: {y for b in bs for y in bindrefs(b)} for n, bs in binds.items()}
    edgesigs = {x for bs in binds.values() for b in bs if b.isClockEdge() for x in (b.getClockName(), b.getResetName()) if x is not None}
    fl = fold.Fold(df, {n: v.value for n, v in cl.items() if not (v.isfloat or v.isstring)})
    cut = p02.cutting(df, binds, terms)
    folded = p02.folded(df, binds, terms, fl, p02.wrong_constants(df, binds, terms, fl))[2]
    grew = True
    while grew:
        more = {n for n, x in reads.items() if n not in cut and x & cut}
        cut |= more
        grew = bool(more)
    mixed = set()
    for n, bs in binds.items():         # a part and the whole
        s = df.sigof.get(n)
        if s is not None and len(bs) > 1 and not s.depth and any(whole(df, b, s) for b in bs):
            mixed.add(n)
    grew = not sc['design'].get('uniform')
    while grew:
        more = {n for n, x in reads.items() if n not in mixed and x & mixed}
        mixed |= more
        grew = bool(more)
    if not apart:
        cut = mixed = folded = set()
    walker = VerilogDataflowWalker(top, terms, binds, rt, rb, cl)
    graph = VerilogGraphGenerator(top, terms, binds, rt, rb, cl, 'unused.png')
    sub = VerilogSubset(top, terms, binds, rt, rb, cl)
    sub.set_clock_info(clock, 'posedge')
    cands = [n for n in df.sigof if binds.get(n)]
    cands.sort(key=str)
    rng.shuffle(cands)
    interesting = False
    clocks = p01.clock_signals(world)
    c = index[[n for n in index if str(n) == '%s.%s' % (top, clock)][0]]
    twice = all(len(p.edges) == 1 and p.edges[0][2] == 'posedge' and world.d.sigs[p.edges[0][0]].width == 1 for p in world.m.procs if p.edges) and \
        all(x[i] == x[c] for x in base for i in clocks)
    ck = {i for n, i in index.items() if str(n) == '%s.%s' % (top, clock)}
    for n_, T in enumerate(cands[:3]):
        t = df.sigof[T]
        out.probe('memory-target' if t.depth else 'clocked-target' if binds[T][0].isClockEdge() else 'level-target')
        sb, ss = sub.getBindSourceSubset([str(T)])
        names = set(sb) | set(ss)
        # the subset is closed
        st, sp, sa, sc_, sl = sub.getSubset([str(T)])
        have = set(st) | set(sp)
        for L, kind in ((sa, 'assign'), (sc_, 'always'), (sl, 'always')):
            for n, bs in L.items():
                for b in bs:
                    for x in sorted(bindrefs(b), key=str):
                        if x in have or index.get(x) in ck and index.get(x) is not None:
                            continue
                        if terms[x].termtype & {'Parameter', 'Localparam', 'Genvar'} and not binds.get(x):
                            continue
                        out.fail('subset-open', 'the subset for %s has a definition of %s that refers to %s, which it does not '
                                 'contain\n%s' % (T, n, x, b.tostr()[:600]))
                        return out
        for n in names:
            for b in binds.get(n, ()):
                k = sp if terms[n].termtype & {'Parameter', 'Localparam'} else sa if n in sa else sc_ if n in sc_ else sl
                if n not in k or k is not sp and b not in k[n]:
                    out.fail('subset-definition-missing', 'the subset for %s lacks the definition %s' % (T, b.tostr()[:600]))
                    return out
        out.probe('closed')
        inside = {index[x] for x in names if x in index} | {t.index} | ck
        r = disturb(world, df, clock, t, inside, base, rng, out, n_)
        if r is False:
            return out
        interesting = interesting or r and any(x[t.index] != base[0][t.index] for x in base)
        # the power of the method: a disturbance inside often shows
        near = {index[x] for x in bindrefs(binds[T][0]) if x in index} - ck - {t.index}
        if near and n_ == 0:
            o2 = core.Outcome()
            if disturb(world, df, clock, t, set(range(len(world.d.sigs))) - near, base, rng, o2, n_) is False:
                out.probe('inside-effective')
        # what the walked tree and the graph leave out does not matter at once
        if t.depth:
            continue
        edge = binds[T][0].isClockEdge()
        if T in folded or T in mixed and not sc['design'].get('uniform'):
            # known findings of P02: constants are folded without their widths, the part is taken when merged
            out.probe('set-aside')
            continue
        direct = None
        for label, leaves, more in walks(graph, walker, terms, binds, T, out, T in cut, rng, twice, fl if apart else None, t.width):
            out.probe(label)
            opaque = [x for x in leaves if more and x in index and not p02.cost(x, binds, {}) > 3000 and
                     str(walker.getTree(x)) == str(DFTerminal(x))]         # not expanded
            need = closure(set(leaves).union(edgesigs, *(reads[x] for x in opaque)), T, binds, index, edge) | ck
            direct = need if direct is None else direct
            if not onestep(world, sim, df, binds, T, t, leaves, need | direct if more else need, index, clocks, base, rng, out, label, more, edge, ck):
                return out
    p01.account(world, sim, out)
    if interesting:
        out.nontrivial = (world.text, sc['seed'])
    out.log(sim.order, str(sim.S), [str(x) for x in cands[:3]])
    for f in sc['design'].get('feats', ()):
        out.probe('feature:' + f)
    out.sample = world.text[:600]
    return out


def walks(graph, walker, terms, binds, T, out, cut, rng, twice, fl, width):
    """What feeds T at once, and at two events, by the walked trees and by the graph: [label, names, events]."""
    from pyverilog.dataflow.dataflow import DFTerminal
    if p02.cost(T, binds, {}) > 3000:
        out.probe('too-big')
        return []
    R = []
    for step in (0, 1) if twice else (0,):
        t = p02.attempt(out, 'walk', T, lambda: walker.walkBind(str(T), step=step))
        if t is TooBig:
            break
        if isinstance(t, DFTerminal) and t.name == T:       # not expanded: a bit at a variable position
            out.probe('opaque')
            break
        R.append((('walked', 'walked-twice')[step], p02.terminals(t), step))
        try:                                    # known finding of P02: constants are folded without their widths
            fl.check(t, width) if fl is not None else None
        except (fold.Differs, NoValue, vfront.VError):
            out.probe('set-aside')
            continue
        if cut:             # known finding of P02: walked and optimized without the widths of the signals between
            continue
        how = {'identical': rng.random() < 0.5, 'do_reorder': rng.random() < 0.3}

        def draw():
            old = set(graph.graph.nodes())
            graph.generate(str(T), walk=True, step=step, **how)
            roots = [x for x in graph.graph.nodes() if x not in old and plain(x) == str(T)]
            return roots
        roots = p02.attempt(out, 'graph', T, draw)
        if roots is TooBig:
            break
        reach = set(roots)
        todo = list(roots)
        while todo:
            for y in graph.graph.successors(todo.pop()):
                if y not in reach:
                    reach.add(y)
                    todo.append(y)
        byname = {}
        for n in terms:
            byname.setdefault(DFTerminal(n).tolabel(), []).append(n)
        R.append((('graph', 'graph-twice')[step], {n for x in reach - set(roots) for n in byname.get(plain(x), ())}, step))
        if how['do_reorder']:
            out.probe('reordered')
    return R


def plain(x):
    return re.sub(r'_graphrename_[0-9]+$', '', str(x))


def closure(names, T, binds, index, edge):
    """The signals from which the named ones are computed within one event."""
    need, todo, seen = set(), list(names), set(names)
    while todo:
        x = todo.pop()
        if x in index:
            need.add(index[x])
            if x != T or edge:
                bs = binds.get(x, ())
                if bs and bs[0].isClockEdge():
                    continue
        for b in binds.get(x, ()):
            for y in bindrefs(b):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
    return need


def onestep(world, sim, df, binds, T, t, leaves, need, index, clocks, base, rng, out, label, more, edge, ck):
    """Flip state outside of the leaves between two events; the next value of the target, or next two, stay."""
    state = {index[x] for x in index if not binds.get(x) or binds[x][0].isClockEdge()}
    free = sorted(state - need - clocks - {t.index})
    if not free or len(base) < 2:
        return True
    c = min(ck)
    ks = rng.sample(range(1, len(base)), min(len(base) - 1, 8))
    keep = sim.snapshot()
    try:
        for k in ks:
            sim.restore(base[k - 1])
            done = []
            for i in rng.sample(free, min(len(free), rng.choice([1, 2, 4]))):
                s = world.d.sigs[i]
                if s.depth:
                    v = list(sim.S[i])
                    v[rng.randrange(s.depth)] ^= 1 << rng.randrange(s.width)
                else:
                    v = sim.S[i] ^ (1 << rng.randrange(s.width))
                poke(sim, i, v)
                out.fault(FLIPS)
                done.append('%s = %s' % (s.name, show(v)))
            out.probe('two-steps' if more else 'one-step')
            left = more + edge
            j = k - 1
            while True:
                if sim.S[t.index] != base[j][t.index]:
                    out.fail(label + '-omits', 'op %d %s: with %s before op %d the value of %s is %s, undisturbed %s, but the %s '
                             'of it has only %s' % (j, _hw.describe(world, world.ops[j]), ', '.join(done), k, t.name,
                                                    show(sim.S[t.index]), show(base[j][t.index]), label,
                                                    ', '.join(sorted(map(str, leaves)))[:900]))
                    return False
                j += 1
                if not left or j >= len(base):
                    break
                if not more or base[j][c] and not base[j - 1][c]:
                    left -= 1
                try:
                    sim.drive(world.ops[j])
                except vfront.VError as e:
                    raise _hw.Unusable(str(e))
    finally:
        sim.restore(keep)
    return True
