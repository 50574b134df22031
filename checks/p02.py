"""P02: resolved, optimized, merged and walked dataflow keep the executed value."""
import copy

from simkit import core
from checks import _hw, p01
from hw import dfeval, fold, gen, optgen, vfront
from hw.dfeval import NoValue, TooBig

PROPERTY = 'P02'
LEVEL = 'exploration'
RULE = ('A case is one generated design with one seeded history. Its definitions are resolved, optimized, merged and '
        'walked by PyVerilog; every form is evaluated at every event and compared with the executed value. Non-trivial: a '
        'transformed definition differs from the recorded one, and a register changed at a clock edge.')
STATE_MEASURE = 'distinct process activation orders (hash of the scheduling decisions)'
COMPONENTS = _hw.COMPONENTS
ASSUMPTIONS = ['two-state values: X and Z are outside', 'inputs, clocks and resets never change at the same instant',
               'designs are race free',
               'constants whose intermediate results do not fit the width Verilog gives them are set aside (finding)',
               'merged parts and walked trees: every vector of the design has the same width, as neither cuts values']
REQUIRED_PROBES = ('resolved', 'optimized', 'merged', 'walked', 'walked-optimized', 'constant', 'opt', 'uniform', 'general',
                   'clocked', 'level', 'hold')
prepare = _hw.prepare
shrink = _hw.shrink


def budget(tier):
    return (7500, 170) if tier == 'quick' else (60000, 780)


PINNED = [
    _hw.pinned('fold-ignores-width', '''
module TOP(input CLK, input RST, input [7:0] a, output [7:0] y);
  localparam [7:0] P = (8'd200 + 8'd100) >> 1;
  assign y = a + P;
endmodule
'''),
    _hw.pinned('ones-of-unknown-width', '''
module TOP(input CLK, input RST, input [3:0] a, input [7:0] b, output [7:0] y);
  assign y = (a | ~a) ^ b;
endmodule
'''),
    _hw.pinned('part-of-another-width', '''
module TOP(input CLK, input RST, input [3:0] a, input [3:0] b, output reg [7:0] y);
  always @(posedge CLK) begin y[7:4] <= a; y[3:0] <= b + 78; end
endmodule
''', uniform=True),
    _hw.pinned('whole-after-part', '''
module TOP(input CLK, input RST, input a, input [7:0] x, output reg [7:0] y);
  always @(posedge CLK) begin y <= x; y[3:1] <= x[7:5]; if(a) y <= 8'd128; end
endmodule
''', uniform=True),
    _hw.pinned('walked-through-width', '''
module TOP(input CLK, input RST, input [7:0] a, output [7:0] y);
  wire [3:0] w;
  assign w = a;
  assign y = w + 8'd1;
endmodule
''', uniform=True),
    _hw.pinned('walked-supply', '''
module TOP(input CLK, input RST, input a, output [1:0] y);
  supply1 v;
  assign y = {a, v};
endmodule
''', uniform=True),
]


def make(r, i, tier):
    if i < len(PINNED):
        return PINNED[i]
    k = i % 8
    if k < 5:
        return {'design': optgen.design(r), 'seed': r.getrandbits(48), 'nops': r.randint(12, 50), 'skip': []}
    allowed = [f for f in gen.ALL if f != 'casewild' and (k == 7 or f != 'supply')]
    return _hw.scenario(r, i, gen.features(r, allowed), r.choice([4, 8, 8, 16, 32]) if k < 7 else None)


def values(df, names, world, trees, edges_of):
    """Whole-signal definitions from trees {name: tree}."""
    defs = {}
    for n, t in trees.items():
        s = df.sigof[n]
        x = p01.Def()
        x.sig, x.lo, x.w, x.ptr, x.dyn, x.err = s, 0, s.width, None, None, None
        x.bind = Shown(t)
        x.f = df.compile(t, s.width)
        x.edges = edges_of[n]
        defs[s.index] = [x]
    return defs


class Shown(object):
    def __init__(self, t):
        self.t = t

    def tostr(self):
        return self.t.tostr() if self.t is not None else 'None'


def attempt(out, what, n, f):
    """A transformation; None when it grows too large."""
    _hw.new_budget()
    try:
        return f()
    except TooBig:
        out.probe('too-big')
        return TooBig
    except RecursionError:
        out.probe('too-deep')
        return TooBig


def folded(df, binds, terms, fl, wrong):
    """Definitions whose constants fold to other values, and what is computed from them."""
    aside = set()
    for n, s in df.sigof.items():
        try:
            for b in binds.get(n, ()):
                if any(x in wrong for x in terminals(b.tree)):
                    raise fold.Differs('parameter')
                w = s.width if b.msb is None else df.brange(b, s)[1] if df.isconst(df.conv(b.msb)) else 1
                fl.check(b.tree, w)
        except (fold.Differs, NoValue, vfront.VError):
            aside.add(n)
    reads = {}
    for n, bs in binds.items():
        r = set()
        for b in bs:
            for t in (b.tree, b.ptr, b.msb, b.lsb):
                r |= terminals(t)
        reads[n] = r
    for n in list(binds):
        if n not in df.sigof and any(x in wrong for x in reads[n]):
            aside.add(n)
    for n in list(binds):                      # renamed intermediates: their own constants
        if n not in df.sigof and not terms[n].termtype & {'Parameter', 'Localparam'}:
            try:
                for b in binds[n]:
                    fl.check(b.tree, df.twidth(terms[n]))
            except (fold.Differs, NoValue, vfront.VError):
                aside.add(n)
    grew = True
    tainted = set(aside)
    while grew:
        grew = False
        for n, r in reads.items():
            if n not in tainted and r & tainted:
                tainted.add(n)
                grew = True
    return reads, aside, tainted


def wrong_constants(df, binds, terms, fl):
    """Parameters whose constants fold to other values."""
    wrong = set()
    for n, t in terms.items():
        c = df.d.consts.get(df.names[n])
        if not t.termtype & {'Parameter', 'Localparam'} or c is None:
            continue
        try:
            for b in binds.get(n, ()):
                fl.check(b.tree, c[2])
        except (fold.Differs, NoValue, vfront.VError):
            wrong.add(n)
            continue
        if any(x in wrong for b in binds.get(n, ()) for x in terminals(b.tree)):
            wrong.add(n)
    return wrong


@_hw.bounded
def run(sc):
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
    from pyverilog.dataflow.walker import VerilogDataflowWalker
    out = core.Outcome()
    world = _hw.World(sc)
    sim = world.sim()
    a = _hw.analyze(world.text, sc['design']['top'])
    terms, binds = a.getTerms(), a.getBinddict()
    df = dfeval.DF(terms, binds, world.d)
    try:
        defs = p01.definitions(df, world)
    except (NoValue, core.Violation, vfront.VError):
        out.probe('not-evaluable')              # P01's business
        return out
    o = VerilogDataflowOptimizer(terms, binds)
    o.resolveConstant()
    rt, rb, cl = o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist()
    uniform = sc['design'].get('uniform') or sc.get('uniform')
    out.probe('opt' if 'opt' in sc['design']['feats'] else 'uniform' if uniform else 'general')

    # constants
    apart = 'pinned' not in sc           # the findings are kept apart, except where they are shown
    fl = fold.Fold(df, {n: v.value for n, v in cl.items() if not (v.isfloat or v.isstring)})
    wrong = set()
    for n, t in terms.items():
        if not t.termtype & {'Parameter', 'Localparam'}:
            continue
        c = world.d.consts.get(df.names[n])
        if c is None:
            continue
        try:
            for b in binds.get(n, ()):
                fl.check(b.tree, c[2]) if apart else None
        except (fold.Differs, NoValue, vfront.VError):
            wrong.add(n)
            continue
        if any(x in wrong for b in binds.get(n, ()) for x in terminals(b.tree)):
            wrong.add(n)
            continue
        if n not in cl:
            out.fail('constant-unresolved', '%s is not resolved: %s' % (n, [b.tostr() for b in binds.get(n, ())]))
            return out
        out.probe('constant')
        if (cl[n].value - c[1]) & ((1 << c[2]) - 1):
            out.fail('wrong-constant', '%s is resolved to %s, the hardware has %x (%d bits)' % (n, cl[n].tostr(), c[1], c[2]))
            return out

    reads, aside, tainted = folded(df, binds, terms, fl, wrong)
    for n in aside:
        out.probe('set-aside')
    if not apart:
        tainted = set()

    # the forms
    forms = []
    skip = {df.sigof[n].index for n in tainted if n in df.sigof}
    d1 = dfeval.DF(rt, rb, world.d)
    forms.append(['resolved', d1, p01.definitions(d1, world), skip])
    ob, changed = {}, False
    big = set(skip)
    for n, bs in rb.items():
        L = []
        for b in bs:
            t = attempt(out, 'optimize', n, lambda: o.optimize(b.tree))
            if t is TooBig:
                big.add(df.sigof[n].index) if n in df.sigof else None
                t = b.tree
            x = copy.copy(b)
            x.tree = t
            changed = changed or t.tostr() != b.tree.tostr() if t is not None else changed
            L.append(x)
        ob[n] = L
    d2 = dfeval.DF(rt, ob, world.d)
    forms.append(['optimized', d2, p01.definitions(d2, world), big])
    top = sc['design']['top']
    w = VerilogDataflowWalker(top, terms, binds, rt, rb, cl)
    edges_of, trees, walks, opts, costs = {}, {}, {}, {}, {}
    cut = cutting(df, binds, terms) if apart else set()
    grew = True
    while grew:
        more = {n for n, r in reads.items() if n not in cut and r & cut}
        cut |= more
        grew = bool(more)
    for n, s in sorted(df.sigof.items(), key=lambda x: str(x[0])):
        ds = defs.get(s.index, ())
        if s.index in skip or not ds or s in world.d.inputs:
            continue
        if s.depth or len(set(map(repr, (x.edges for x in ds)))) != 1:
            continue
        if any(x.dyn is not None for x in ds):
            continue
        if len(ds) > 1 and not uniform:
            continue
        edges_of[n] = ds[0].edges
        t = attempt(out, 'merge', n, lambda: w.getTree(n))
        if t is TooBig:
            continue
        if len(ds) > 1:
            out.probe('merged')
        from pyverilog.dataflow.replace import replaceUndefined
        if n not in cut or len(ds) == 1 and ds[0].w == s.width:
            trees[n] = replaceUndefined(t, n)
        if not uniform or n in cut:
            continue
        if cost(n, binds, costs) > 6000:
            out.probe('too-big')
            continue
        t = attempt(out, 'walk', n, lambda: w.walkBind(str(n), step=0))
        if t is TooBig:
            continue
        walks[n] = t
        try:                                    # constants meet that were apart before
            fl.check(t, s.width) if apart else None
        except (fold.Differs, NoValue, vfront.VError):
            out.probe('set-aside-walked')
            continue
        t = attempt(out, 'optimize', n, lambda: w.optimizer.optimize(t))
        if t is not TooBig:
            opts[n] = t
    for label, ts in (('merged', trees), ('walked', walks), ('walked-optimized', opts)):
        if ts:
            d3 = dfeval.DF(terms, binds, world.d)
            ds, bad = {}, set(range(len(world.d.sigs)))
            for n, t in ts.items():
                try:
                    ds.update(values(d3, None, world, {n: t}, edges_of))
                    bad.discard(df.sigof[n].index)
                except (TooBig, OverflowError, MemoryError):
                    out.probe('too-big')
            forms.append([label, d3, ds, bad])
    any_ = [False, False]
    clocks = p01.clock_signals(world)
    for f in forms:
        out.probe(f[0])
    for k, op, before, after in world.steps(sim):
        for label, dd, ds, sk in forms:
            if not p01.check_step(world, dd, ds, clocks, k, op, before, after, out, any_, sk):
                v = out.violations[-1]
                v['kind'] = label + '-' + v['kind']
                v['key'] = v['kind']
                v['detail'] = '%s form: %s' % (label, v['detail'])
                return out
    p01.account(world, sim, out)
    if changed and any_[0] and any_[1]:
        out.nontrivial = (world.text, sc['seed'])
    out.log(sim.order, str(sim.S), sorted(x for f in forms for x in [f[0], len(f[2])] if isinstance(x, str)))
    for f in sc['design'].get('feats', ()):
        out.probe('feature:' + f)
    out.sample = world.text[:600]
    return out


def cost(n, binds, memo):
    """Estimated number of nodes of a walked definition."""
    if n not in memo:
        memo[n] = 1
        c = 1
        for b in binds.get(n, ()):
            L = []
            names(b.tree, L)
            for x in L:
                t = binds.get(x, ())
                c += 1 if x == n or t and t[0].isClockEdge() else cost(x, binds, memo)
        memo[n] = c
    return memo[n]


def names(t, L):
    """The terminals of a tree, with repetition."""
    k = t.__class__.__name__
    if k == 'DFTerminal':
        L.append(t.name)
    elif k == 'DFBranch':
        for x in (t.condnode, t.truenode, t.falsenode):
            names(x, L)
    elif k in ('DFOperator', 'DFConcat'):
        for x in t.nextnodes:
            names(x, L)
    elif k == 'DFPartselect':
        names(t.var, L)
    elif k == 'DFPointer':
        names(t.var, L)
        names(t.ptr, L)


def cutting(df, binds, terms):
    """Signals given a value of another width."""
    out = set()
    for n, bs in binds.items():
        if terms[n].termtype & {'Parameter', 'Localparam'}:
            continue
        for b in bs:
            try:
                if df.sigof.get(n) is not None:
                    s = df.sigof[n]
                    w = 1 if b.msb is None and b.ptr is not None and not s.depth else s.width if b.msb is None else \
                        df.brange(b, s)[1] if df.isconst(df.conv(b.msb)) else 1
                else:
                    w = df.twidth(terms[n])
                if any(vfront.size(df.conv(x)) != w for x in leaves(b.tree)):
                    out.add(n)
            except (NoValue, vfront.VError):
                out.add(n)
    return out


def leaves(t):
    if t is None or t.__class__.__name__ == 'DFUndefined':
        return []
    if t.__class__.__name__ == 'DFBranch':
        return leaves(t.truenode) + leaves(t.falsenode)
    return [t]


def terminals(t, acc=None):
    top = acc is None
    if top:
        acc = set()
    if t is None:
        return acc
    k = t.__class__.__name__
    if k == 'DFTerminal':
        acc.add(t.name)
    elif k == 'DFBranch':
        for x in (t.condnode, t.truenode, t.falsenode):
            terminals(x, acc)
    elif k in ('DFOperator', 'DFConcat'):
        for x in t.nextnodes:
            terminals(x, acc)
    elif k == 'DFPartselect':
        for x in (t.var, t.msb, t.lsb):
            terminals(x, acc)
    elif k == 'DFPointer':
        for x in (t.var, t.ptr):
            terminals(x, acc)
    return acc
