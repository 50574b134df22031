"""P01: extracted dataflow agrees with every execution of the hardware."""
from simkit import core
from checks import _hw
from hw import dfeval, vfront
from hw.dfeval import NoValue

PROPERTY = 'P01'
LEVEL = 'exploration'
RULE = ('A case is one generated design with one seeded history of clock edges, resets and input changes under one '
        'seeded order of process activation and nonblocking updates. Non-trivial: at least one clocked definition was '
        'triggered and one register changed; identity is (design text, history seed).')
STATE_MEASURE = 'distinct process activation orders (hash of the scheduling decisions)'
COMPONENTS = _hw.COMPONENTS
ASSUMPTIONS = ['two-state values: X and Z are outside', 'inputs, clocks and resets never change at the same instant',
               'designs are race free']
REQUIRED_PROBES = ('clocked', 'level', 'hold', 'async-reset', 'memory')
prepare = _hw.prepare
shrink = _hw.shrink


def budget(tier):
    return (8000, 200) if tier == 'quick' else (40000, 800)


PINNED = [
    _hw.pinned('ternary-in-condition', '''
module TOP(input CLK, input RST, input a, input b, input c, input d, input [3:0] x, output reg [3:0] y);
  always @(posedge CLK) begin
    if(a ? b : c) y <= x;
    else if(d) y <= x + 4'd2; else if(x[1]) y <= x + 4'd3;
  end
endmodule
'''),
    _hw.pinned('case-label-width', '''
module TOP(input CLK, input RST, input a, input b, output reg [3:0] y);
  always @* begin
    case(a + b)
      1'd0: y = 4'd1;
      8'd18: y = 4'd2;
      default: y = 4'd3;
    endcase
  end
endmodule
'''),
    _hw.pinned('concat-left-offset-range', '''
module TOP(input CLK, input RST, input [19:4] r1, output [7:0] p, output [7:0] q);
  assign {p, q} = r1;
endmodule
'''),
    _hw.pinned('part-after-whole', '''
module TOP(input CLK, input RST, input a, input [7:0] x, input [7:0] y, output reg [7:0] d);
  reg [7:0] t;
  always @* begin t = x; if(a) t[7:4] = y[3:0]; d = t + 8'd1; end
endmodule
'''),
    _hw.pinned('gate-offset-range', '''
module TOP(input CLK, input RST, input [1:1] a, input b, output y);
  and g1(y, a, b);
endmodule
'''),
]


def make(r, i, tier):
    if i < len(PINNED):
        return PINNED[i]
    return _hw.scenario(r, i)


class Def(object):
    __slots__ = ('dyn', 'sig', 'lo', 'w', 'ptr', 'f', 'edges', 'bind', 'err')


def definitions(df, world):
    """Every recorded definition of every hardware signal."""
    defs = {}
    for n, binds in df.binddict.items():
        s = df.sigof.get(n)
        if s is None:
            continue
        for b in binds:
            x = Def()
            x.sig, x.bind, x.err, x.ptr = s, b, None, None
            x.edges = None
            x.lo, x.w, x.dyn = 0, s.width, None
            if b.ptr is not None:
                if not s.depth:
                    raise core.Violation('bind-pointer', '%s is no array but its definition has an element' % s.name)
                x.ptr = df.compile(b.ptr, 64)
            if b.msb is not None:
                e = df.conv(b.msb)
                if df.isconst(e):
                    x.lo, x.w = df.brange(b, s)
                elif b.msb == b.lsb and not x.ptr:
                    x.w = 1         # one bit at a variable position
                    x.dyn = df.compile(b.msb, 32)
                else:
                    raise core.Violation('bind-range', 'definition of %s has a variable range %s' % (s.name, b.msb))
            x.f = df.compile(b.tree, x.w)
            if b.isClockEdge():
                x.edges = []
                for nm, ed, bit in ((b.getClockName(), b.getClockEdge(), b.getClockBit()),
                                    (b.getResetName(), b.getResetEdge(), b.getResetBit())):
                    if nm is None or ed is None:
                        continue
                    t = df.sigof.get(nm)
                    if t is None:
                        raise core.Violation('clock-name', 'the clock %s of %s is no signal' % (nm, s.name))
                    x.edges.append((t.index, ed, bit))
            defs.setdefault(s.index, []).append(x)
    return defs


def check_terms(df, world):
    """Every signal of the hardware has a term of its width."""
    have = set()
    for n, s in df.sigof.items():
        t = df.terms[n]
        have.add(s.index)
        if t.termtype & {'Parameter', 'Localparam', 'Genvar'}:
            continue
        w = df.twidth(t)
        if w != s.width:
            raise core.Violation('term-width', 'term %s has %d bits, the signal has %d' % (n, w, s.width))
        if bool(t.dims) != bool(s.depth):
            raise core.Violation('term-dims', 'term %s: dims %s, the signal has %d elements' % (n, t.dims, s.depth))
        if t.dims:
            a, b = df.cint(t.dims[0][0]), df.cint(t.dims[0][1])
            if abs(a - b) + 1 != s.depth:
                raise core.Violation('term-dims', 'term %s has %d elements, the signal has %d' % (n, abs(a - b) + 1, s.depth))
    for s in world.d.sigs:
        if s.index not in have:
            raise core.Violation('no-term', 'signal %s has no term' % s.name)


def check_events(world, df, defs, sim, out):
    """Run the history; compare every signal after every event."""
    clocks = clock_signals(world)
    any_ = [False, False]
    for k, op, before, after in world.steps(sim):
        if not check_step(world, df, defs, clocks, k, op, before, after, out, any_):
            return
    account(world, sim, out)
    return any_[0] and any_[1]


def clock_signals(world):
    clocks = set()
    for p in world.m.procs:
        clocks.update(e[0] for e in p.edges)
    return clocks


def account(world, sim, out):
    out.steps += sim.steps
    out.simtime += len(world.ops)
    out.states.append(sim.order)


def check_step(world, df, defs, clocks, k, op, before, after, out, any_, skip=()):
    """Compare every signal (not in skip) after one event; false after a violation."""
    d = world.d
    pre = list(before)
    for i in clocks:
        pre[i] = after[i]
    for i in op:
        pre[i] = after[i]
    for s in d.sigs:
        if s.index in skip:
            continue
        ds = defs.get(s.index, ())
        if s in d.inputs:
            if ds:
                out.fail('input-defined', 'the input %s has a definition' % s.name)
                return False
            continue
        a, b = after[s.index], before[s.index]
        if a != b:
            any_[0] = True
        cover = {}       # (element) -> list of (lo, w, value or None)
        for x in ds:
            if x.edges is None:
                env = after
            else:
                fire = False
                for i, ed, bit in x.edges:
                    o, n = (before[i] >> bit) & 1, (after[i] >> bit) & 1
                    if o != n and n == (1 if ed == 'posedge' else 0):
                        fire = True
                if not fire:
                    continue
                env = pre
                any_[1] = True
            try:
                v = x.f(env)
                el = x.ptr(env) if x.ptr is not None else None
                lo = x.lo
                if x.dyn is not None:
                    out.probe('variable-bit')
                    lo = x.dyn(env)
                    lo = lo - s.lsb if s.msb >= s.lsb else s.lsb - lo
                    if not 0 <= lo < s.width:
                        continue
            except NoValue as e:
                if x.edges is None and 'variable' not in str(e):
                    pass
                out.fail('undefined', 'op %d %s: definition of %s cannot be evaluated: %s\ndefinition: %s' % (
                    k, _hw.describe(world, op), s.name, e, x.bind.tostr()[:1500]))
                return False
            except vfront.VError as e:
                out.fail('undefined', 'op %d %s: definition of %s: %s\ndefinition: %s' % (
                    k, _hw.describe(world, op), s.name, e, x.bind.tostr()[:1500]))
                return False
            if s.depth:
                if el is None:
                    out.fail('array-assigned', '%s is an array but is defined as a whole' % s.name)
                    return False
                el -= s.abase
            cover.setdefault(el, []).append((lo, x.w, v, x))
            if v is None:
                out.probe('hold')
            out.probe('level' if x.edges is None else 'clocked')
            if x.edges and len(x.edges) > 1:
                out.probe('async-reset')
            if s.depth:
                out.probe('memory')
        els = range(s.depth) if s.depth else (None,)
        for el in els:
            av = a if el is None else a[el]
            bv = b if el is None else b[el]
            cs = cover.get(el)
            if not cs:
                if av != bv:
                    out.fail('changed-untriggered', 'op %d %s: %s%s went from %x to %x but none of its %d definitions '
                             'is triggered' % (k, _hw.describe(world, op), s.name, '' if el is None else '[%d]' % el,
                                               bv, av, len(ds)))
                    return False
                continue
            seen = 0
            multi = len(cs) > 1
            for lo, w, v, x in cs:
                seen |= ((1 << w) - 1) << lo
                if v is None:
                    if not multi and _hw.bits(av, lo, w) != _hw.bits(bv, lo, w):
                        report(out, world, k, op, s, el, x, 'keeps %x' % _hw.bits(bv, lo, w), _hw.bits(av, lo, w))
                        return False
                    continue
                if v != _hw.bits(av, lo, w):
                    # overlapping definitions: some other one may have written later
                    other = [y for y in cs if y[3] is not x and y[2] is not None and
                             y[0] < lo + w and lo < y[0] + y[1]]
                    if other:
                        out.probe('overlap')
                        continue
                    report(out, world, k, op, s, el, x, '%x' % v, _hw.bits(av, lo, w))
                    return False
            if (av ^ bv) & ~seen:
                out.fail('changed-untriggered', 'op %d %s: bits %x of %s changed but no triggered definition covers '
                         'them' % (k, _hw.describe(world, op), (av ^ bv) & ~seen, s.name))
                return False
            if multi and all(c[2] is None for c in cs) and av != bv:
                report(out, world, k, op, s, el, cs[0][3], 'keeps %x' % bv, av)
                return False
    return True


def report(out, world, k, op, s, el, x, want, got):
    out.fail('wrong-value', 'op %d %s: definition of %s%s gives %s, the hardware has %x\nsignal %s [%d bits], definition '
             '[%d +: %d] %s\n%s' % (k, _hw.describe(world, op), s.name, '' if el is None else '[%d]' % el, want, got, s.name,
                                    s.width, x.lo, x.w, 'clocked' if x.edges else 'level', x.bind.tostr()[:1800]))


@_hw.bounded
def run(sc):
    out = core.Outcome()
    world = _hw.World(sc)
    sim = world.sim()
    a = _hw.analyze(world.text, sc['design']['top'])
    df = dfeval.DF(a.getTerms(), a.getBinddict(), world.d)
    check_terms(df, world)
    try:
        defs = definitions(df, world)
    except NoValue as e:
        out.fail('undefined', str(e))
        return out
    if check_events(world, df, defs, sim, out):
        out.nontrivial = (world.text, sc['seed'])
    out.log(sim.order, [sorted(p.items()) for p in world.ops], str(sim.S))
    for f in sc['design'].get('feats', ()):
        out.probe('feature:' + f)
    out.sample = world.text[:600]
    return out
