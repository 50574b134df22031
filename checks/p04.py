"""P04: the text generated from a syntax tree behaves exactly as the original."""
import hashlib
import os
import subprocess

from simkit import core
from checks import _hw
from hw import gen, tbgen, vfront, vsim

PROPERTY = 'P04'
LEVEL = 'exploration'
RULE = ('A case is one generated design whose regenerated text is executed beside the original under one seeded history '
        'and one seeded order of process activation and nonblocking updates. Non-trivial: a register changed; identity is '
        '(design text, history seed).')
STATE_MEASURE = 'distinct process activation orders (hash of the scheduling decisions)'
COMPONENTS = dict(_hw.COMPONENTS, real=['pyverilog.vparser (preprocessor, lexer, parser, AST)',
                                        'pyverilog.ast_code_generator', 'Jinja2', 'PLY', 'iverilog -E',
                                        'iverilog and vvp (behavioural models)'])
ASSUMPTIONS = ['two-state values: X and Z are outside', 'designs are race free']
REQUIRED_PROBES = ('events', 'changes', 'tb')
shrink = _hw.shrink


def prepare(tier):
    _hw.prepare(tier)


def budget(tier):
    return (7000, 170) if tier == 'quick' else (40000, 800)


PINNED = []


def make(r, i, tier):
    if i < len(PINNED):
        return PINNED[i]
    if i % 4 == 3 or os.environ.get("TBONLY"):
        return {'tb': 1, 'design': tbgen.design(r), 'seed': 0, 'nops': 1, 'skip': []}
    return _hw.scenario(r, i, allowed=gen.ALL + ['anycond'])


def parse(text, wd, name):
    from pyverilog.vparser.parser import parse as vparse
    p = os.path.join(wd, name)
    with open(p, 'w') as f:
        f.write(text)
    return vparse([p])


def regenerate(text):
    """The text generated from the syntax tree."""
    from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
    with core.Scratch('p04') as wd:
        old = os.getcwd()
        os.chdir(wd)
        try:
            ast, _ = parse(text, wd, 'a.v')
            g = ASTCodeGenerator()
            t2 = g.visit(ast)
            return t2
        finally:
            os.chdir(old)


def vvp(text):
    """The transcript of a model that drives itself, and the processor time it took; or an error."""
    with core.Scratch('vvp') as wd:
        v, o = os.path.join(wd, 'x.v'), os.path.join(wd, 'x.vvp')
        with open(v, 'w') as f:
            f.write(text)
        p = subprocess.run(['iverilog', '-g2009', '-o', o, v], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=wd)
        if p.returncode:
            return None, p.stdout.decode(errors='replace').replace(wd, '')[:1000]
        with open(os.path.join(wd, 'out'), 'w+b') as f:     # a model that does not end is stopped after processor seconds
            p = subprocess.run(['vvp', '-n', o], stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, cwd=wd, preexec_fn=limit)
            f.seek(0)
            t = f.read(4000000).decode(errors='replace')
        if p.returncode:
            return None, 'it ends with %d\n%s' % (p.returncode, t[-1000:])
        return [x for x in t.split('\n') if '$finish called' not in x], None


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (8, 8))
    resource.setrlimit(resource.RLIMIT_FSIZE, (8000000, 8000000))


def run_tb(sc):
    """Models with delays, events and waits: both texts are run by Icarus vvp, whose transcripts are compared."""
    out = core.Outcome()
    text = gen.text(sc['design'])
    a, err = vvp(text)
    if a is None:
        raise _hw.Unusable(err)
    t2 = regenerate(text)
    b, err = vvp(t2)
    if b is None:
        out.fail('tb-no-design', 'the generated text cannot be run: %s\n%s' % (err, t2[:6000]))
        return out
    if sorted(a) != sorted(b):          # lines carry their process and time
        out.fail('tb-transcript', 'the generated text does something else:\n%s\n%s' % (diff('\n'.join(a), '\n'.join(b)), diff(text, t2)))
        return out
    times = {x.split()[1] for x in a if x.count(' ') and x.split()[1:2]}
    out.probe('tb')
    out.probe('tb-lines', len(a))
    out.steps += 2 * len(a)
    out.simtime += 300
    out.states.append(hashlib.sha256('\n'.join(a).encode()).hexdigest()[:16])
    if len(a) > 3 and len(times) > 1:
        out.nontrivial = (text, 0)
    out.log(t2, '\n'.join(a))
    out.sample = t2[:600]
    return out


@_hw.bounded
def run(sc):
    if 'tb' in sc:
        return run_tb(sc)
    out = core.Outcome()
    world = _hw.World(sc)
    t2 = regenerate(world.text)
    try:
        d2 = vfront.elaborate(t2, sc['design']['top'])
    except vfront.VError as e:
        out.fail('not-a-design', 'the generated text is no legal design: %s\n%s' % (e, diff(world.text, t2)))
        return out
    a = [(s.name, s.width, s.msb, s.lsb, s.signed, s.depth) for s in world.d.sigs]
    b = [(s.name, s.width, s.msb, s.lsb, s.signed, s.depth) for s in d2.sigs]
    if sorted(a) != sorted(b):
        out.fail('signals', 'the generated text has other signals: %s' % sorted(set(a) ^ set(b))[:6])
        return out
    m2 = vsim.Model(d2)
    to = [d2.byname[s.name].index for s in world.d.sigs]
    sim = world.sim()
    import random
    init = {to[k]: v for k, v in world.init.items()}
    sim2 = vsim.Sim(m2, random.Random(sc['seed'] + 1), lambda s: init.get(s.index))
    changed = False
    for k, op, before, after in world.steps(sim):
        try:
            sim2.drive({to[i]: v for i, v in op.items()})
        except vfront.VError as e:
            out.fail('no-progress', 'op %d %s: the generated design does not settle: %s' % (k, _hw.describe(world, op), e))
            return out
        S2 = sim2.snapshot()
        out.probe('events')
        for s in world.d.sigs:
            if after[s.index] != S2[to[s.index]]:
                out.fail('trace', 'op %d %s: %s is %s in the original and %s in the generated design\n%s' % (
                    k, _hw.describe(world, op), s.name, after[s.index], S2[to[s.index]], t2))
                return out
            if after[s.index] != before[s.index]:
                changed = True
        if changed:
            out.probe('changes')
    out.steps += sim.steps + sim2.steps
    out.simtime += len(world.ops)
    out.states.append(sim.order)
    if changed:
        out.nontrivial = (world.text, sc['seed'])
    out.log(sim.order, t2, str(sim.S))
    for f in sc['design'].get('feats', ()):
        out.probe('feature:' + f)
    out.sample = t2[:600]
    return out


def diff(a, b):
    import difflib
    return '\n'.join(list(difflib.unified_diff(a.split('\n'), b.split('\n'), lineterm='', n=1))[:60])
