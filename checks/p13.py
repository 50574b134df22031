"""P13: code generation under template I/O faults is complete, or an error."""
import copy
import os
import random

from hw import gen
from simkit import core, iosim, lines, observe, texts

PROPERTY = 'P13'
LEVEL = 'exploration'
RULE = ('A case is a history of 1-5 code generations over one or two trees with one or two generator objects; each may '
        'have I/O faults at seeded template operations or an interrupt at a seeded line, and is followed by a healthy '
        'one. Non-trivial: a fault or interrupt took effect; identity is the tuple of faults and outcomes.')
STATE_MEASURE = 'distinct (fault or interrupt place, outcome, generator age) tuples'
COMPONENTS = {'real': ['pyverilog.ast_code_generator.codegen', 'the template files', 'jinja2 loading and compiling',
                       'pyverilog.vparser (to build the trees)'],
              'stub': ['open/read/close/stat errors, short reads and interrupts on the template directory '
                       '(simkit.iosim), interrupts between lines (simkit.lines)']}
ASSUMPTIONS = ['templates themselves are intact on disk: faults hit the operations, not the stored bytes',
               'an interrupt is delivered between source lines of the generator or in a file operation']
REQUIRED_PROBES = ('error-reported', 'recovered', 'short-read', 'interrupted', 'second-tree')
TEMPLATES = os.path.join(core.REPO, 'pyverilog', 'ast_code_generator', 'template')
READ_FAULTS = ['EIO', 'short', 'short', 'sigint', 'ENOMEM']
OPEN_FAULTS = ['EACCES', 'EMFILE', 'EIO', 'ENOENT', 'sigint']


def budget(tier):
    return (2200, 100) if tier == 'quick' else (60000, 780)


def prepare(tier):
    observe.warm()


def text_of(kind, seed):
    r = random.Random(seed)
    if kind == 'gallery':
        return texts.gallery(r)
    if kind == 'texts':
        return texts.design(r)[0]
    return gen.text(gen.design(r))


def make(r, i, tier):
    sc = {'trees': [[r.choice(['gallery', 'gallery', 'texts', 'hw']), r.randrange(1 << 32)]
                    for _ in range(r.choice([1, 1, 2]))],
          'indent': [r.choice([0, 2, 2, 3, 4]) for _ in range(2)], 'gens': r.choice([1, 1, 2]), 'calls': []}
    for k in range(r.randint(1, 4)):
        c = {'gen': r.randrange(sc['gens']), 'tree': r.randrange(len(sc['trees'])), 'plan': [], 'line': None}
        m = r.random()
        if m < 0.7:
            for _ in range(r.choice([1, 1, 2, 3])):
                kind = r.choice(['open', 'read', 'read', 'stat', 'close'])
                nth = r.choice([1, 2, 3, r.randint(1, 20), r.randint(1, 80)])
                do = r.choice(READ_FAULTS if kind == 'read' else OPEN_FAULTS if kind in ('open', 'stat')
                              else ['EIO', 'sigint'])
                c['plan'].append({'at': [kind, nth], 'do': [do, round(r.random(), 3)]})
        elif m < 0.92:
            c['line'] = r.choice([r.randint(1, 60), r.randint(1, 600), r.randint(1, 4000)])
        sc['calls'].append(c)
    return sc


def run(sc):
    from pyverilog.vparser.parser import VerilogParser
    from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
    out = core.Outcome()
    out.nruns = 0
    ident = []
    with core.Scratch('p13') as root:
        src = [text_of(k, s) for k, s in sc['trees']]
        trees = [VerilogParser(outputdir=root, debug=False).parse(t) for t in src]
        dumps = [observe.ast_dump(t) for t in trees]
        want = {}

        def reference(t, ind):
            if (t, ind) not in want:
                tree = VerilogParser(outputdir=root, debug=False).parse(src[t])
                want[t, ind] = ASTCodeGenerator(indentsize=ind).visit(tree)
            return want[t, ind]
        gens = [ASTCodeGenerator(indentsize=sc['indent'][g]) for g in range(sc['gens'])]
        seen = set()
        for n, c in enumerate(sc['calls']):
            t, g = c['tree'], c['gen']
            ref = reference(t, sc['indent'][g])
            age = 'fresh' if g not in seen else 'used'
            seen.add(g)
            w = iosim.World(root, c['plan'], extra_roots=[TEMPLATES], outcome=out)
            w.mine = lambda p, w=w: _mine(w, p)
            err = text = None
            ln = lines.Lines(c['line'], 'pyverilog/ast_code_generator')
            with w:
                try:
                    with ln:
                        text = gens[g].visit(trees[t])
                except (Exception, KeyboardInterrupt) as e:
                    err = e
            if ln.where:
                out.fault('interrupt-at-line')
                out.probe('interrupted')
            fired = [(a, b) for a, b, _ in w.fired]
            hit = bool(fired or ln.where)
            if any(b == 'short' for _, b in fired):
                out.probe('short-read')
            if any(b == 'sigint' for _, b in fired):
                out.probe('interrupted')
            oc = type(err).__name__ if err is not None else 'ok'
            ident.append((g, t, age, fired, ln.where, oc))
            out.states.append((age, tuple(fired), ln.where, oc))
            out.log(n, age, fired, ln.where, oc, w.total)
            out.nruns += 1
            out.steps += w.total
            what = 'call %d (generator %d, %s, tree %d, faults %s, interrupt %s)' % (n, g, age, t, w.fired, ln.where)
            if err is not None and not hit:
                out.fail('no-recovery', '%s fails: %s: %s' % (what, type(err).__name__, err))
            elif err is not None:
                out.probe('error-reported')
            elif text != ref:
                out.fail('wrong-text' if hit else 'no-recovery', '%s: returns other text.\n%s' % (what, diff(ref, text)))
            if out.violations:
                break
            # afterwards: the tree is what it was, and a healthy run of the same objects gives the normal text
            for k, tree in enumerate(trees):
                if observe.ast_dump(tree) != dumps[k]:
                    out.fail('tree-changed', '%s changed tree %d' % (what, k))
            again = [(g, t)] + ([(g, 1 - t)] if len(trees) > 1 and n % 2 else [])
            for gg, tt in again:
                out.nruns += 1
                try:
                    text = gens[gg].visit(trees[tt])
                except Exception as e:
                    out.fail('no-recovery', 'after %s, tree %d: %s: %s' % (what, tt, type(e).__name__, e))
                    break
                if text != reference(tt, sc['indent'][gg]):
                    out.fail('no-recovery', 'after %s, tree %d gives other text.\n%s'
                             % (what, tt, diff(reference(tt, sc['indent'][gg]), text)))
                    break
                if hit:
                    out.probe('recovered')
                if tt != t:
                    out.probe('second-tree')
            if out.violations:
                break
    if any(x[3] or x[4] for x in ident):
        out.nontrivial = ident
    out.sample = {'trees': sc['trees'], 'calls': sc['calls'], 'outcomes': [str(x) for x in ident]}
    return out


def _mine(w, path):
    """Template files only: how often directories or anything else are looked at is the library's business."""
    try:
        p = os.path.realpath(os.fspath(path))
    except (TypeError, ValueError):
        return False
    return isinstance(p, str) and p.startswith(TEMPLATES + os.sep)


def diff(a, b):
    a, b = a.split('\n'), b.split('\n')
    for k in range(max(len(a), len(b))):
        x, y = a[k:k + 1], b[k:k + 1]
        if x != y:
            return 'line %d: healthy %r, got %r' % (k + 1, x[0] if x else '<end>', y[0] if y else '<end>')
    return 'same'


def shrink(sc):
    for k in range(len(sc['calls'])):
        c = copy.deepcopy(sc)
        del c['calls'][k]
        if c['calls']:
            yield c
    for k in range(len(sc['calls'])):
        for j in range(len(sc['calls'][k]['plan'])):
            c = copy.deepcopy(sc)
            del c['calls'][k]['plan'][j]
            yield c
    if len(sc['trees']) > 1:
        for k in (0, 1):
            c = copy.deepcopy(sc)
            c['trees'] = [c['trees'][k]]
            for x in c['calls']:
                x['tree'] = 0
            yield c
