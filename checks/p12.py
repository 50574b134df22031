"""P12: parser-table and debug files never change what a later parse returns."""
import copy
import importlib
import os
import random
import shutil
import sys

from simkit import core, iosim, observe, texts

PROPERTY = 'P12'
LEVEL = 'exploration'
RULE = ('A case is a history of 1-4 parser sessions (simulated process lifetimes) over one output directory whose '
        'table and debug files start in a seeded condition (absent, valid, torn, stale grammar, old version, '
        'garbage, a directory), with faults and crashes while they are written. Non-trivial: a leftover or a fault '
        'was present; identity is the tuple of conditions, faults and outcomes.')
STATE_MEASURE = 'distinct (where, condition, restart, faults fired, outcome) tuples'
COMPONENTS = {'real': ['pyverilog.vparser.parser', 'pyverilog.vparser.lexer', 'PLY table generation, writing and loading',
                       'Python import of the table module from disk'],
              'stub': ['open/write/close errors, torn writes and process death (simkit.iosim)',
                       'process restart: module cache emptied, import caches invalidated']}
ASSUMPTIONS = ['table files are damaged by truncation, replacement or staleness, not by bit flips under a valid signature',
               'a damaged table file where Python imports it may make construction fail, but only with a reported error']
REQUIRED_PROBES = ('cached-table-used', 'stale-table-present', 'torn-table-present', 'crash-while-writing', 'fault-session')

CONDS = ['none', 'valid', 'torn', 'tornline', 'empty', 'stale', 'version', 'garbage', 'isdir']
PRE = {}


def budget(tier):
    return (420, 170) if tier == 'quick' else (12000, 780)


def prepare(tier):
    from pyverilog.vparser.parser import VerilogParser
    from ply.yacc import yacc
    d = os.path.join(core.scratch_root(), 'p12')
    os.makedirs(d, exist_ok=True)
    observe.build_tables(os.path.join(d, 'valid'))
    with iosim.REAL_OPEN(os.path.join(d, 'valid', 'parsetab.py')) as f:
        PRE['valid'] = f.read()

    class Parsetab(VerilogParser):
        def __init__(self, outputdir):
            VerilogParser.__init__(self, outputdir=outputdir)

    prec = [list(p) for p in VerilogParser.precedence]
    for i, p in enumerate(prec):                    # yesterday's grammar: + and * exchanged
        if 'PLUS' in p:
            a = i
        if 'TIMES' in p:
            b = i
    prec[a], prec[b] = prec[b], prec[a]
    Parsetab.precedence = tuple(tuple(p) for p in prec)
    os.makedirs(os.path.join(d, 'stale'), exist_ok=True)
    with core.quiet():
        Parsetab(os.path.join(d, 'stale'))
    with iosim.REAL_OPEN(os.path.join(d, 'stale', 'parsetab.py')) as f:
        PRE['stale'] = f.read()
    if PRE['stale'] == PRE['valid']:
        raise core.HarnessError('stale table is not stale')
    sys.modules.pop(observe.TABMODULE, None)


def text_of(seed):
    r = random.Random(seed)
    t, top = texts.design(r)
    extra = 'module PREC(input [7:0] a, b, c, output [7:0] y);\n  assign y = a + b * c - a * c + b;\nendmodule\n'
    return t + extra


def make(r, i, tier):
    sc = {'where': r.choice(['package', 'package', 'cwd', 'other']),
          'cond': {n: r.choice(CONDS) for n in ('package', 'cwd', 'other')},
          'out_cond': r.choice(['none', 'none', 'text', 'isdir']),
          'frac': round(r.random(), 4), 'sessions': []}
    if r.random() < 0.5:
        keep = r.choice(['package', 'cwd', 'other'])
        for n in sc['cond']:
            if n != keep:
                sc['cond'][n] = 'none'
    for k in range(r.randint(1, 3)):
        plan = []
        if r.random() < 0.45:
            kind = r.choice(['open', 'write', 'write', 'close'])
            do = {'open': ['EACCES', 'ENOSPC', 'EMFILE', 'crash'],
                  'write': ['ENOSPC', 'EIO', 'short', 'crash', 'crash', 'sigint'],
                  'close': ['EIO', 'ENOSPC', 'crash']}[kind]
            nth = r.choice([1, 2]) if kind != 'write' else r.choice([1, 2, 5, 50, 230, 260, 270, 280, 290, 295])
            plan.append({'at': [kind, nth], 'do': [r.choice(do), round(r.random(), 3)]})
        sc['sessions'].append({'restart': r.random() < 0.7, 'debug': r.random() < 0.5,
                               'text': r.randrange(4), 'plan': plan})
    return sc


def place(d, cond, frac):
    p = os.path.join(d, 'parsetab.py')
    v = PRE['valid']
    if cond == 'none':
        return
    if cond == 'isdir':
        os.mkdir(p)
        return
    body = {'valid': v, 'torn': v[:int(len(v) * frac)], 'empty': '', 'stale': PRE['stale'],
            'version': v.replace("_tabversion = '", "_tabversion = '0", 1),
            'garbage': 'x = (((\n', 'tornline': None}[cond]
    if cond == 'tornline':
        lines = v.split('\n')
        body = '\n'.join(lines[:max(1, int(len(lines) * frac))]) + '\n'
    with iosim.REAL_OPEN(p, 'w') as f:
        f.write(body)


_REF = {}


def reference(text):
    if text not in _REF:
        from pyverilog.vparser.parser import VerilogParser
        saved = sys.modules.get(observe.TABMODULE)
        try:
            with iosim.REAL_OPEN(os.path.join(core.scratch_root(), 'ref%d_parsetab.py' % os.getpid()), 'w') as f:
                f.write(PRE['valid'])
            sys.modules[observe.TABMODULE] = observe.load_tables(f.name)
            with core.Scratch('ref') as d:
                _REF[text] = observe.ast_dump(VerilogParser(outputdir=d, debug=False).parse(text))
        finally:
            sys.modules.pop(observe.TABMODULE, None)
            if saved is not None:
                sys.modules[observe.TABMODULE] = saved
    return _REF[text]


def run(sc):
    import pyverilog.vparser as pkg
    from pyverilog.vparser.parser import VerilogParser
    out = core.Outcome()
    ident = [sc['where'], sorted(sc['cond'].items()), sc['out_cond']]
    out.nruns = 0
    with core.Scratch('p12') as root:
        dirs = {n: os.path.join(root, n) for n in ('package', 'cwd', 'other')}
        for n, d in dirs.items():
            os.mkdir(d)
            place(d, sc['cond'][n], sc['frac'])
            if sc['out_cond'] == 'isdir':
                os.mkdir(os.path.join(d, 'parser.out'))
            elif sc['out_cond'] == 'text':
                with iosim.REAL_OPEN(os.path.join(d, 'parser.out'), 'w') as f:
                    f.write('old')
        old = os.getcwd()
        old_path = list(pkg.__path__)
        old_sys = list(sys.path)
        os.chdir(dirs['cwd'])
        pkg.__path__.append(dirs['package'])
        sys.path.insert(0, dirs['cwd'])
        try:
            for k, s in enumerate(sc['sessions']):
                if s['restart'] or k == 0:
                    for m in (observe.TABMODULE, 'parsetab'):
                        sys.modules.pop(m, None)
                    if hasattr(pkg, 'parsetab'):
                        del pkg.parsetab
                    out.log('restart')
                importlib.invalidate_caches()
                sys.path_importer_cache.clear()
                text = text_of(s['text'])
                want = reference(text)
                importlib.invalidate_caches()
                tab = os.path.join(dirs['package'], 'parsetab.py')
                present = os.path.isfile(tab) or os.path.isdir(tab)
                damaged = False
                if present:
                    try:
                        with iosim.REAL_OPEN(tab) as f:
                            body = f.read()
                    except OSError:
                        body = ''
                    if body.strip() == PRE['valid'].strip():
                        out.probe('cached-table-used')
                    elif body.strip() == PRE['stale'].strip():
                        out.probe('stale-table-present')
                    elif '_tabversion = \'0' in body and body.rstrip().endswith(']'):
                        out.probe('old-version-present')
                    else:
                        damaged = True
                        out.probe('torn-table-present')
                w = iosim.World(root, s['plan'], outcome=out)
                err = val = None
                outdir = {'package': dirs['package'], 'cwd': '.', 'other': dirs['other']}[sc['where']]
                with w:
                    try:
                        p = VerilogParser(outputdir=outdir, debug=s['debug'])
                        val = observe.ast_dump(p.parse(text))
                    except iosim.SimCrash as e:
                        err = e
                    except (Exception, KeyboardInterrupt) as e:
                        err = e
                        e.__traceback__ = None
                    p = None
                    w.enabled = False
                out.nruns += 1
                out.steps += w.total
                out.simtime += w.total
                if isinstance(err, iosim.SimCrash):
                    out.probe('crash-while-writing')
                if w.fired:
                    out.probe('fault-session')
                oc = type(err).__name__ if err is not None else 'ok'
                ident.append((s['restart'], tuple(w.fired), oc))
                out.states.append((sc['where'], sc['cond'][sc['where']], s['restart'], tuple(w.fired), oc))
                out.log('session', k, oc, w.total, w.fired)
                if err is None:
                    if val != want:
                        out.fail('tables-changed-result', 'session %d: with table files in condition %s (output to %s) '
                                 'the same text parses to a different tree' % (k, sc['cond'], sc['where']))
                elif not w.fired and not damaged:
                    out.fail('leftover-breaks-parse', 'session %d fails (%s: %s) though nothing failed and no damaged '
                             'table is on the import path; leftovers %s, output to %s'
                             % (k, type(err).__name__, str(err)[:200], sc['cond'], sc['where']))
                elif w.fired and all(f[1] == 'short' for f in w.fired) and not damaged:
                    out.fail('short-write-fatal', 'session %d: a short write made the parse fail: %s' % (k, err))
                if out.violations:
                    break
        finally:
            os.chdir(old)
            pkg.__path__[:] = old_path
            sys.path[:] = old_sys
            for m in (observe.TABMODULE, 'parsetab'):
                sys.modules.pop(m, None)
            if hasattr(pkg, 'parsetab'):
                del pkg.parsetab
    if any(v != 'none' for v in sc['cond'].values()) or out.faults:
        out.nontrivial = ident
    out.sample = sc
    return out


def shrink(sc):
    for i in range(len(sc['sessions'])):
        if len(sc['sessions']) > 1:
            c = copy.deepcopy(sc)
            del c['sessions'][i]
            yield c
        if sc['sessions'][i]['plan']:
            c = copy.deepcopy(sc)
            c['sessions'][i]['plan'] = []
            yield c
    for n, v in sc['cond'].items():
        if v != 'none':
            c = copy.deepcopy(sc)
            c['cond'][n] = 'none'
            yield c
    if sc['out_cond'] != 'none':
        c = copy.deepcopy(sc)
        c['out_cond'] = 'none'
        yield c
