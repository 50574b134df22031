"""Source delivery under faults: the simulated session shared by P10 and P11.

One scenario is a history of parse sessions in one working directory.  Each
session gets sources (files and in-memory texts, with includes and macros), an
API entry point, and a fault plan.  Children (iverilog), temporary files, the
intermediate output and the debug files all go through simkit.iosim.
"""
import copy
import os
import random
import subprocess

from simkit import core, iosim, observe, texts

APIS = ('preprocess', 'VerilogPreprocessor', 'VerilogCodeParser', 'parse', 'Analyzer')


# ------------------------------------------------------------------ scenarios
def gen_sources(r, tag):
    """Sources of one session: modules over files, strings, headers, macros."""
    mods = []
    n = r.randint(1, 3)
    for k in range(n):
        t, info = texts.module(r, 'M%s%d' % (tag, k))
        mods.append(t)
    use_inc = r.random() < 0.4
    use_def = r.random() < 0.5
    macro = None
    srcs = []
    for k, t in enumerate(mods):
        if use_def and r.random() < 0.6:
            t = t.replace('endmodule', '  wire [7:0] macro_w;\n  assign macro_w = `MAC%s;\nendmodule' % tag, 1)
        if use_inc and r.random() < 0.6:
            t = '`include "hdr%s.vh"\n' % tag + t
        if r.random() < 0.3:
            t = '`ifdef OPT%s\n' % tag + t + '`else\nmodule ELSE%s%d; endmodule\n`endif\n' % (tag, k)
        if r.random() < 0.2:
            t = '`timescale 1ns / 1ps\n' + t
        if r.random() < 0.4:
            t += '// ' + 'x' * r.choice([10, 3000, 9000]) + '\n'
        srcs.append({'kind': r.choice(['file', 'string']), 'text': t,
                     'name': 'src%s_%d.v' % (tag, k)})
    if use_def and r.random() < 0.5 and srcs:
        srcs[0]['text'] = '`define MAC%s (8\'d%d)\n' % (tag, r.randrange(200)) + srcs[0]['text']
        defines = []
    else:
        defines = ['MAC%s=(8\'h%02x)' % (tag, r.randrange(256))]
    if r.random() < 0.5:
        defines.append('OPT%s' % tag)
    if defines and r.random() < 0.3:
        # the same macro given twice: the last one counts
        defines.insert(r.randrange(len(defines) + 1), 'MAC%s=(8\'h%02x)' % (tag, r.randrange(256)))
    if r.random() < 0.3:
        defines.append(r.choice(['ZZ%s=', 'ZZ%s=a=b', 'AA%s=1']) % tag)
    headers = {}
    include = []
    if use_inc:
        d = 'inc%s_%d' % (tag, r.randrange(2))
        headers[d + '/hdr%s.vh' % tag] = '`define HDR%s %d\n`define MORE(x) ((x)+1)\n' % (tag, r.randrange(9))
        if r.random() < 0.85:
            include = ['incX', d] if r.random() < 0.5 else [d]
            if r.random() < 0.5:
                # the same header in several directories: the first on the path counts
                o = ['lib%s_%d' % (tag, k) for k in r.sample(range(4), r.choice((1, 2)))]
                for k, x in enumerate(o):
                    headers[x + '/hdr%s.vh' % tag] = '`define HDR%s %d\nmodule LIB%s_%d; endmodule\n' % (tag, 20 + k, tag, k)
                include += o
                r.shuffle(include)
                if r.random() < 0.3:
                    include.append(include[0])
        elif r.random() < 0.5:
            headers['hdr%s.vh' % tag] = headers.pop(d + '/hdr%s.vh' % tag)
    return {'sources': srcs, 'define': defines, 'include': include, 'headers': headers}


FAULTS = [
    ('spawn', ['ENOENT', 'EACCES', 'EAGAIN', 'ENOMEM']),
    ('create', ['ENOSPC', 'EMFILE', 'EACCES', 'EROFS', 'sigint', 'crash']),
    ('fdopen', ['EMFILE']),
    ('open', ['EMFILE', 'EIO', 'EACCES', 'sigint', 'crash']),
    ('write', ['ENOSPC', 'EIO', 'short', 'crash', 'sigint']),
    ('read', ['EIO', 'short', 'sigint', 'crash']),
    ('close', ['EIO', 'ENOSPC', 'crash']),
    ('remove', ['EPERM', 'EIO', 'crash']),
    ('wait', ['sigint', 'crash']),
    ('mkdir', ['EACCES', 'ENOSPC']),
]


def gen_fault(r):
    """One fault, biased towards the child process and the operations around it."""
    if r.random() < 0.5:
        k = r.random()
        frac = round(r.random(), 3)
        if k < 0.2:
            do = ['exit', frac, r.choice([1, 2, 127, 255])]
        elif k < 0.35:
            do = ['noout', 0, r.choice([1, 2, 126])]
        elif k < 0.6:
            do = ['killed', frac, r.choice([2, 6, 9, 11, 15])]
        elif k < 0.8:
            do = ['diskfull', frac, 1]
        elif k < 0.9:
            do = ['interrupt', frac]
        else:
            do = [r.choice(FAULTS[0][1])]
        return {'at': ['spawn', 1], 'do': do}
    kind, names = r.choice(FAULTS[1:])
    name = r.choice(names)
    nth = r.choice([1, 1, 1, 2, 2, 3, 4])
    do = [name]
    if name in ('short', 'crash') or kind == 'write':
        do.append(round(r.random(), 3))
    return {'at': [kind, nth], 'do': do}


def make(r, faulty=True):
    sessions = []
    n = r.randint(1, 4)
    for k in range(n):
        s = gen_sources(r, 'abcdef'[r.randrange(2) if r.random() < 0.3 else k])
        s['api'] = r.choice(APIS)
        s['output'] = r.choice([None, 'my.out', 'sub/pp.txt']) if s['api'] in (
            'preprocess', 'VerilogPreprocessor', 'VerilogCodeParser') else None
        s['outputdir'] = r.choice([None, None, 'od', 'od/deep']) if s['api'] in ('VerilogCodeParser', 'parse') else None
        s['cold'] = r.random() < 0.04
        s['stale'] = None
        if r.random() < 0.35:
            s['stale'] = r.choice(['module STALE(input a); endmodule\n', '', 'garbage ((', 'module STALE; reg x; endmodule'])
        if s['api'] == 'Analyzer':
            s['define'] = [d for d in s['define']]
        s['plan'] = []
        if faulty and r.random() < 0.75 and (k < n - 1 or n == 1):
            for _ in range(1 if r.random() < 0.8 else 2):
                s['plan'].append(gen_fault(r))
        sessions.append(s)
    return {'sessions': sessions}


# ------------------------------------------------------------------ reference
_REF = {}


def reference_text(cwd, s):
    """What `iverilog -E` makes of the sources, in order, run directly."""
    d = os.path.join(cwd, '.ref')
    os.path.isdir(d) or os.mkdir(d)
    files = []
    for k, src in enumerate(s['sources']):
        if src['kind'] == 'file':
            files.append(os.path.join('.', src['name']))
        else:
            p = os.path.join(d, 's%d.v' % k)
            with iosim.REAL_OPEN(p, 'w') as f:
                f.write(src['text'])
            files.append(p)
    out = os.path.join(d, 'out')
    cmd = [iosim.IVERILOG]
    for i in s['include']:
        cmd += ['-I', i]
    for x in s['define']:
        cmd += ['-D', x]
    cmd += ['-E', '-o', out] + files
    p = iosim.REAL_POPEN(cmd, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    rc = p.wait()
    text = None
    if rc == 0:
        with iosim.REAL_OPEN(out) as f:
            text = f.read()
    for f in os.listdir(d):
        iosim.REAL['remove'](os.path.join(d, f))
    iosim.REAL['rmdir'](d)
    return text


def norm(text):
    """`line directives carry the path of a temporary file: drop the path."""
    return '\n'.join(l for l in text.split('\n') if not l.startswith('`line'))


_AST = {}


def reference_ast(text):
    """Fault-free parse of the expected text in a quiet environment."""
    t = norm(text)
    if t not in _AST:
        from pyverilog.vparser.parser import VerilogParser
        d = os.path.join(core.scratch_root(), 'refparse%d' % os.getpid())
        try:
            _AST[t] = ('ok', observe.ast_dump(VerilogParser(outputdir=d, debug=False).parse(t), lineno=False))
        except Exception as e:
            _AST[t] = ('error', type(e).__name__)
    return _AST[t]


# ------------------------------------------------------------------- sessions
def put(cwd, rel, text):
    p = os.path.join(cwd, rel)
    os.path.isdir(os.path.dirname(p)) or REAL_makedirs(os.path.dirname(p))
    with iosim.REAL_OPEN(p, 'w') as f:
        f.write(text)


REAL_makedirs = os.makedirs


def default_output(s):
    if s['output']:
        return s['output']
    return {'preprocess': 'preprocess.output', 'VerilogPreprocessor': 'pp.out'}.get(s['api'], 'preprocess.output')


def call(s):
    """One session through the public API; returns (view kind, value)."""
    from pyverilog.vparser import preprocessor as PP
    from pyverilog.vparser import parser as PA
    files = [('./' + x['name']) if x['kind'] == 'file' else x['text'] for x in s['sources']]
    inc = s['include'] or None
    dfn = s['define'] or None
    api = s['api']
    if api == 'preprocess':
        if s['output']:
            return 'text', PP.preprocess(files, s['output'], inc, dfn)
        return 'text', PP.preprocess(files, include=inc, define=dfn)
    if api == 'VerilogPreprocessor':
        out = default_output(s)
        p = PP.VerilogPreprocessor(files, out, inc, dfn)
        p.preprocess()
        with open(out) as f:
            return 'text', f.read()
    if api == 'VerilogCodeParser':
        kw = {}
        if s['output']:
            kw['preprocess_output'] = s['output']
        if s['outputdir']:
            kw['outputdir'] = s['outputdir']
        p = PA.VerilogCodeParser(files, preprocess_include=inc, preprocess_define=dfn, debug=False, **kw)
        return 'ast', p.parse()
    if api == 'parse':
        kw = {'outputdir': s['outputdir']} if s['outputdir'] else {}
        ast, directives = PA.parse(files, preprocess_include=inc, preprocess_define=dfn, debug=False, **kw)
        return 'ast', ast
    from pyverilog.dataflow.dataflow_analyzer import VerilogDataflowAnalyzer
    a = VerilogDataflowAnalyzer(files, 'TOP', preprocess_include=inc, preprocess_define=dfn)
    return 'ast', a.parse()


class SessionResult(object):
    pass


def simulate(sc, out):
    """Run the history; yield one SessionResult per session."""
    with core.Scratch('pre') as root:
        cwd = os.path.join(root, 'cwd')
        os.mkdir(cwd)
        os.mkdir(os.path.join(root, 'tmp'))
        os.mkdir(os.path.join(cwd, 'sub'))
        old = os.getcwd()
        os.chdir(cwd)
        names = None
        # the fast path is PLY's own: finding its table module imported already
        tab = __import__('sys').modules.get(observe.TABMODULE)
        mods = __import__('sys').modules
        try:
            for k, s in enumerate(sc['sessions']):
                for h, t in s['headers'].items():
                    put(cwd, h, t)
                for src in s['sources']:
                    if src['kind'] == 'file':
                        put(cwd, src['name'], src['text'])
                if s['stale'] is not None:
                    put(cwd, default_output(s), s['stale'])
                want = reference_text(cwd, s)
                res = SessionResult()
                res.index, res.session, res.want = k, s, want
                res.before = iosim.listing(root)
                w = iosim.World(root, s['plan'], outcome=out)
                w.names = names
                if s['cold']:
                    mods.pop(observe.TABMODULE, None)
                elif tab is not None:
                    mods[observe.TABMODULE] = tab
                res.error = res.value = res.kind = None
                with w:
                    try:
                        res.kind, res.value = call(s)
                        if res.kind == 'ast':
                            res.value = observe.ast_dump(res.value, lineno=False)
                    except iosim.SimCrash as e:
                        res.error = e
                    except (Exception, KeyboardInterrupt) as e:
                        res.error = e
                        e.__traceback__ = None
                names = w.names
                import gc
                res.world = w
                res.after = iosim.listing(root)
                out.steps += w.total
                out.simtime += w.total
                out.log('session', k, s['api'], 'ops', w.total, 'fired', w.fired,
                        'error', type(res.error).__name__, 'value',
                        hash_text(res.value))
                for e in w.events:
                    out.log(e)
                yield res
        finally:
            if tab is not None:
                mods[observe.TABMODULE] = tab
            os.chdir(old)


def hash_text(t):
    import hashlib
    if t is None:
        return None
    return hashlib.sha256(norm(t).encode()).hexdigest()[:12]


def only_transparent(fired):
    return all(f[1] == 'short' for f in fired)


# ------------------------------------------------------------------- shrinking
def shrink(sc):
    ss = sc['sessions']
    for i in range(len(ss)):
        if len(ss) > 1:
            c = copy.deepcopy(sc)
            del c['sessions'][i]
            yield c
    for i, s in enumerate(ss):
        for j in range(len(s['plan'])):
            c = copy.deepcopy(sc)
            del c['sessions'][i]['plan'][j]
            yield c
        if len(s['sources']) > 1:
            for j in range(len(s['sources'])):
                c = copy.deepcopy(sc)
                del c['sessions'][i]['sources'][j]
                yield c
        for j, src in enumerate(s['sources']):
            if len(src['text']) > 40:
                c = copy.deepcopy(sc)
                c['sessions'][i]['sources'][j]['text'] = 'module S%d%d; endmodule\n' % (i, j)
                yield c
            if src['kind'] == 'string':
                c = copy.deepcopy(sc)
                c['sessions'][i]['sources'][j]['kind'] = 'file'
                yield c
        for key, v in (('stale', None), ('include', []), ('define', []), ('headers', {}),
                       ('output', None), ('outputdir', None), ('cold', False)):
            if s[key] != v:
                c = copy.deepcopy(sc)
                c['sessions'][i][key] = v
                yield c
        if s['api'] != 'preprocess':
            c = copy.deepcopy(sc)
            c['sessions'][i]['api'] = 'preprocess'
            yield c


def describe(sc):
    return [{'api': s['api'], 'sources': [x['kind'] for x in s['sources']], 'plan': s['plan'],
             'stale': s['stale'] is not None, 'include': s['include'], 'define': s['define']}
            for s in sc['sessions']]


def prepare(tier):
    observe.warm()
