"""Canonical views of what the code under test returns, and warm parser tables."""
import importlib.util
import os
import re
import sys
import tempfile

from . import core

TABMODULE = 'pyverilog.vparser.parsetab'


def build_tables(outdir):
    """Generate the LALR tables of the current grammar once, with the real code."""
    from pyverilog.vparser.parser import VerilogParser
    sys.modules.pop(TABMODULE, None)
    with core.quiet():
        VerilogParser(outputdir=outdir)
    return os.path.join(outdir, 'parsetab.py')


def load_tables(path, name=TABMODULE):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def warm():
    """Make later parser constructions cheap: PLY finds its tables imported."""
    d = tempfile.mkdtemp(prefix='tables_', dir=core.scratch_root())
    path = build_tables(d)
    if os.path.exists(path):
        sys.modules[TABMODULE] = load_tables(path)
    return path


def warm_templates():
    """Compile each template text once per process tree (a pure function of the text and the environment's settings)."""
    import jinja2
    memo = {}
    real = jinja2.Environment.compile
    if hasattr(real, 'memo'):
        return

    def compile_(self, source, name=None, filename=None, raw=False, defer_init=False):
        if not isinstance(source, str) or raw or defer_init:
            return real(self, source, name, filename, raw, defer_init)
        k = (source, name, filename, repr(sorted((a, b) for a, b in vars(self).items()
                                                 if isinstance(b, (str, bool, int, type(None))))))
        if k not in memo:
            memo[k] = real(self, source, name, filename, raw, defer_init)
        return memo[k]
    compile_.memo = memo
    jinja2.Environment.compile = compile_
    try:
        from pyverilog.ast_code_generator.codegen import ASTCodeGenerator, DEFAULT_TEMPLATE_DIR as d
        g = ASTCodeGenerator()
        for f in sorted(os.listdir(d)):
            g.env.get_template(f)
    except Exception:
        memo.clear()                                    # a speed-up only


def cold():
    sys.modules.pop(TABMODULE, None)


# ---------------------------------------------------------------------- dumps
def ast_lines(node, depth=0, lineno=True, out=None):
    top = out is None
    if top:
        out = []
    if node is None:
        out.append(' ' * depth + 'None')
    elif isinstance(node, (list, tuple)) and not hasattr(node, 'children'):
        for n in node:
            ast_lines(n, depth, lineno, out)
    elif not hasattr(node, 'children'):
        out.append(' ' * depth + repr(node))
    else:
        attrs = [(a, getattr(node, a, None)) for a in getattr(node, 'attr_names', ())]
        extra = [(a, getattr(node, a)) for a in ('default_nettype',) if hasattr(node, a)]
        out.append('%s%s %r%s' % (' ' * depth, node.__class__.__name__, attrs + extra,
                                  ' @%s' % getattr(node, 'lineno', None) if lineno else ''))
        for c in node.children():
            ast_lines(c, depth + 1, lineno, out)
    return out


def ast_dump(ast, lineno=True):
    return '\n'.join(ast_lines(ast, lineno=lineno))


def df_dump(terms, binddict):
    L = []
    for k, t in terms.items():
        L.append('T %s %s' % (k, canon(t.tostr())))
    for k, bs in binddict.items():
        for b in bs:
            L.append('B %s %s %s' % (k, canon(b.tostr()), always_dump(b)))
    return '\n'.join(L)


def canon(s):
    """Termtype tuples are printed from sets: sort them (their order is not claimed)."""
    return re.sub(r"type:\[([^\]]*)\]", lambda m: 'type:[%s]' %
                  ', '.join(sorted(x.strip() for x in m.group(1).split(','))), s)


def always_dump(b):
    a = getattr(b, 'alwaysinfo', None)
    if a is None:
        return '-'
    return '%s/%s/%s %s/%s/%s' % (a.getClockName(), a.getClockEdge(), a.getClockBit(),
                                  a.getResetName(), a.getResetEdge(), a.getResetBit())
