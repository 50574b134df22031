"""One session of a user: every public query of PyVerilog on one design, as canonical text.

Used by P07 (threads), P08 (histories) and P09 (hash seeds).  A session is a list of named steps over shared objects;
each step's result is a string (sets are sorted, everything else is kept in the order PyVerilog gives)."""
import os
import re
import sys

from simkit import core, observe

STEPS = ['parse', 'codeparse', 'visitors', 'generate', 'resolve', 'optimize', 'tree', 'walk', 'subset', 'fsm', 'active',
         'dfcode', 'graph', 'codegen', 'identifiers', 'tocode']


class State(object):
    """The objects of one session; steps build them in order."""

    def __init__(self, d, text, top, name='a.v'):
        self.d, self.text, self.top, self.name = d, text, top, name
        self.path = os.path.join(d, name)
        self.o = {}
        self.indent = 2 + len(text) % 3                 # the user's options differ from session to session
        self.define = ['EXTRA'] if len(text) % 2 else []

    def write(self):
        with open(self.path, 'w') as f:
            f.write(self.text + '\n`ifdef EXTRA\nmodule extra_m(input x, output y);\nassign y = x;\nendmodule\n`endif\n')

    # ---- every step returns a string
    def parse(self):
        from pyverilog.vparser.parser import VerilogParser
        if 'parser' not in self.o:
            self.o['parser'] = VerilogParser(debug=False)
        ast = self.o['parser'].parse(self.text)
        self.o['ast'] = ast
        return observe.ast_dump(ast) + '\n%r %r' % (self.o['parser'].get_directives(),
                                                     self.o['parser'].get_default_nettype())

    def codeparse(self):
        from pyverilog.vparser.parser import VerilogCodeParser
        p = self.o.get('cp')
        if p is None:
            p = self.o['cp'] = VerilogCodeParser([self.path], preprocess_define=self.define, debug=False)
        ast = p.parse()
        self.o['cast'] = ast
        return observe.ast_dump(ast) + '\n%r' % (p.get_directives(),)

    def visitors(self):
        """The visitors run on a tree the caller keeps."""
        from pyverilog.dataflow.modulevisitor import ModuleVisitor
        from pyverilog.dataflow.signalvisitor import SignalVisitor
        from pyverilog.dataflow.bindvisitor import BindVisitor
        ast = self.o['ast']
        m = ModuleVisitor()
        m.visit(ast)
        table = m.get_moduleinfotable()
        s = SignalVisitor(table, self.top)
        s.start_visit()
        b = BindVisitor(table, self.top, s.getFrameTable(), noreorder=False)
        b.start_visit()
        f = b.getDataflows()
        return '%r\n' % (m.get_modulenames(),) + observe.df_dump(f.getTerms(), f.getBinddict())

    def generate(self):
        from pyverilog.dataflow.dataflow_analyzer import VerilogDataflowAnalyzer
        a = self.o.get('analyzer')
        if a is None:
            a = self.o['analyzer'] = VerilogDataflowAnalyzer([self.path], self.top, preprocess_define=self.define)
        a.generate()
        self.o['terms'], self.o['binds'] = a.getTerms(), a.getBinddict()
        return '\n'.join([observe.df_dump(self.o['terms'], self.o['binds'])] +
                         ['I %s %s' % (x, y) for x, y in a.getInstances()] +
                         ['S %s %s' % (k, observe.ast_dump(v, False)) for k, v in a.getSignals().items()] +
                         ['C %s %s' % (k, observe.ast_dump(v, False)) for k, v in a.getConsts().items()])

    def resolve(self):
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
        o = self.o.get('opt')
        if o is None:
            o = self.o['opt'] = VerilogDataflowOptimizer(self.o['terms'], self.o['binds'])
        o.resolveConstant()
        self.o['rt'], self.o['rb'], self.o['cl'] = o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist()
        return self.resolved_dump()

    def resolved_dump(self):
        return observe.df_dump(self.o['rt'], self.o['rb']) + '\n' + \
            '\n'.join('%s=%s' % (k, v.tostr()) for k, v in self.o['cl'].items())

    def args(self):
        return (self.top, self.o['terms'], self.o['binds'], self.o['rt'], self.o['rb'], self.o['cl'])

    def names(self):
        return sorted(self.o['binds'], key=str)

    def each(self, f):
        L = []
        for n in self.names():
            L.append('%s: %s' % (n, outcome(lambda n=n: f(n))))
        return '\n'.join(L)

    def optimize(self):
        o = self.o['opt']
        return self.each(lambda n: [dump(o.optimize(b.tree)) for b in self.o['rb'].get(n, ())])

    def obj(self, key, module, cls, *extra):
        if key not in self.o:
            m = __import__('pyverilog.%s' % module, fromlist=[cls])
            self.o[key] = getattr(m, cls)(*(self.args() + extra))
        return self.o[key]

    def tree(self):
        m = self.obj('merge', 'dataflow.merge', 'VerilogDataflowMerge')
        return self.each(lambda n: dump(m.getTree(n)))

    def walk(self):
        w = self.obj('walker', 'dataflow.walker', 'VerilogDataflowWalker')
        return self.each(lambda n: [dump(w.walkBind(str(n), step=s)) for s in (0, 1)])

    def subset(self):
        s = self.obj('subset', 'dataflow.subset', 'VerilogSubset')

        def one(n):
            b, t = s.getBindSourceSubset([str(n)])
            L = [sorted('%s=%s' % (k, [dump(x) for x in v]) for k, v in b.items()), sorted(map(str, t))]
            b, t = s.getBindSubset(n)
            L += [sorted('%s=%s' % (k, [dump(x) for x in v]) for k, v in b.items()), sorted(map(str, t))]
            for part in s.getSubset([str(n)]):
                L.append(sorted('%s=%s' % (k, sorted(dump(x) for x in v) if isinstance(v, (set, list, tuple))
                                           else dump(v)) for k, v in part.items()))
            return L
        return self.each(one)

    def fsm(self):
        c = self.obj('cf', 'controlflow.controlflow_analyzer', 'VerilogControlflowAnalyzer')
        loops, fsms = c.getLoops()
        L = []
        for k, f in fsms.items():
            L.append('%s %s delay %s' % (k, f.name, f.delaycnt))
            L.append('any %s' % sorted((dump(a), b) for a, b in f.any.items()))
            for src, d in f.fsm.items():
                L.append('%s -> %s' % (src, sorted((dump(a), b) for a, b in d.items())))
        for k, v in sorted(loops.items(), key=str):
            L.append('loops %s %s' % (k, sorted(v)))
        return '\n'.join(L)

    def active(self):
        c = self.obj('ac', 'controlflow.active_analyzer', 'VerilogActiveConditionAnalyzer')
        return self.each(lambda n: sorted('%s: %s' % (k, sorted('%s %s' % (a, dump(b)) for a, b in v))
                                          for k, v in c.getActiveConditions(n).items()))

    def dfcode(self):
        g = self.obj('dfc', 'dataflow.dataflow_codegen', 'VerilogCodeGenerator')
        return '\n'.join(sorted(g.generateCode().split('\n')))

    def graph(self):
        out = []
        for n in self.names()[:4]:
            from pyverilog.dataflow.graphgen import VerilogGraphGenerator
            g = VerilogGraphGenerator(*(self.args() + (os.path.join(self.d, 'g.png'),)))

            def one():
                g.generate(str(n), walk=True)
                return g.graph.to_string()
            out.append('%s: %s' % (n, outcome(one)))
        return '\n'.join(out)

    def codegen(self):
        from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
        if 'gen' not in self.o:
            self.o['gen'] = ASTCodeGenerator(self.indent)
        return self.o['gen'].visit(self.o['ast'])

    def identifiers(self):
        from pyverilog.utils.identifiervisitor import getIdentifiers
        from pyverilog.utils.identifierreplace import replaceIdentifiers
        ids = getIdentifiers(self.o['ast'])
        import copy
        other = replaceIdentifiers(copy.deepcopy(self.o['ast']), {x: 'n_' + x for x in set(ids) if len(x) % 2})
        return repr(ids) + '\n' + observe.ast_dump(other)

    def tocode(self):
        L = []
        for n in self.names():
            for b in self.o['rb'].get(n, ()):
                L.append(outcome(b.tocode))
        for t in self.o['rt'].values():
            L.append(outcome(t.tocode))
        return '\n'.join(L)

    def unchanged(self):
        """Views of the objects the queries read."""
        r = {}
        for k in ('ast', 'cast'):
            if k in self.o:
                r[k] = observe.ast_dump(self.o[k])
        if 'terms' in self.o:
            r['dataflow'] = observe.df_dump(self.o['terms'], self.o['binds'])
        if 'rt' in self.o:
            r['resolved'] = self.resolved_dump()
        return r


def dump(x):
    if x is None:
        return 'None'
    if isinstance(x, (list, tuple)):
        return '[%s]' % ', '.join(dump(y) for y in x)
    if hasattr(x, 'tostr'):
        s = observe.canon(x.tostr())
        return s + (' ' + observe.always_dump(x) if hasattr(x, 'alwaysinfo') else '')
    return str(x)


def outcome(f):
    """A result or the error, without addresses and private paths."""
    from hw.dfeval import TooBig
    try:
        r = f()
        return r if isinstance(r, str) else repr(r)
    except TooBig:
        raise
    except RecursionError:
        return 'raise:RecursionError'
    except Exception as e:
        s = re.sub(r'0x[0-9a-f]+', '0x', str(e))
        return 'raise:%s:%s' % (type(e).__name__, re.sub(r'/[^ ]*/vsim_[^/ ]*/?', '', s))


def step(st, name):
    from checks import _hw
    from hw.dfeval import TooBig
    _hw.new_budget()
    try:
        return outcome(getattr(st, name))
    except TooBig:
        return 'too-big'


def diff(a, b):
    a, b = a.split('\n'), b.split('\n')
    for k in range(max(len(a), len(b))):
        x, y = ''.join(a[k:k + 1]), ''.join(b[k:k + 1])
        if x != y:
            j = 0
            while j < min(len(x), len(y)) and x[j] == y[j]:
                j += 1
            lo = max(0, j - 160)
            return 'line %d column %d:\n   expected %s\n   got      %s' % (k + 1, j, x[lo:j + 200] or '<none>', y[lo:j + 200] or '<none>')
    return 'same'
