"""Executes the dataflow trees PyVerilog extracts, with Verilog's own value rules.

A tree becomes a resolved expression of hw.vfront and is compiled by hw.vsim, so
the words of the reference world (widths, selects, operators) are the same ones.
"""
from . import vfront, vsim
from .vfront import size, signed

AUTO = ('md_', 'ge_', 'al_', 'in_', 'fc_', 'tc_')
SKIP = ('generate', 'always', 'if', 'functioncall', 'taskcall', 'initial', 'while')

OPS = {'Plus': '+', 'Minus': '-', 'Times': '*', 'Divide': '/', 'Mod': '%', 'Power': '**', 'And': '&', 'Or': '|',
       'Xor': '^', 'Xnor': '~^', 'Land': '&&', 'Lor': '||', 'Eq': '==', 'NotEq': '!=', 'Eql': '===', 'NotEql': '!==',
       'LessThan': '<', 'GreaterThan': '>', 'LessEq': '<=', 'GreaterEq': '>=', 'Sll': '<<', 'Srl': '>>',
       'Sla': '<<<', 'Sra': '>>>'}
UOPS = {'Uplus': '+', 'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&', 'Uor': '|', 'Unor': '~|',
        'Uxor': '^', 'Uxnor': '~^'}


def wildcard(t):
    """A label of casex or casez: a constant with digits that are not compared."""
    if t.__class__.__name__ != 'DFIntConst' or "'" not in t.value:
        return False
    return any(c in 'xXzZ?' for c in t.value.split("'", 1)[1][1:])


class NoValue(Exception):
    """The tree refers to something that has no value here."""


def canon(chain):
    """ScopeChain -> the hierarchical name hardware uses."""
    out = []
    loop = None
    for lab in chain:
        t = lab.scopetype
        n = lab.scopename
        if t == 'for' or (n == 'for' and lab.scopeloop is not None):
            loop = lab.scopeloop
            continue
        if t in SKIP or (t == 'block' and n[:3] in AUTO):
            continue
        if t == 'any' and n[:3] in AUTO and n[3:].rstrip('0123456789') in ('generate', 'always', 'if', 'block', 'functioncall', 'for'):
            continue
        if loop is not None and t in ('block', 'any'):
            n = '%s[%s]' % (n, loop)
            loop = None
        out.append(n)
    return '.'.join(out)


class TooBig(BaseException):
    """The trees of this design are set aside: too many nodes when written out."""


LIMIT = 60000


class DF(object):
    """The dataflow of one design, tied to its hardware."""

    def __init__(self, terms, binddict, design):
        self.terms = terms
        self.binddict = binddict
        self.d = design
        self.sigof = {}
        self.names = {}
        for n in terms:
            c = canon(n)
            self.names[n] = c
            s = design.byname.get(c)
            if s is not None and not self.internal(n):
                self.sigof[n] = s
        self.inl = {}            # internal terminal -> (function name, width)
        self.src = []
        self.env = dict(vsim.GLOBALS)
        self.env['NoValue'] = NoValue
        self.stack = []
        self.nodes = 0

    def internal(self, n):
        """Renamed variables and signals of one function call."""
        if any(l.scopetype in ('functioncall', 'taskcall') for l in n):
            return True
        t = self.terms[n].termtype
        return 'Rename' in t

    # ------------------------------------------------------------- conversion
    def conv(self, t):
        self.nodes += 1
        if self.nodes > LIMIT:
            raise TooBig()
        k = t.__class__.__name__
        if k == 'DFIntConst':
            return vfront.number(t.value)
        if k == 'DFEvalValue':
            if t.isfloat or t.isstring:
                raise NoValue('not a number')
            w = t.width
            if isinstance(w, float):
                w = int(w)
            v = int(t.value)
            if 0 <= v < 1 << w:
                return ('num', v, w, False, True)
            return ('ev', v, w)                 # a folded constant: the number itself, cut where it is used
        if k == 'DFTerminal':
            return self.terminal(t.name)
        if k == 'DFOperator':
            if t.operator == 'Eq' and wildcard(t.nextnodes[1]):
                a = self.conv(t.nextnodes[0])
                x = vfront.wild(t.nextnodes[1].value)
                w = max(size(a), x[3])
                return ('weq', a, w, x[2] | ((1 << w) - (1 << x[3])), x[1])
            a = [self.conv(x) for x in t.nextnodes]
            if len(a) == 1:
                return ('un', UOPS[t.operator], a[0])
            return ('bin', OPS[t.operator], a[0], a[1])
        if k == 'DFBranch':
            if t.truenode is None or t.falsenode is None:
                raise NoValue('an arm without a value inside an expression')
            return ('cond', self.conv(t.condnode), self.conv(t.truenode), self.conv(t.falsenode))
        if k == 'DFConcat':
            return ('cat', [self.conv(x) for x in t.nextnodes])
        if k == 'DFPointer':
            v = self.conv(t.var)
            if v[0] == 'sig' and v[1].depth:
                return ('mem', v[1], self.conv(t.ptr))
            if v[0] not in ('sig', 'mem', 'rn'):
                if self.base(t.var):
                    raise NoValue('variable select of a constant with an offset')
                return ('xbit', v, self.conv(t.ptr))
            return ('bit', v, self.conv(t.ptr), None)
        if k == 'DFPartselect':
            v = self.conv(t.var)
            if t.msb == t.lsb:
                i = self.conv(t.msb)
                if v[0] in ('sig', 'mem') or v[0] == 'rn':
                    c = vfront.const_value(i) if self.isconst(i) else None
                    if c is None:
                        return ('bit', v, i, None)
                    if self.pos(v, c) < 0:
                        raise NoValue('bit [%d] outside of %s' % (c, t.var))
                    return ('part', v, self.pos(v, c), 1)
                z = self.base(t.var)
                if self.isconst(i):
                    if vfront.const_value(i) < z:
                        raise NoValue('bit [%d] outside of %s' % (vfront.const_value(i), t.var))
                    return ('xpart', v, vfront.const_value(i) - z, 1)
                if z:
                    raise NoValue('variable select of a constant with an offset')
                return ('xbit', v, i)
            m, l = self.conv(t.msb), self.conv(t.lsb)
            if not (self.isconst(m) and self.isconst(l)):
                raise NoValue('variable part select')
            m, l = vfront.const_value(m), vfront.const_value(l)
            if v[0] in ('sig', 'mem', 'rn'):
                a, b = self.pos(v, m), self.pos(v, l)
                lo, w = min(a, b), abs(a - b) + 1
                if lo < 0:
                    raise NoValue('part select [%d:%d] outside of %s' % (m, l, t.var))
                have = min(size(v) - lo, w)
                if have < w:
                    # beyond a narrower operand: what a widening assignment has there
                    zero = ('num', 0, w - max(have, 0), False, True)
                    return zero if have <= 0 else ('cat', [zero, ('part', v, lo, have)])
                return ('part', v, lo, w)
            z = self.base(t.var)
            m, l = m - z, l - z
            if min(m, l) < 0:
                raise NoValue('part select [%d:%d]' % (m, l))
            return ('xpart', v, min(m, l), abs(m - l) + 1)
        raise NoValue('%s has no value' % k)

    def base(self, t):
        """The lowest index of a named constant."""
        if t.__class__.__name__ != 'DFTerminal':
            return 0
        x = self.terms[t.name]
        return 0 if x.lsb is None else self.cint(x.lsb)

    def pos(self, v, i):
        s = v[1]
        return i - s.lsb if s.msb >= s.lsb else s.lsb - i

    def isconst(self, e):
        return vfront.isconst(e)

    def terminal(self, n):
        s = self.sigof.get(n)
        if s is not None:
            return ('sig', s)
        t = self.terms.get(n)
        if t is None:
            raise NoValue('no term %s' % n)
        return self.inline(n, t)

    def inline(self, n, t):
        got = self.inl.get(n)
        if got is not None:
            return got
        if n in self.stack:
            raise NoValue('%s depends on itself' % n)
        self.stack.append(n)
        try:
            binds = self.binddict.get(n)
            if not binds:
                raise NoValue('%s has no definition' % n)
            kinds = set(t.termtype)
            if kinds & set(['Parameter', 'Localparam']):
                e = self.conv(binds[0].tree)
                if not self.isconst(e):
                    raise NoValue('parameter %s is not constant' % n)
                typed = not (t.msb is None or str(t.msb) == '31' and str(t.lsb) == '0')
                w = self.twidth(t) if typed else max(size(e), 32)
                r = ('num', vsim.eval_const(e, w) & ((1 << w) - 1), w, signed(e) and not typed, typed)
            else:
                r = self.assigned(n, t, binds)
        finally:
            self.stack.pop()
        self.inl[n] = r
        return r

    def cint(self, t):
        e = self.conv(t)
        if not self.isconst(e):
            raise NoValue('not constant: %s' % t)
        return vfront.const_value(e)

    def twidth(self, t):
        if t.msb is None:
            return 1
        return abs(self.cint(t.msb) - self.cint(t.lsb)) + 1

    def assigned(self, n, t, binds):
        """The value an intermediate variable holds: its definition cut to its width."""
        s = vfront.Sig()
        s.name = str(n)
        s.msb, s.lsb = (self.cint(t.msb), self.cint(t.lsb)) if t.msb is not None else (0, 0)
        s.width = abs(s.msb - s.lsb) + 1
        s.signed, s.depth, s.index = False, 0, -1
        fn = 'R_%d' % len(self.inl)
        while fn in self.env:
            fn += '_'
        self.env[fn] = None
        body = []
        if len(binds) == 1 and binds[0].ptr is None:
            b = binds[0]
            g = G(self)
            lo, w = self.brange(b, s)
            if (lo, w) != (0, s.width):
                # a renamed part: the intermediate stands for the part alone
                s.msb, s.lsb, s.width = w - 1, 0, w
            code = self.tree_code(g, b.tree, w, None)
            body = code
        else:
            body.append(' v = 0')
            for b in binds:
                if b.ptr is not None:
                    raise NoValue('array element %s' % n)
                g = G(self)
                lo, w = self.brange(b, s)
                code = self.tree_code(g, b.tree, w, None, 'v = setbits(v, %d, %d, %%s, %d)' % (lo, w, s.width))
                body += code
            body.append(' return v')
        exec(compile('def %s(S):\n%s\n' % (fn, '\n'.join(body)), '<df>', 'exec'), self.env)
        return ('rn', s, fn)

    def brange(self, b, s):
        """Bit position and width a bind defines in s."""
        if b.msb is None:
            return 0, s.width
        m, l = self.cint(b.msb), self.cint(b.lsb)
        a, c = (m - s.lsb, l - s.lsb) if s.msb >= s.lsb else (s.lsb - m, s.lsb - l)
        lo, w = min(a, c), abs(a - c) + 1
        if lo < 0 or lo + w > s.width:
            raise NoValue('bind range [%d:%d] outside of %s' % (m, l, s.name))
        return lo, w

    def tree_code(self, g, t, w, hold, sink='return %s'):
        """Statements giving the value assigned to w bits; `hold` is emitted where no value is assigned."""
        self.nodes += 1
        if self.nodes > LIMIT:
            raise TooBig()
        k = t.__class__.__name__
        if t is None or k == 'DFUndefined':
            if hold is None:
                return [' raise NoValue("no value assigned")']
            return [' ' + hold]
        if k == 'DFBranch':
            try:
                c = g.ev(self.conv(t.condnode))
            except NoValue as e:
                return [' raise NoValue(%r)' % str(e)]
            out = [' if %s:' % c]
            out += [' ' + x for x in self.tree_code(g, t.truenode, w, hold, sink)]
            out += [' else:']
            out += [' ' + x for x in self.tree_code(g, t.falsenode, w, hold, sink)]
            return out
        try:
            e = self.conv(t)
            W = max(w, size(e))
            code = g.ev(e, W)
        except NoValue as x:
            return [' raise NoValue(%r)' % str(x)]
        if W > w:
            code = '(%s)&%s' % (code, g.m(w))
        return [' ' + sink % code]

    def compile(self, tree, w):
        """f(S) -> value assigned to w bits, or None where the target keeps its value."""
        g = G(self)
        code = self.tree_code(g, tree, w, 'return None')
        env = self.env
        exec(compile('def f(S):\n%s\n' % '\n'.join(code), '<df>', 'exec'), env)
        f = env.pop('f')
        f.reads = g.reads
        return f

    def compile_cond(self, tree):
        """f(S) -> truth of a condition."""
        g = G(self)
        code = g.ev(self.conv(tree))
        exec(compile('def f(S):\n return 1 if %s else 0\n' % code, '<df>', 'exec'), self.env)
        return self.env.pop('f')


class G(vsim.Gen):
    def __init__(self, df):
        vsim.Gen.__init__(self)
        self.df = df

    def ev(self, e, W=None, sg=None):
        if e[0] in ('rn', 'xpart', 'xbit', 'weq'):
            return self.leaf(e)
        return vsim.Gen.ev(self, e, W, sg)

    def leaf(self, e):
        if e[0] == 'rn':
            return '%s(S)' % e[2]
        if e[0] == 'weq':
            return '(1 if %s&%d == %d else 0)' % (self.ev(e[1], e[2]), e[3], e[4])
        if e[0] == 'xpart':
            n = max(size(e[1]), e[2] + e[3])
            return '((%s>>%d)&%s)' % (self.ev(e[1], n), e[2], self.m(e[3]))
        if e[0] == 'xbit':
            return '((%s>>(%s))&1)' % (self.ev(e[1]), self.ev(e[2]))
        return vsim.Gen.leaf(self, e)
