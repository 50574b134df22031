"""Where folding a constant expression as Python integers gives the hardware's value.

PyVerilog folds constants with unlimited integers; Verilog cuts every intermediate result to a width that depends on the
context.  Where the two differ for the design's own constants the definition is set aside (a recorded finding), so that
everything else can be checked exactly."""
import re

from . import vfront, vsim
from .vfront import size

ARITH = ('Plus', 'Minus', 'Times', 'Divide', 'Mod', 'And', 'Or', 'Xor', 'Xnor')
COMPARE = ('Eq', 'NotEq', 'Eql', 'NotEql', 'LessThan', 'GreaterThan', 'LessEq', 'GreaterEq')
SHIFT = ('Sll', 'Srl', 'Sla', 'Sra', 'Power')
REDUCE = ('Ulnot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')


def terminals(t):
    return set(re.findall(r"Terminal ([^\s)]+)", t.tostr()))


class Differs(Exception):
    pass


class Fold(object):
    def __init__(self, df, consts):
        self.df = df                 # the untransformed dataflow
        self.consts = consts         # name -> value PyVerilog resolved (Python integer)
        self.sz = {}
        self.keep = []
        self.known = {}

    def size(self, t):
        k = id(t)
        if k not in self.sz:
            self.keep.append(t)
            self.sz[k] = size(self.df.conv(t))
        return self.sz[k]

    def check(self, t, W=None, exact=False):
        """Raises Differs where a constant part of t, used with W bits, folds to something else."""
        k = t.__class__.__name__
        if t is None or k == 'DFUndefined':
            return
        if k == 'DFBranch':
            self.check(t.condnode, None, True)
            self.check(t.truenode, W)
            self.check(t.falsenode, W)
            return
        W = max(W or 0, self.size(t))
        v = self.exact(t)
        if v is not None:
            e = self.df.conv(t)
            if not vfront.isconst(e):
                if self.static(t) is None or t.operator == 'Or' and W > self.size(t):
                    raise Differs(str(t))           # all ones of an unknown width, or constants that meet it
            else:
                v -= vsim.eval_const(e, W)
                if v & ((1 << W) - 1) or exact and v:   # truth and order see what lies beyond the width
                    raise Differs(str(t))
                return
        if k == 'DFOperator':
            n = t.nextnodes
            if t.operator == 'Or' and W > self.size(t) and any(
                    x.__class__.__name__ == 'DFOperator' and x.operator == 'Unot' and terminals(x) == terminals(y)
                    for x, y in (n, n[::-1])):      # may be all ones
                raise Differs(str(t))
            if t.operator in ARITH or t.operator in ('Uplus', 'Uminus', 'Unot'):
                for x in n:
                    self.check(x, W, t.operator in ('Divide', 'Mod'))
            elif t.operator in COMPARE:
                w = max(self.size(x) for x in n)
                for x in n:
                    self.check(x, w, True)
            elif t.operator in SHIFT:
                self.check(n[0], W, t.operator != 'Sll')
                self.check(n[1], None, True)
            else:
                for x in n:
                    self.check(x, None, True)
        elif k == 'DFConcat':
            for x in t.nextnodes:
                self.check(x)
        elif k == 'DFPartselect':
            for x in (t.var, t.msb, t.lsb):
                self.check(x)
        elif k == 'DFPointer':
            for x in (t.var, t.ptr):
                self.check(x)

    def static(self, t):
        """The constant an operator is simplified to, whatever its operands are."""
        if t.__class__.__name__ != 'DFOperator' or len(t.nextnodes) != 2:
            return None
        n, o = t.nextnodes, t.operator
        if n[0].tostr() == n[1].tostr():
            return 1 if o in ('LessEq', 'GreaterEq', 'Eq', 'Eql') else 0 if o in COMPARE else None
        for x, y in (n, n[::-1]):
            v = self.exact(x)
            if v == 0 and o in ('And', 'Land', 'Times'):
                return 0
            if v and o == 'Lor':
                return 1
            if x.__class__.__name__ == 'DFOperator' and x.operator in ('Unot', 'Ulnot') and x.nextnodes[0].tostr() == y.tostr():
                if o in ('And', 'Land'):
                    return 0
                if o in ('Or', 'Lor'):
                    return (1 << self.size(t)) - 1
        return None

    def exact(self, t):
        k = id(t)
        if k not in self.known:
            self.keep.append(t)
            try:
                self.known[k] = self.value(t)
            except Differs:
                self.known[k] = Differs
        if self.known[k] is Differs:
            raise Differs('')
        return self.known[k]

    def value(self, t):
        """The value as Python integers give it, or None if t is not constant."""
        k = t.__class__.__name__
        if k == 'DFIntConst':
            if "'" in t.value and any(c in t.value.split("'")[1][1:] for c in 'xXzZ?'):
                return None
            return t.eval()
        if k == 'DFEvalValue':
            return t.value
        if k == 'DFTerminal':
            v = self.consts.get(t.name)
            return v if v is None or v < 0 else v & ((1 << self.size(t)) - 1)
        if k == 'DFBranch':
            c = self.exact(t.condnode)
            if c is None or t.truenode is None or t.falsenode is None:
                return None
            a, b = self.exact(t.truenode), self.exact(t.falsenode)
            return None if a is None or b is None else a if c else b
        if k == 'DFConcat':
            v = 0
            for x in t.nextnodes:
                y = self.exact(x)
                if y is None:
                    return None
                w = self.size(x)
                v = v << w | y & ((1 << w) - 1)
            return v
        if k in ('DFPartselect', 'DFPointer'):
            b = self.exact(t.var)
            m, l = (t.msb, t.lsb) if k == 'DFPartselect' else (t.ptr, t.ptr)
            m, l = self.exact(m), self.exact(l)
            if b is None or m is None or l is None:
                return None
            z = self.df.base(t.var)
            m, l = m - z, l - z
            if l < 0 or m < l:
                raise Differs(str(t))
            return b >> l & ((1 << (m - l + 1)) - 1)
        if k != 'DFOperator':
            return None
        a = [self.exact(x) for x in t.nextnodes]
        if any(x is None for x in a):
            return self.static(t)
        w = max(self.size(x) for x in t.nextnodes)
        M = (1 << w) - 1
        o = t.operator
        x = a[0]
        if o in REDUCE and x != x & M:
            raise Differs(str(t))
        if len(a) == 1:
            return {'Uplus': lambda: x, 'Uminus': lambda: -x, 'Ulnot': lambda: int(x == 0), 'Unot': lambda: ~x & M,
                    'Uand': lambda: int(x == M), 'Unand': lambda: int(x != M), 'Uor': lambda: int(x != 0),
                    'Unor': lambda: int(x == 0), 'Uxor': lambda: bin(x).count('1') & 1,
                    'Uxnor': lambda: 1 - (bin(x).count('1') & 1)}[o]()
        y = a[1]
        if o in ('Divide', 'Mod') and (y <= 0 or x < 0) or o in SHIFT and (not 0 <= y < 512 or x < 0):
            raise Differs(str(t))
        return {'Plus': lambda: x + y, 'Minus': lambda: x - y, 'Times': lambda: x * y, 'Divide': lambda: x // y,
                'Mod': lambda: x % y, 'Power': lambda: x ** y, 'Sll': lambda: x << y, 'Sla': lambda: x << y,
                'Srl': lambda: x >> y, 'Sra': lambda: x >> y, 'And': lambda: x & y, 'Or': lambda: x | y,
                'Xor': lambda: x ^ y, 'Xnor': lambda: ~(x ^ y), 'Land': lambda: int(x != 0 and y != 0),
                'Lor': lambda: int(x != 0 or y != 0), 'Eq': lambda: int(x == y), 'NotEq': lambda: int(x != y),
                'Eql': lambda: int(x == y), 'NotEql': lambda: int(x != y), 'LessThan': lambda: int(x < y),
                'GreaterThan': lambda: int(x > y), 'LessEq': lambda: int(x <= y), 'GreaterEq': lambda: int(x >= y)}[o]()
