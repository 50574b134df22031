"""An independent front end for the Verilog subset the simulated hardware uses.

Tokenizer, recursive-descent parser and elaborator.  Nothing here uses the code
under test.  The result of `elaborate` is a flat Design: signals, continuous
assignments and processes with resolved names, ready for vsim.
"""
import re


class VError(Exception):
    """The text is outside the subset or wrong."""


TOK = re.compile(r'''
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/|`(?:timescale|default_nettype|line|celldefine|endcelldefine)[^\n]*|\(\*(?!\s*\)).*?\*\))
 |(?P<num>(?:[0-9][0-9_]*)?\s*'[sS]?[bBoOdDhH]\s*[0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*|[0-9][0-9_]*)
 |(?P<str>"(?:[^"\\]|\\.)*")
 |(?P<sys>\$[A-Za-z_]\w*)
 |(?P<id>[A-Za-z_][\w$]*|\\\S+)
 |(?P<op><<<|>>>|===|!==|\*\*|<<|>>|<=|>=|==|!=|&&|\|\||~&|~\||~\^|\^~|\+:|-:|[-+*/%&|^~!<>=?:;,.(){}\[\]\#@])
''', re.X | re.S)

KEYWORDS = set('''module endmodule input output inout wire reg integer genvar parameter localparam assign always
initial begin end if else case casex casez endcase default for while repeat posedge negedge or function endfunction
generate endgenerate signed supply0 supply1 tri task endtask always_ff always_comb always_latch unique
and nand or nor xor xnor not buf'''.split())


def lex(text):
    out = []
    pos = 0
    n = len(text)
    while pos < n:
        m = TOK.match(text, pos)
        if not m:
            raise VError('cannot tokenize at %r' % text[pos:pos + 30])
        k = m.lastgroup
        if k != 'ws':
            v = m.group(k)
            if k == 'id' and v in KEYWORDS:
                k = 'kw'
            if k == 'id' and v.startswith('\\'):
                v = v[1:]
            out.append((k, v))
        pos = m.end()
    out.append(('eof', ''))
    return out


def wild(text):
    """('wild', value, mask, width): a label with digits that are not compared"""
    t = re.sub(r'[\s_]', '', text).lower()
    size, rest = t.split("'", 1)
    if not size or rest[0] not in 'boh':
        raise VError('x/z digits are outside the subset: %s' % text)
    k = {'b': 1, 'o': 3, 'h': 4}[rest[0]]
    w = int(size)
    v = m = 0
    for c in rest[1:]:
        v <<= k
        m <<= k
        if c not in 'xz?':
            v |= int(c, 16)
            m |= (1 << k) - 1
    n = k * len(rest[1:])
    if n < w:
        if rest[1] in 'xz?':
            raise VError('extension of x/z digits')
        m |= ((1 << w) - 1) ^ ((1 << n) - 1)
    full = (1 << w) - 1
    return ('wild', v & full, m & full, w, set(rest[1:]))


def number(text):
    """('num', value, width, signed, sized)"""
    t = re.sub(r'[\s_]', '', text)
    if "'" not in t:
        return ('num', int(t) & 0xffffffff, 32, True, False)
    size, rest = t.split("'", 1)
    signed = rest[0] in 'sS'
    if signed:
        rest = rest[1:]
    base = {'b': 2, 'o': 8, 'd': 10, 'h': 16}[rest[0].lower()]
    digits = rest[1:]
    if re.search('[xXzZ?]', digits):
        raise VError('x/z digits are outside the subset: %s' % text)
    w = int(size) if size else 32
    if w == 0:
        raise VError('zero width')
    return ('num', int(digits, base) & ((1 << w) - 1), w, signed, bool(size))


BINPREC = [
    {'||'}, {'&&'}, {'|'}, {'^', '~^', '^~'}, {'&'}, {'==', '!=', '===', '!=='},
    {'<', '<=', '>', '>='}, {'<<', '>>', '<<<', '>>>'}, {'+', '-'}, {'*', '/', '%'}, {'**'}]


GATES = ('and', 'nand', 'or', 'nor', 'xor', 'xnor', 'not', 'buf')


class Parser(object):
    def __init__(self, text):
        self.toks = lex(text)
        self.p = 0

    # ---- helpers
    def peek(self, k=0):
        return self.toks[min(self.p + k, len(self.toks) - 1)][1]

    def kind(self, k=0):
        return self.toks[min(self.p + k, len(self.toks) - 1)][0]

    def next(self):
        t = self.toks[self.p]
        self.p += 1
        return t[1]

    def at(self, v):
        return self.peek() == v and self.kind() in ('op', 'kw')

    def accept(self, v):
        if self.at(v):
            self.p += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise VError('expected %r, got %r before %r' % (v, self.peek(), ' '.join(t[1] for t in self.toks[self.p:self.p + 8])))

    def ident(self):
        if self.kind() != 'id':
            raise VError('identifier expected, got %r' % self.peek())
        return self.next()

    # ---- expressions
    def expr(self):
        c = self.binary(0)
        if self.accept('?'):
            a = self.expr()
            self.expect(':')
            b = self.expr()
            return ('cond', c, a, b)
        return c

    def binary(self, level):
        if level == len(BINPREC):
            return self.unary()
        a = self.binary(level + 1)
        while self.kind() == 'op' and self.peek() in BINPREC[level]:
            op = self.next()
            b = self.binary(level + 1)
            if op == '^~':
                op = '~^'
            a = ('bin', op, a, b)
        return a

    def unary(self):
        if self.kind() == 'op' and self.peek() in ('+', '-', '!', '~', '&', '|', '^', '~&', '~|', '~^', '^~'):
            op = self.next()
            if op == '^~':
                op = '~^'
            return ('un', op, self.unary())
        return self.primary()

    def primary(self):
        k = self.kind()
        if k == 'num':
            return number(self.next())
        if k == 'str':
            raise VError('strings are outside the subset')
        if k == 'sys':
            f = self.next()
            self.expect('(')
            e = self.expr()
            self.expect(')')
            if f == '$signed':
                return ('signed', e)
            if f == '$unsigned':
                return ('unsigned', e)
            raise VError('system call %s' % f)
        if self.accept('('):
            e = self.expr()
            self.expect(')')
            return e
        if self.accept('{'):
            first = self.expr()
            if self.accept('{'):
                inner = [self.expr()]
                while self.accept(','):
                    inner.append(self.expr())
                self.expect('}')
                self.expect('}')
                return ('rep', first, ('cat', inner) if len(inner) > 1 else ('cat', inner))
            es = [first]
            while self.accept(','):
                es.append(self.expr())
            self.expect('}')
            return ('cat', es)
        name = self.hier()
        if self.at('(') and len(name) == 1 and not isinstance(name[0], tuple):
            self.next()
            args = []
            if not self.at(')'):
                args.append(self.expr())
                while self.accept(','):
                    args.append(self.expr())
            self.expect(')')
            return ('call', name[0], args)
        return self.selects(('id', name))

    def hier(self):
        """a or a.b or a[3].b : list of names and ('[', expr)."""
        name = [self.ident()]
        while True:
            if self.at('.') and self.kind(1) == 'id':
                self.next()
                name.append(self.ident())
                continue
            if self.at('['):
                # a[e].b ?
                depth, q = 0, self.p
                while True:
                    v = self.toks[q]
                    if v[0] == 'op' and v[1] == '[':
                        depth += 1
                    elif v[0] == 'op' and v[1] == ']':
                        depth -= 1
                        if depth == 0:
                            break
                    elif v[0] == 'eof':
                        raise VError('unbalanced [')
                    q += 1
                if self.toks[q + 1] == ('op', '.') and self.toks[q + 2][0] == 'id':
                    self.expect('[')
                    e = self.expr()
                    self.expect(']')
                    name.append(('[', e))
                    continue
            return name

    def selects(self, e):
        while self.accept('['):
            a = self.expr()
            if self.accept(':'):
                b = self.expr()
                e = ('part', e, a, b)
            elif self.accept('+:'):
                e = ('ipart', e, a, self.expr(), True)
            elif self.accept('-:'):
                e = ('ipart', e, a, self.expr(), False)
            else:
                e = ('sel', e, a)
            self.expect(']')
        return e

    def lvalue(self):
        if self.accept('{'):
            es = [self.lvalue()]
            while self.accept(','):
                es.append(self.lvalue())
            self.expect('}')
            return ('cat', es)
        return self.selects(('id', self.hier()))

    # ---- declarations
    def range_opt(self):
        if self.accept('['):
            a = self.expr()
            self.expect(':')
            b = self.expr()
            self.expect(']')
            return (a, b)
        return None

    def source(self):
        mods = {}
        while self.kind() != 'eof':
            m = self.module()
            if m['name'] in mods:
                raise VError('module %s defined twice' % m['name'])
            mods[m['name']] = m
        return mods

    def module(self):
        self.expect('module')
        m = {'name': self.ident(), 'params': [], 'ports': [], 'items': []}
        if self.accept('#'):
            self.expect('(')
            while not self.accept(')'):
                self.accept('parameter')
                self.accept('signed')
                r = self.range_opt()
                nm = self.ident()
                self.expect('=')
                m['items'].append(('param', nm, r, self.expr(), False))
                m['params'].append(nm)
                self.accept(',')
        if self.accept('('):
            cur = None
            while not self.accept(')'):
                if self.peek() in ('input', 'output', 'inout') and self.kind() == 'kw':
                    cur = self.port_head()
                nm = self.ident()
                m['ports'].append(nm)
                if cur:
                    m['items'].append(('decl', cur, nm, []))
                self.accept(',')
        self.expect(';')
        while not self.accept('endmodule'):
            self.item(m['items'], m)
        return m

    def port_head(self):
        d = {'dir': self.next(), 'reg': False, 'signed': False, 'range': None, 'kind': None}
        if self.accept('wire') or self.accept('tri'):
            pass
        elif self.accept('reg'):
            d['reg'] = True
        if self.accept('signed'):
            d['signed'] = True
        d['range'] = self.range_opt()
        return d

    def item(self, items, m=None):
        v = self.peek()
        k = self.kind()
        if k == 'kw':
            if v in ('input', 'output', 'inout'):
                h = self.port_head()
                self.names(items, h)
                return
            if v in ('wire', 'reg', 'integer', 'genvar', 'tri'):
                self.next()
                h = {'dir': None, 'reg': v in ('reg', 'integer'), 'signed': v == 'integer', 'range': None, 'kind': v}
                if self.accept('signed'):
                    h['signed'] = True
                h['range'] = self.range_opt()
                if v in ('integer', 'genvar'):
                    h['range'] = (number('31'), number('0'))
                self.names(items, h)
                return
            if v in ('supply0', 'supply1'):
                self.next()
                r = self.range_opt()
                while True:
                    nm = self.ident()
                    h = {'dir': None, 'reg': False, 'signed': False, 'range': r, 'kind': 'wire'}
                    items.append(('decl', h, nm, []))
                    one = ('num', 0, 1, False, True)
                    items.append(('assign', ('id', [nm]), one if v == 'supply0' else ('un', '~', one)))
                    if not self.accept(','):
                        break
                self.expect(';')
                return
            if v in ('parameter', 'localparam'):
                self.next()
                sg = self.accept('signed')
                r = self.range_opt()
                while True:
                    nm = self.ident()
                    self.expect('=')
                    items.append(('param', nm, r, self.expr(), v == 'localparam'))
                    if v == 'parameter' and m is not None and nm not in m['params']:
                        m['params'].append(nm)
                    if not self.accept(','):
                        break
                self.expect(';')
                return
            if v == 'assign':
                self.next()
                while True:
                    l = self.lvalue()
                    self.expect('=')
                    items.append(('assign', l, self.expr()))
                    if not self.accept(','):
                        break
                self.expect(';')
                return
            if v == 'always' or v == 'always_ff':
                self.next()
                items.append(('always', self.sens(), self.stmt()))
                return
            if v in ('always_comb', 'always_latch'):
                self.next()
                items.append(('always', '*', self.stmt()))
                return
            if v in GATES:
                self.gate(items)
                return
            if v == 'initial':
                self.next()
                self.stmt()
                return
            if v == 'function':
                items.append(self.function())
                return
            if v == 'generate':
                self.next()
                while not self.accept('endgenerate'):
                    self.item(items, m)
                return
            if v == 'for':
                self.next()
                self.expect('(')
                iv = self.ident()
                self.expect('=')
                init = self.expr()
                self.expect(';')
                cond = self.expr()
                self.expect(';')
                iv2 = self.ident()
                self.expect('=')
                step = self.expr()
                self.expect(')')
                if iv != iv2:
                    raise VError('generate-for variables differ')
                label, body = self.gblock()
                items.append(('gfor', iv, init, cond, step, label, body))
                return
            if v == 'if':
                self.next()
                self.expect('(')
                c = self.expr()
                self.expect(')')
                t = self.gblock()
                f = None
                if self.accept('else'):
                    f = self.gblock()
                items.append(('gif', c, t, f))
                return
            if v == 'begin':
                items.append(('gblk',) + self.gblock())
                return
            raise VError('item %r' % v)
        if k == 'op' and v == ';':
            self.next()
            return
        if k == 'id':
            self.instance(items)
            return
        raise VError('item %r' % v)

    def gate(self, items):
        op = self.next()
        while True:
            if self.kind() == 'id':
                self.next()
            self.expect('(')
            args = [self.expr()]
            while self.accept(','):
                args.append(self.expr())
            self.expect(')')
            if op in ('not', 'buf') and len(args) != 2 or len(args) < 2:
                raise VError('terminals of a gate')
            e = args[1]
            for a in args[2:]:
                e = ('bin', {'a': '&', 'n': '&' if op == 'nand' else '|', 'o': '|', 'x': '^'}[op[0]], e, a)
            if op in ('nand', 'nor', 'xnor', 'not'):
                e = ('un', '~', e)
            items.append(('assign', args[0], e))
            if not self.accept(','):
                break
        self.expect(';')

    def gblock(self):
        items = []
        label = None
        if self.accept('begin'):
            if self.accept(':'):
                label = self.ident()
            while not self.accept('end'):
                self.item(items)
        else:
            self.item(items)
        return label, items

    def names(self, items, h):
        while True:
            nm = self.ident()
            dims = []
            while self.at('['):
                dims.append(self.range_opt())
            items.append(('decl', h, nm, dims))
            if self.accept('='):
                e = self.expr()
                if h['reg']:
                    raise VError('reg with initial value')
                items.append(('assign', ('id', [nm]), e))
            if not self.accept(','):
                break
        self.expect(';')

    def instance(self, items):
        mod = self.ident()
        params = []
        if self.accept('#'):
            self.expect('(')
            while not self.accept(')'):
                if self.accept('.'):
                    nm = self.ident()
                    self.expect('(')
                    params.append((nm, self.expr()))
                    self.expect(')')
                else:
                    params.append((None, self.expr()))
                self.accept(',')
        while True:
            nm = self.ident()
            if self.at('['):
                raise VError('instance arrays are outside the subset')
            self.expect('(')
            conns = []
            while not self.accept(')'):
                if self.accept('.'):
                    pn = self.ident()
                    self.expect('(')
                    conns.append((pn, None if self.at(')') else self.expr()))
                    self.expect(')')
                elif self.at(','):
                    conns.append((None, None))
                else:
                    conns.append((None, self.expr()))
                self.accept(',')
            items.append(('inst', mod, nm, params, conns))
            if not self.accept(','):
                break
        self.expect(';')

    def function(self):
        self.expect('function')
        sg = self.accept('signed')
        r = self.range_opt()
        if self.accept('integer'):
            r, sg = (number('31'), number('0')), True
        nm = self.ident()
        items = []
        if self.accept('('):
            cur = None
            while not self.accept(')'):
                if self.peek() in ('input', 'output', 'inout'):
                    cur = self.port_head()
                items.append(('decl', cur, self.ident(), []))
                self.accept(',')
        self.expect(';')
        while self.kind() == 'kw' and self.peek() in ('input', 'reg', 'integer', 'localparam', 'parameter'):
            self.item(items)
        body = []
        while not self.accept('endfunction'):
            body.append(self.stmt())
        return ('func', nm, r, sg, items, ('block', None, [], body))

    def sens(self):
        if not self.accept('@'):
            raise VError('always without sensitivity list')
        if self.accept('*'):
            return '*'
        self.expect('(')
        if self.accept('*'):
            self.expect(')')
            return '*'
        ret = []
        while True:
            edge = None
            if self.peek() in ('posedge', 'negedge'):
                edge = self.next()
            ret.append((edge, self.expr()))
            if not (self.accept('or') or self.accept(',')):
                break
        self.expect(')')
        return ret

    # ---- statements
    def stmt(self):
        v = self.peek()
        if self.accept(';'):
            return ('null',)
        if self.accept('begin'):
            label = None
            decls = []
            if self.accept(':'):
                label = self.ident()
            while self.kind() == 'kw' and self.peek() in ('reg', 'integer', 'localparam', 'parameter'):
                self.item(decls)
            body = []
            while not self.accept('end'):
                body.append(self.stmt())
            return ('block', label, decls, body)
        if self.accept('if'):
            self.expect('(')
            c = self.expr()
            self.expect(')')
            t = self.stmt()
            f = None
            if self.accept('else'):
                f = self.stmt()
            return ('if', c, t, f)
        if v == 'unique' and self.kind() == 'kw':
            self.next()
            v = self.peek()
        if v in ('case', 'casex', 'casez') and self.kind() == 'kw':
            self.next()
            self.expect('(')
            e = self.expr()
            self.expect(')')
            arms = []
            while not self.accept('endcase'):
                if self.accept('default'):
                    self.accept(':')
                    arms.append((None, self.stmt()))
                else:
                    labels = [self.label(v)]
                    while self.accept(','):
                        labels.append(self.label(v))
                    self.expect(':')
                    arms.append((labels, self.stmt()))
            return ('case', e, arms)
        if self.accept('for'):
            self.expect('(')
            pre = self.assignment()
            self.expect(';')
            c = self.expr()
            self.expect(';')
            post = self.assignment()
            self.expect(')')
            return ('for', pre, c, post, self.stmt())
        if self.accept('while'):
            self.expect('(')
            c = self.expr()
            self.expect(')')
            return ('while', c, self.stmt())
        if self.kind() == 'sys':
            while not self.accept(';'):
                self.next()
            return ('null',)
        s = self.assignment()
        self.expect(';')
        return s

    def label(self, kind):
        if self.kind() == 'num' and kind != 'case' and re.search("'.*[xXzZ?]", self.peek()):
            e = wild(self.next())
            if kind == 'casez' and 'x' in e[4]:
                raise VError('x digits in a casez label')
            return e
        return self.expr()

    def assignment(self):
        l = self.lvalue()
        if self.accept('='):
            return ('ba', l, self.expr())
        self.expect('<=')
        return ('nba', l, self.expr())


def parse(text):
    return Parser(text).source()


# ------------------------------------------------------------------ elaboration
class Sig(object):
    __slots__ = ('name', 'index', 'width', 'msb', 'lsb', 'signed', 'depth', 'abase', 'kind', 'dir', 'isreg', 'top', 'ndim')

    def bitpos(self, i):
        return i - self.lsb if self.msb >= self.lsb else self.lsb - i


class Scope(object):
    """Names visible at one place; maps a name to ('sig', Sig), ('const', ...), ('func', ...), ('scope', Scope)."""

    def __init__(self, path, parent=None, module=False):
        self.path = path
        self.parent = parent
        self.names = {}
        self.module = module

    def lookup(self, n):
        s = self
        while s is not None:
            if n in s.names:
                return s.names[n]
            if s.module:
                return None
            s = s.parent
        return None


class Func(object):
    def __init__(self, name, scope, ret, ports, body, path):
        self.name, self.scope, self.ret, self.ports, self.body, self.path = name, scope, ret, ports, body, path


class Design(object):
    def __init__(self):
        self.sigs = []           # Sig by index
        self.byname = {}
        self.assigns = []        # (lvalue, rvalue) resolved
        self.procs = []          # {'sens': '*' or [(edge, expr)], 'body': stmt}
        self.funcs = []
        self.inputs = []
        self.outputs = []
        self.consts = {}         # hierarchical name -> (value, width)
        self.top = None


MAXSIG = 4000


class Elaborator(object):
    def __init__(self, mods):
        self.mods = mods
        self.d = Design()

    def run(self, top, params=None):
        self.d.top = top
        m = self.mods.get(top)
        if m is None:
            raise VError('no module %s' % top)
        sc = self.module(m, top, {}, True)
        for p in m['ports']:
            k, s = sc.names.get(p, (None, None))
            if k != 'sig':
                raise VError('port %s is not declared' % p)
            (self.d.inputs if s.dir == 'input' else self.d.outputs).append(s)
        return self.d

    # -- constants
    def const(self, e, sc):
        r = self.res(e, sc)
        v = const_value(r)
        if v is None:
            raise VError('constant expected')
        return v

    def newsig(self, path, h, rng, dims, sc):
        s = Sig()
        s.name = path
        s.msb, s.lsb = (self.const(rng[0], sc), self.const(rng[1], sc)) if rng else (0, 0)
        s.width = abs(s.msb - s.lsb) + 1
        if s.width > 512:
            raise VError('signal too wide')
        s.signed = bool(h['signed'])
        s.depth = 0
        s.abase = 0
        s.ndim = len(dims)
        if dims:
            if len(dims) > 1:
                raise VError('multi-dimensional array')
            a, b = self.const(dims[0][0], sc), self.const(dims[0][1], sc)
            s.abase = min(a, b)
            s.depth = abs(a - b) + 1
        s.kind = h['kind']
        s.dir = h['dir']
        s.isreg = h['reg']
        s.index = len(self.d.sigs)
        if s.index > MAXSIG:
            raise VError('too many signals')
        self.d.sigs.append(s)
        if path in self.d.byname:
            raise VError('%s declared twice' % path)
        self.d.byname[path] = s
        return s

    def declare(self, items, sc):
        """First pass over one scope: parameters, then signals and functions."""
        for it in items:
            if it[0] == 'decl':
                h, nm, dims = it[1], it[2], it[3]
                old = sc.names.get(nm)
                if old is not None and old[0] == 'sig':
                    s = old[1]
                    # second declaration of a port (output y; reg y;)
                    if h['reg']:
                        s.isreg = True
                    if h['signed']:
                        s.signed = True
                    if h['dir']:
                        s.dir = h['dir']
                    if h['range'] is not None and s.width == 1:
                        s.msb, s.lsb = self.const(h['range'][0], sc), self.const(h['range'][1], sc)
                        s.width = abs(s.msb - s.lsb) + 1
                    if dims:
                        raise VError('array port')
                    continue
                if h['kind'] == 'genvar':
                    sc.names.setdefault(nm, ('genvar', None))
                    continue
                s = self.newsig(sc.path + '.' + nm, h, h['range'], dims, sc)
                s.top = False
                sc.names[nm] = ('sig', s)
            elif it[0] == 'func':
                _, nm, r, sg, fitems, body = it
                fsc = Scope(sc.path + '.' + nm, sc)
                ports = []
                f = Func(nm, fsc, None, ports, body, fsc.path)
                f.signed = sg
                w = 1
                if r is not None:
                    w = abs(self.const(r[0], sc) - self.const(r[1], sc)) + 1
                f.width = w
                f.msb, f.lsb = (self.const(r[0], sc), self.const(r[1], sc)) if r else (0, 0)
                f.items = fitems
                sc.names[nm] = ('func', f)
                f.vars = {}

                def var(n, h):
                    v = Sig()
                    v.name = fsc.path + '.' + n
                    rr = h['range']
                    v.msb, v.lsb = (self.const(rr[0], fsc), self.const(rr[1], fsc)) if rr else (0, 0)
                    v.width = abs(v.msb - v.lsb) + 1
                    v.signed = bool(h['signed'])
                    v.depth, v.abase, v.kind, v.dir, v.isreg, v.top, v.ndim = 0, 0, h['kind'], h['dir'], True, False, 0
                    v.index = -1
                    f.vars[n] = v
                    fsc.names[n] = ('lvar', v)
                    return v
                rv = var(nm, {'range': r, 'signed': sg, 'kind': 'ret', 'dir': None})
                f.ret = rv
                for fi in fitems:
                    if fi[0] == 'param':
                        self.param(fi, fsc, {})
                    elif fi[0] == 'decl':
                        v = var(fi[2], fi[1])
                        if fi[1]['dir'] == 'input':
                            ports.append(v)
                self.d.funcs.append(f)

    def param(self, it, sc, over):
        _, nm, r, e, local = it
        res = over.get(nm) if not local and nm in over else self.res(e, sc)
        v = const_value(res)
        if v is None:
            raise VError('parameter %s is not constant' % nm)
        if r is not None:
            w = abs(self.const(r[0], sc) - self.const(r[1], sc)) + 1
            node = ('num', v & ((1 << w) - 1), w, False, True)
        else:
            w, sg = size(res), signed(res)
            node = ('num', v & ((1 << w) - 1), w, sg, True)
        sc.names[nm] = ('const', node, self.const(r[1], sc) if r is not None else 0)
        self.d.consts[sc.path + '.' + nm] = node

    def module(self, m, path, over, top=False, depth=0):
        if depth > 12:
            raise VError('instance recursion')
        sc = Scope(path, None, True)
        for it in m['items']:
            if it[0] == 'param':
                self.param(it, sc, over)
        for n in over:
            if n not in m['params']:
                raise VError('no parameter %s' % n)
        self.declare(m['items'], sc)
        self.items(m['items'], sc, depth, m)
        return sc

    def items(self, items, sc, depth, m):
        for it in items:
            k = it[0]
            if k in ('decl', 'param', 'func'):
                continue
            if k == 'assign':
                self.implicit(it[1], sc)
                l, r = self.lval(it[1], sc), self.res(it[2], sc)
                self.d.assigns.append((l, r, sc.path))
            elif k == 'always':
                sens = it[1]
                if sens != '*':
                    sens = [(e, self.res(x, sc)) for e, x in sens]
                body = self.stmt(it[2], sc)
                self.d.procs.append({'sens': sens, 'body': body, 'path': sc.path})
            elif k == 'inst':
                self.inst(it, sc, depth)
            elif k == 'gfor':
                _, iv, init, cond, step, label, body = it
                v = self.const(init, sc)
                n = 0
                while True:
                    gs = Scope('%s.%s[%d]' % (sc.path, label, v), sc)
                    gs.names[iv] = ('const', ('num', v & 0xffffffff, 32, True, False))
                    if not self.const(cond, gs):
                        break
                    sc.names['%s[%d]' % (label, v)] = ('scope', gs)
                    for x in body:
                        if x[0] == 'param':
                            self.param(x, gs, {})
                    self.declare(body, gs)
                    self.items(body, gs, depth, m)
                    v = self.const(step, gs)
                    n += 1
                    if n > 256:
                        raise VError('generate-for too long')
            elif k == 'gif':
                _, c, t, f = it
                blk = t if self.const(c, sc) else f
                if blk is not None:
                    self.gblk(blk, sc, depth, m)
            elif k == 'gblk':
                self.gblk((it[1], it[2]), sc, depth, m)
            else:
                raise VError(k)

    def gblk(self, blk, sc, depth, m):
        label, body = blk
        gs = Scope(sc.path + '.' + label, sc) if label else sc
        if label:
            sc.names[label] = ('scope', gs)
        for x in body:
            if x[0] == 'param':
                self.param(x, gs, {})
        self.declare(body, gs)
        self.items(body, gs, depth, m)

    def implicit(self, l, sc):
        if l[0] == 'id' and len(l[1]) == 1 and sc.lookup(l[1][0]) is None:
            h = {'dir': None, 'reg': False, 'signed': False, 'range': None, 'kind': 'wire'}
            s = self.newsig(sc.path + '.' + l[1][0], h, None, [], sc)
            s.top = False
            sc.names[l[1][0]] = ('sig', s)

    def inst(self, it, sc, depth):
        _, mod, nm, params, conns = it
        m = self.mods.get(mod)
        if m is None:
            raise VError('no module %s' % mod)
        over = {}
        for i, (pn, e) in enumerate(params):
            if pn is None:
                pn = m['params'][i]
            over[pn] = self.res(e, sc)
        child = self.module(m, sc.path + '.' + nm, over, depth=depth + 1)
        for i, (pn, e) in enumerate(conns):
            if pn is None:
                pn = m['ports'][i]
            if pn not in m['ports']:
                raise VError('no port %s' % pn)
            if e is None:
                continue
            k, s = child.names[pn]
            ref = ('sig', s)
            if s.dir == 'input':
                self.d.assigns.append((ref, self.res(e, sc), child.path))
            elif s.dir == 'output':
                if e[0] == 'id':
                    self.implicit(e, sc)
                self.d.assigns.append((self.lval(e, sc), ref, sc.path))
            else:
                raise VError('inout')
        sc.names[nm] = ('scope', child)

    # -- name resolution
    def find(self, name, sc):
        if len(name) == 1:
            r = sc.lookup(name[0])
            if r is None:
                raise VError('unknown name %s' % name[0])
            return r
        # hierarchical reference
        keys = []
        for n in name:
            if isinstance(n, tuple):
                keys[-1] = '%s[%d]' % (keys[-1], self.const(n[1], sc))
            else:
                keys.append(n)
        s = sc
        while s is not None:
            if keys[0] in s.names:
                cur = s.names[keys[0]]
                for kk in keys[1:]:
                    if cur[0] != 'scope' or kk not in cur[1].names:
                        raise VError('cannot resolve %s' % '.'.join(keys))
                    cur = cur[1].names[kk]
                return cur
            s = s.parent
        raise VError('unknown name %s' % '.'.join(keys))

    def res(self, e, sc):
        k = e[0]
        if k == 'num' or k == 'wild':
            return e
        if k == 'id':
            r = self.find(e[1], sc)
            if r[0] == 'const':
                return r[1]
            if r[0] == 'sig':
                if r[1].depth:
                    raise VError('array used as a whole')
                return ('sig', r[1])
            if r[0] == 'lvar':
                return ('lvar', r[1])
            raise VError('not a value: %s' % (e[1],))
        if k == 'sel':
            base = e[1]
            if base[0] == 'id':
                r = self.find(base[1], sc)
                idx = self.res(e[2], sc)
                if r[0] == 'sig' and r[1].depth:
                    return ('mem', r[1], idx)
                if r[0] == 'const':
                    v = const_value(idx)
                    z = r[2] if len(r) > 2 else 0
                    if v is None:
                        if z:
                            raise VError('variable select of a constant with an offset')
                        return ('bit', r[1], idx, 0)
                    if v < z:
                        raise VError('bit select of a constant')
                    return ('num', (r[1][1] >> v - z) & 1, 1, False, True)
                b = self.res(base, sc)
                return ('bit', b, idx, None)
            b = self.res(base, sc)
            if b[0] == 'mem':
                return ('bit', b, self.res(e[2], sc), None)
            raise VError('select of an expression')
        if k == 'part':
            b = self.res(e[1], sc)
            a, c = self.const(e[2], sc), self.const(e[3], sc)
            if b[0] == 'num' and e[1][0] == 'id':
                r = self.find(e[1][1], sc)
                z = r[2] if len(r) > 2 else 0
                a, c = a - z, c - z
            return part(b, a, c)
        if k == 'ipart':
            b = self.res(e[1], sc)
            w = self.const(e[3], sc)
            st = self.res(e[2], sc)
            v = const_value(st)
            s = selsig(b)
            if v is not None:
                lo, hi = (v, v + w - 1) if e[4] else (v - w + 1, v)
                return part(b, hi, lo) if s is None or s.msb >= s.lsb else part(b, lo, hi)
            if s is not None and s.msb < s.lsb:
                raise VError('variable part select of a reversed range')
            return ('ipart', b, st, w, e[4])
        if k == 'un':
            return ('un', e[1], self.res(e[2], sc))
        if k == 'bin':
            return ('bin', e[1], self.res(e[2], sc), self.res(e[3], sc))
        if k == 'cond':
            return ('cond', self.res(e[1], sc), self.res(e[2], sc), self.res(e[3], sc))
        if k == 'cat':
            es = [self.res(x, sc) for x in e[1]]
            for x in es:
                if x[0] == 'num' and not x[4]:
                    raise VError('unsized number in a concatenation')
            return ('cat', es)
        if k == 'rep':
            n = self.const(e[1], sc)
            if n <= 0 or n > 512:
                raise VError('replication count')
            return ('cat', [self.res(e[2], sc)] * n)
        if k in ('signed', 'unsigned'):
            return (k, self.res(e[1], sc))
        if k == 'call':
            r = sc.lookup(e[1])
            if r is None or r[0] != 'func':
                raise VError('no function %s' % e[1])
            f = r[1]
            if len(f.ports) != len(e[2]):
                raise VError('argument count of %s' % e[1])
            return ('call', f, [self.res(x, sc) for x in e[2]])
        raise VError(k)

    def lval(self, l, sc):
        if l[0] == 'cat':
            return ('cat', [self.lval(x, sc) for x in l[1]])
        return self.res(l, sc)

    def stmt(self, s, sc):
        k = s[0]
        if k == 'null':
            return s
        if k == 'block':
            inner = sc
            if s[1] is not None:
                inner = Scope(sc.path + '.' + s[1], sc)
                sc.names[s[1]] = ('scope', inner)
            for it in s[2]:
                if it[0] == 'param':
                    self.param(it, inner, {})
            self.declare(s[2], inner)
            return ('block', [self.stmt(x, inner) for x in s[3]])
        if k == 'if':
            return ('if', self.res(s[1], sc), self.stmt(s[2], sc), None if s[3] is None else self.stmt(s[3], sc))
        if k == 'case':
            arms = [(None if ls is None else [self.res(x, sc) for x in ls], self.stmt(b, sc)) for ls, b in s[2]]
            return ('case', self.res(s[1], sc), arms)
        if k == 'for':
            return ('for', self.stmt(s[1], sc), self.res(s[2], sc), self.stmt(s[3], sc), self.stmt(s[4], sc))
        if k == 'while':
            return ('while', self.res(s[1], sc), self.stmt(s[2], sc))
        if k in ('ba', 'nba'):
            return (k, self.lval(s[1], sc), self.res(s[2], sc))
        raise VError(k)


def selsig(b):
    if b[0] in ('sig', 'lvar', 'mem', 'rn'):
        return b[1]
    return None


def part(b, a, c):
    s = selsig(b)
    if s is None:
        if b[0] == 'num':
            if a < c or c < 0:
                raise VError('part select of a constant')
            return ('num', (b[1] >> c) & ((1 << (a - c + 1)) - 1), a - c + 1, False, True)
        raise VError('part select of %s' % b[0])
    lo_ok = min(s.msb, s.lsb) <= min(a, c) and max(a, c) <= max(s.msb, s.lsb)
    if not lo_ok:
        raise VError('part select out of range: %s[%d:%d]' % (s.name, a, c))
    if (s.msb >= s.lsb and a < c) or (s.msb < s.lsb and a > c):
        raise VError('reversed part select')
    lo = s.bitpos(c)
    return ('part', b, lo, abs(a - c) + 1)


# --------------------------------------------------- size, signedness, constants
ARITH = {'+', '-', '*', '/', '%', '&', '|', '^', '~^'}
CMP = {'==', '!=', '===', '!==', '<', '<=', '>', '>='}
SHIFT = {'<<', '>>', '<<<', '>>>', '**'}


def size(e):
    k = e[0]
    if k in ('num', 'ev'):
        return e[2]
    if k == 'wild':
        return e[3]
    if k in ('sig', 'lvar', 'mem', 'rn'):
        return e[1].width
    if k in ('bit', 'xbit', 'weq'):
        return 1
    if k in ('part', 'ipart', 'xpart'):
        return e[3]
    if k == 'un':
        return size(e[2]) if e[1] in ('+', '-', '~') else 1
    if k == 'bin':
        if e[1] in ARITH:
            return max(size(e[2]), size(e[3]))
        if e[1] in SHIFT:
            return size(e[2])
        return 1
    if k == 'cond':
        return max(size(e[2]), size(e[3]))
    if k == 'cat':
        return sum(size(x) for x in e[1])
    if k in ('signed', 'unsigned'):
        return size(e[1])
    if k == 'call':
        return e[1].width
    raise VError(k)


def signed(e):
    k = e[0]
    if k == 'num':
        return e[3]
    if k in ('sig', 'lvar', 'mem', 'rn'):
        return e[1].signed
    if k == 'un':
        return signed(e[2]) if e[1] in ('+', '-', '~') else False
    if k == 'bin':
        if e[1] in ARITH:
            return signed(e[2]) and signed(e[3])
        if e[1] in SHIFT:
            return signed(e[2])
        return False
    if k == 'cond':
        return signed(e[2]) and signed(e[3])
    if k == 'signed':
        return True
    if k == 'call':
        return e[1].signed
    return False


def isconst(e):
    k = e[0]
    if k in ('num', 'ev'):
        return True
    if k in ('sig', 'lvar', 'mem', 'bit', 'part', 'ipart', 'call'):
        return False
    if k == 'un':
        return isconst(e[2])
    if k == 'bin':
        return isconst(e[2]) and isconst(e[3])
    if k == 'cond':
        return all(isconst(x) for x in e[1:])
    if k == 'cat':
        return all(isconst(x) for x in e[1])
    if k in ('signed', 'unsigned'):
        return isconst(e[1])
    return False


def const_value(e):
    """Python integer (negative if signed) or None."""
    if not isconst(e):
        return None
    from . import vsim
    w = size(e)
    v = vsim.eval_const(e, w)
    if signed(e) and v >> (w - 1):
        v -= 1 << w
    return v


def elaborate(text, top, params=None):
    return Elaborator(parse(text)).run(top)
