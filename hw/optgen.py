"""Seeded designs for the dataflow transformations: what the optimizer, the merging of parts and the walker rewrite.

Every vector has the same width, so that walking through a signal does not change where a value is cut."""


def design(r):
    """{'top', 'modules': [{'head', 'items'}]} as hw.gen makes them."""
    return O(r).design()


class O(object):
    def __init__(self, r):
        self.r = r
        self.U = r.choice([2, 4, 8, 8, 8, 16, 32, 32])
        self.vec = ['a', 'b', 'c']
        self.one = ['s', 't', 'u']
        self.pool = []
        self.n = 0
        self.lps = []
        self.off = {}                # lowest index of a localparam or vector where it is not 0
        self.conds = []              # the last conditions
        self.cond_ok = True

    # ------------------------------------------------------------- expressions
    def k(self, w, v=None):
        r = self.r
        if v is None:
            v = r.choice([0, 1, 2, 3, (1 << w) - 1, r.randrange(1 << w)]) & ((1 << w) - 1)
        f = r.random()
        return "%d'd%d" % (w, v) if f < 0.5 else "%d'h%x" % (w, v) if f < 0.8 else "%d'b%s" % (w, format(v, 'b'))

    def v(self):
        return self.r.choice(self.vec)

    def kexpr(self, d=2):
        """A constant expression of U bits."""
        r = self.r
        if d == 0 or r.random() < 0.2:
            return r.choice(self.lps) if self.lps and r.random() < 0.6 else self.k(self.U)
        k = r.random()
        if k < 0.6:
            return '(%s %s %s)' % (self.kexpr(d - 1), r.choice(['+', '-', '*', '&', '|', '^', '~^', '+', '&', '|']), self.kexpr(d - 1))
        if k < 0.7:
            return '(%s %s %s)' % (self.kexpr(d - 1), r.choice(['/', '%']), self.k(self.U, r.randrange(1, min(1 << self.U, 12))))
        if k < 0.82:
            return '(%s %s %s)' % (self.kexpr(d - 1), r.choice(['<<', '>>', '<<<', '>>>']), r.choice(['0', '1', '2', "2'd3"]))
        if k < 0.9:
            return '(%s%s)' % (r.choice(['~', '-', '+']), self.kexpr(d - 1))
        if self.U >= 4 and k < 0.96:
            h = self.U // 2
            return "{%s, %s}" % (self.k(h), self.kcut(h))
        return '(%s ? %s : %s)' % (self.kbool(d - 1), self.kexpr(d - 1), self.kexpr(d - 1))

    def kcut(self, w):
        """A constant of w bits made of a larger one."""
        r = self.r
        if self.lps and r.random() < 0.6:
            n = r.choice(self.lps)
            lo = r.randrange(self.U - w + 1) + self.off.get(n, 0)
            return '%s[%d:%d]' % (n, lo + w - 1, lo)
        if w == 1:
            return self.kbool(1)
        return '{%s, %s}' % (self.kbool(1), self.k(w - 1))

    def kbool(self, d=1):
        r = self.r
        k = r.random()
        if k < 0.5:
            return '(%s %s %s)' % (self.kexpr(d), r.choice(['==', '!=', '<', '>', '<=', '>=', '===', '!==']), self.kexpr(d))
        if k < 0.7:
            return '(%s%s)' % (r.choice(['&', '|', '^', '~&', '~|', '~^', '!']), self.kexpr(d))
        if k < 0.85:
            return '(%s %s %s)' % (self.kexpr(d), r.choice(['&&', '||']), self.kexpr(d))
        if self.lps and k < 0.95:
            n = r.choice(self.lps)
            return '%s[%d]' % (n, r.randrange(self.U) + self.off.get(n, 0))
        return self.k(1)

    def bit(self):
        r = self.r
        if self.pool and r.random() < 0.55:
            return r.choice(self.pool)
        k = r.random()
        if k < 0.3:
            t = r.choice(self.one)
        elif k < 0.5:
            t = self.cut(1, True)
        elif k < 0.75:
            t = '(%s == %s)' % (self.v(), self.k(self.U, r.randrange(min(4, 1 << self.U))))
        elif k < 0.9:
            t = '(%s %s %s)' % (self.v(), r.choice(['==', '!=', '<', '>', '<=', '>=', '===', '!==']), self.v())
        else:
            t = '(%s %s %s)' % (self.v(), r.choice(['==', '<', '>=']), self.kexpr(1))
        self.pool.append(t)
        return t

    def bool(self, d=3):
        r = self.r
        if d == 0 or r.random() < 0.12:
            return self.bit()
        k = r.random()
        if k < 0.3:
            return '(%s && %s)' % (self.bool(d - 1), self.bool(d - 1))
        if k < 0.6:
            return '(%s || %s)' % (self.bool(d - 1), self.bool(d - 1))
        if k < 0.72:
            return '(!%s)' % self.bool(d - 1)
        if k < 0.78:
            return '(~%s)' % r.choice(self.one + [self.bit()])
        if k < 0.86:
            return '(%s %s %s)' % (self.bool(d - 1), r.choice(['&', '|', '^', '&', '|']), self.bool(d - 1))
        if k < 0.92:
            x, o = self.vx(1), r.choice(['&&', '||'])
            y = r.choice([self.vx(1), '(!%s)' % self.v(), '(~%s)' % self.v(), x, self.kexpr(1), self.k(self.U), self.kbool(1)])
            return '(%s %s %s)' % ((x, o, y) if r.random() < 0.6 else (y, o, x))
        if k < 0.95:
            return '(%s%s)' % (r.choice(['&', '|', '^', '~&', '~|', '~^', '!']), self.vx(1))
        if k < 0.97:
            return self.kbool(1)
        x = self.bit()
        return '(%s && !%s)' % (x, x) if r.random() < 0.5 else '((%s && %s) || (!%s && %s))' % (x, self.v(), x, self.v())

    def vx(self, d=2):
        """A vector expression of U bits."""
        r, U = self.r, self.U
        k = r.random()
        if d == 0 or k < 0.14:
            return self.v()
        if k < 0.22:
            return self.kexpr(2)
        if k < 0.32:
            x = self.vx(d - 1)
            y = r.choice([x, '(~%s)' % x, '(!%s)' % x, self.k(U, 0), self.k(U, (1 << U) - 1)])
            if r.random() < 0.5:
                x, y = y, x
            return '(%s %s %s)' % (x, r.choice(['&', '|', '^', '&', '|', '-']), y)
        if k < 0.46:
            p = self.k(U, 1 << r.randrange(U))
            if r.random() < 0.2:
                p = self.k(U)
            x = self.vx(d - 1)
            return '(%s %s %s)' % ((x, r.choice(['*', '*', '/']), p) if r.random() < 0.75 or '0' == p[-1] else (p, '*', x))
        if k < 0.6:
            return self.cat(d - 1)
        if k < 0.7:
            return '(%s ? %s : %s)' % (self.bool(1), self.vx(d - 1), self.vx(d - 1))
        if k < 0.76:
            return '(%s%s)' % (r.choice(['~', '-', '+']), self.vx(d - 1))
        if k < 0.82:
            return '(%s %s %s)' % (self.vx(d - 1), r.choice(['<<', '>>', '<<<', '>>>']), r.choice(['0', '1', '2', "2'd3", 's', 'a[1:0]' if U > 1 else 't']))
        return '(%s %s %s)' % (self.vx(d - 1), r.choice(['+', '-', '&', '|', '^', '~^', '*']), self.vx(d - 1))

    def piece(self, w):
        r, U = self.r, self.U
        k = r.random()
        if w == U and k < 0.5:
            return self.v()
        if w == 1 and k < 0.5:
            return self.bit()
        if k < 0.2:
            return self.kcut(w) if r.random() < 0.5 and w <= U else self.k(w)
        if k < 0.3:
            return '(%s ? %s : %s)' % (r.choice(self.one), self.k(w), self.k(w))
        if w > 2 and k < 0.38:                      # an operation as wide as its wider operand
            h = r.randint(1, w - 1)
            x, y = self.k(w, r.choice([0, 1, 2, 4, r.randrange(1, 1 << w)])), self.cut(h)
            o = r.choice(['*', '*', '|', '+', '&', '^', '-'])
            if o == '*' and r.random() < 0.3:
                return '(%s / %s)' % (y, self.k(w, r.choice([1, 2, 4, 8, 3]) % (1 << w) or 1))
            return '(%s %s %s)' % ((x, o, y) if r.random() < 0.5 else (y, o, x))
        return self.cut(w, k >= 0.7)

    def cut(self, w, one=False):
        r = self.r
        lo = r.randrange(self.U - w + 1)
        n = self.v()
        lo += self.off.get(n, 0)
        return '%s[%d:%d]' % (n, lo + w - 1, lo) if w > 1 or not one else '%s[%d]' % (n, lo)

    def split(self, tot):
        out = []
        while tot:
            w = self.r.randint(1, tot)
            out.append(w)
            tot -= w
        return out

    def cat(self, d=1):
        r, U = self.r, self.U
        if U == 1:
            return '{%s}' % self.bit()
        k = r.random()
        if k < 0.3:                                 # neighbouring parts of one vector
            x = self.v()
            c = r.randrange(1, U)
            z = self.off.get(x, 0)
            parts = ['%s[%d:%d]' % (x, U - 1 + z, c + z), '%s[%d:%d]' % (x, c - 1 + z, z)]
            if r.random() < 0.3:
                parts.reverse()
            return '{%s}' % ', '.join(parts)
        if k < 0.4 and U % 2 == 0:
            return '{2{%s}}' % self.piece(U // 2)
        ws = self.split(U)
        if k < 0.7 or len(ws) < 2:
            return '{%s}' % ', '.join(self.piece(w) for w in ws)
        h = r.randint(1, len(ws) - 1)
        return '{{%s}, %s}' % (', '.join(self.piece(w) for w in ws[:h]), ', '.join(self.piece(w) for w in ws[h:]))

    def fresh(self, b):
        self.n += 1
        return '%s%d' % (b, self.n)

    # -------------------------------------------------------------------- items
    def design(self):
        r, U = self.r, self.U
        R = '[%d:0]' % (U - 1)
        head = '  input CLK,\n  input RST,\n  input s,\n  input t,\n  input u,\n  input %s a,\n  input %s b,\n  input %s c' % (R, R, R)
        items = []
        par = []
        for j in range(r.choice([0, 1, 2])):
            n = 'P%d' % j
            par.append('parameter %s%s = %s' % (R + ' ' if r.random() < 0.7 or U != 32 else '', n, self.kexpr(1)))
            self.lps.append(n)
        for j in range(r.choice([0, 1, 2, 3])):
            n = self.fresh('L')
            lsb = r.choice([0, 0, 0, 4, 1])
            items.append('  localparam [%d:%d] %s = %s;' % (U - 1 + lsb, lsb, n, self.kexpr(2)))
            self.lps.append(n)
            self.off[n] = lsb
        for j in range(r.randint(3, 7)):
            getattr(self, 'i_' + r.choice(['wire', 'wire', 'wire', 'bit', 'parts', 'parts', 'reg', 'reg', 'regparts', 'regparts', 'comb', 'chain', 'func', 'mem', 'two']))(items)
        mods = []
        hp = ' #(%s)' % ', '.join(par) if par else ''
        mods.append({'name': 'TOP', 'head': 'module TOP%s (\n%s);' % (hp, head), 'decl': [], 'items': items})
        return {'top': 'TOP', 'feats': ['opt'], 'uniform': U, 'clocks': ['CLK'], 'rst': 'RST', 'modules': mods}

    def R(self, n=None):
        z = 0
        if n is not None and self.r.random() < 0.3:
            z = self.off[n] = self.r.choice([1, 3, 8])
        return '[%d:%d]' % (self.U - 1 + z, z)

    def i_wire(self, items):
        n = self.fresh('w')
        items.append('  wire %s %s;\n  assign %s = %s;' % (self.R(n), n, n, self.vx(3)))
        self.vec.append(n)

    def i_bit(self, items):
        n = self.fresh('x')
        items.append('  wire %s;\n  assign %s = %s;' % (n, n, self.bool(4)))
        self.one.append(n)

    def cuts(self):
        """Part ranges of a vector, high to low; some bits may be missing."""
        ws = self.split(self.U)
        out, hi = [], self.U - 1
        for w in ws:
            out.append((hi, hi - w + 1))
            hi -= w
        return out

    def sel(self, n, h, l):
        z = self.off.get(n, 0)
        h, l = h + z, l + z
        if h == l:
            return '%s[%d]' % (n, h)
        return '%s[%d:%d]' % (n, h, l)

    def i_parts(self, items):
        n = self.fresh('p')
        R = self.R(n)
        cs = self.cuts()
        self.r.shuffle(cs)
        items.append('  wire %s %s;\n%s' % (R, n, '\n'.join('  assign %s = %s;' % (self.sel(n, h, l), self.piece(h - l + 1)) for h, l in cs)))
        self.vec.append(n)

    def i_reg(self, items):
        n = self.fresh('r')
        rst = self.r.random() < 0.5
        body = self.stmts(n, 2)
        if rst:
            body = 'if(RST) begin %s <= %s; end else begin %s end' % (n, self.k(self.U), body)
        items.append('  reg %s %s;\n  always @(posedge CLK) begin %s end' % (self.R(n), n, body))
        self.vec.append(n)

    def cond(self):
        """A condition, often one of the last ones or what looks like its opposite."""
        r = self.r
        if self.conds and r.random() < 0.4:
            c = r.choice(self.conds)
            return c if r.random() < 0.4 else '(%s%s)' % (r.choice('!!~'), c)
        c = self.v() if r.random() < 0.15 else self.bool(2)
        self.conds = [c] + self.conds[:1]
        return c

    def stmts(self, n, d, part=None, op='<=', branch=False):
        r = self.r
        k = r.uniform(0.35, 0.75) if branch and d else r.random()
        tgt = n if part is None else self.sel(n, *part)
        if d == 0 or k < 0.35:
            return '%s %s %s;' % (tgt, op, self.vx(2) if part is None else self.piece(part[0] - part[1] + 1))
        if k < 0.75:
            c = self.cond()
            t = 'if(%s) begin %s end' % (c, self.stmts(n, d - 1, part, op))
            if r.random() < 0.6 or op == '=':
                t += ' else begin %s end' % self.stmts(n, d - 1, part, op)
            return t
        x = self.v()
        vals = sorted(set(r.randrange(1 << min(self.U, 3)) for _ in range(3)))
        t = 'case(%s) %s' % (x, ' '.join("%d'd%d: begin %s end" % (self.U, y, self.stmts(n, d - 1, part, op)) for y in vals))
        if r.random() < 0.6 or op == '=':
            t += ' default: begin %s end' % self.stmts(n, d - 1, part, op)
        return t + ' endcase'

    def i_regparts(self, items):
        """A register assigned part by part, in one or several processes, with equal or different conditions."""
        r = self.r
        n = self.fresh('q')
        R = self.R(n)
        cs = self.cuts()
        r.shuffle(cs)
        if len(cs) > 1 and r.random() < 0.25:
            cs.pop()
        k = r.random()
        if k < 0.2:                                 # later parts override earlier ones
            body, seen = '', set()                  # each range once: see the finding on assignments after parts
            for j in range(r.randint(2, 4)):
                h = r.randrange(self.U)
                c = (h, r.randint(0, h)) if j or r.random() < 0.2 else None
                if c not in seen:
                    body += self.stmts(n, r.choice([0, 1, 1, 2]), c, branch=r.random() < 0.7) + ' '
                seen.add(c)
            t = '  always @(posedge CLK) begin %s end' % body
        elif k < 0.35:
            body = ' '.join(self.stmts(n, 1, c) for c in cs)
            t = '  always @(posedge CLK) begin %s end' % body
        elif k < 0.6:
            c = self.bool(1)
            t = '  always @(posedge CLK) begin if(%s) begin %s end else begin %s end end' % (
                c, ' '.join(self.stmts(n, 0, x) for x in cs), ' '.join(self.stmts(n, 0, x) for x in cs if r.random() < 0.7) or '%s <= %s;' % (n, self.v()))
        else:
            t = '\n'.join('  always @(posedge CLK) begin %s end' % self.stmts(n, 1, c) for c in cs)
        items.append('  reg %s %s;\n%s' % (R, n, t))
        self.vec.append(n)

    def i_comb(self, items):
        n = self.fresh('c')
        R = self.R(n)
        cs = self.cuts()
        if self.r.random() < 0.5:
            body = self.stmts(n, 2, None, '=')
        else:
            body = ' '.join(self.stmts(n, 1, c, '=') for c in cs)
        items.append('  reg %s %s;\n  always @* begin %s end' % (R, n, body))
        self.vec.append(n)

    def i_chain(self, items):
        """A wide vector that is cut again."""
        r, U = self.r, self.U
        n, m = self.fresh('e'), self.fresh('f')
        lsb = r.choice([0, 0, 0, 3])
        lo = r.randrange(U + 1)
        items.append('  wire [%d:%d] %s;\n  assign %s = {%s, %s};\n  wire %s %s;\n  assign %s = %s[%d:%d];' % (
            2 * U - 1 + lsb, lsb, n, n, self.v() if r.random() < 0.6 else self.cat(), self.v() if r.random() < 0.6 else self.cat(),
            self.R(), m, m, n, lo + U - 1 + lsb, lo + lsb))
        self.vec.append(m)

    def i_func(self, items):
        r, U = self.r, self.U
        f, n = self.fresh('fn'), self.fresh('g')
        lo = r.randrange(U + 1)
        items.append('  function %s %s;\n    input [%d:0] x;\n    input y;\n    begin\n      if(y) %s = x[%d:%d]; else %s = x[%d:0];\n    end\n  endfunction\n'
                     '  wire %s %s;\n  assign %s = %s({%s, %s}, %s);' % (
                         self.R(), f, 2 * U - 1, f, lo + U - 1, lo, f, U - 1, self.R(), n, n, f, self.v(), self.v(), self.bool(1)))
        self.vec.append(n)

    def i_mem(self, items):
        r = self.r
        n, m = self.fresh('m'), self.fresh('d')
        if r.random() < 0.5:
            body = '%s[a[1:0]] <= %s;' % (n, self.vx(1)) if self.U > 1 else '%s[{s, t}] <= a;' % n
        else:
            body = ' '.join('%s[%d] <= %s;' % (n, j, self.vx(1)) for j in range(4) if r.random() < 0.9) or '%s[0] <= a;' % n
        items.append('  reg %s %s [0:3];\n  wire %s %s;\n  always @(posedge CLK) begin if(%s) begin %s end end\n  assign %s = %s[%s];' % (
            self.R(), n, self.R(), m, self.bool(1), body, m, n, r.choice(['{s, t}', "2'd1", '1', '0'])))
        self.vec.append(m)

    def i_two(self, items):
        """The same condition for neighbouring pieces."""
        n = self.fresh('h')
        if self.U < 2:
            return
        c = self.bool(1)
        w = self.r.randrange(1, self.U)
        items.append('  wire %s %s;\n  assign %s = {(%s ? %s : %s), (%s ? %s : %s)};' % (
            self.R(), n, n, c, self.piece(w), self.piece(w), c, self.piece(self.U - w), self.piece(self.U - w)))
        self.vec.append(n)
