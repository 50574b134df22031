"""Seeded generator of synthesizable designs with their clocks and resets.

A design is {'top', 'modules': [{'name', 'head', 'items': [...]}], 'clk': [...], 'rst': [...]}; items
are whole source items, so a failing design can be minimised by dropping them.
All designs are race free: one writer per bit, clocked state is read through
nonblocking assignments, combinational logic is acyclic and complete.
"""
import re

ALL = ['func', 'inst', 'gfor', 'gif', 'mem', 'case', 'for', 'comb', 'ctemp', 'lconcat', 'partas', 'bitidx', 'cond',
       'param', 'lparam', 'mixw', 'mul', 'div', 'pow', 'shiftv', 'reduce', 'repl', 'unsized', 'bitas', 'combtemp',
       'nonansi', 'lsbn', 'twoclk', 'negedge', 'asyncr', 'casex', 'hier', 'named', 'ipart', 'gforreg', 'nestf', 'logic', 'bitvar', 'pwidth', 'tcond',
       'related', 'seqs', 'vcond', 'idxtemp', 'combpart', 'casez', 'unique', 'casewild', 'deflt', 'svalways', 'gates',
       'supply', 'whilel', 'vclk', 'gifnum']


def features(r, allowed=ALL, density=None):
    """A swarm subset: every run turns a different set of constructs on."""
    p = density if density is not None else r.choice([0.25, 0.5, 0.5, 0.75, 0.9])
    return sorted(f for f in allowed if r.random() < p)


class Ctx(object):
    """What an expression may read: list of (name, width, lsb) and memories."""

    def __init__(self, sigs=(), mems=(), funcs=(), consts=(), branchy=None):
        # branchy: temporaries assigned conditionally -> remaining uses.  PyVerilog distributes their branches
        # over every expression, so their uses are few (size) and outside of conditions (a known finding).
        self.branchy = branchy if branchy is not None else {}
        self.sigs = list(sigs)
        self.mems = list(mems)
        self.funcs = list(funcs)
        self.consts = list(consts)

    def copy(self):
        return Ctx(self.sigs, self.mems, self.funcs, self.consts, self.branchy)

    def plain(self):
        """The same without branchy temporaries: for conditions."""
        if not self.branchy:
            return self
        return Ctx([s for s in self.sigs if s[0] not in self.branchy], self.mems, self.funcs, self.consts)


class G(object):
    def __init__(self, r, feats, uniform=None):
        self.r = r
        self.recent = []
        self.f = set(feats)
        self.uniform = uniform          # width of every data signal, or None
        self.widths = [uniform] if uniform else r.sample([1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 12, 16, 31, 32, 33], 5)
        if not uniform:
            self.widths.append(8)
        self.nid = 0
        self.nocond = 0
        self.modules = []

    def has(self, f, p=1.0):
        return f in self.f and self.r.random() < p

    def fresh(self, base):
        self.nid += 1
        return '%s%d' % (base, self.nid)

    def width(self):
        return self.r.choice(self.widths)

    # ------------------------------------------------------------ expressions
    def const(self, w):
        r = self.r
        v = r.choice([0, 1, (1 << w) - 1, r.randrange(1 << w), r.randrange(1 << w)])
        v &= (1 << w) - 1
        k = r.random()
        if k < 0.4:
            return "%d'd%d" % (w, v)
        if k < 0.7:
            return "%d'h%x" % (w, v)
        if k < 0.8:
            return "%d'o%o" % (w, v)
        b = format(v, '0%db' % w)
        if w > 4 and r.random() < 0.5:
            b = b[:w // 2] + '_' + b[w // 2:]
        return "%d'b%s" % (w, b)

    def pick(self, ctx, w):
        """A leaf of exactly w bits."""
        t = self.pick1(ctx, w)
        if ctx.branchy:
            for n in list(ctx.branchy):
                if n in t.replace('[', ' ').split():
                    ctx.branchy[n] -= 1
                    if ctx.branchy[n] <= 0:
                        ctx.sigs[:] = [s for s in ctx.sigs if s[0] != n]
        return t

    def pick1(self, ctx, w):
        r = self.r
        same = [s for s in ctx.sigs if s[1] == w]
        wider = [s for s in ctx.sigs if s[1] > w]
        k = r.random()
        if same and k < 0.62:
            return r.choice(same)[0]
        if wider and k < 0.85 and not (self.uniform and w != 1 and r.random() < 0.7):
            n, sw, lsb = r.choice(wider)
            lo = r.randrange(sw - w + 1) + lsb
            if w == 1 and 'bitidx' in self.f and sw in (2, 4, 8, 16, 32) and lsb == 0 and r.random() < 0.4:
                bits = {2: 1, 4: 2, 8: 3, 16: 4, 32: 5}[sw]
                idx = [s for s in ctx.sigs if s[1] == bits]
                if idx:
                    return '%s[%s]' % (n, r.choice(idx)[0])
            if w == 1 and r.random() < 0.8:
                return '%s[%d]' % (n, lo)
            if 'ipart' in self.f and r.random() < 0.35:
                if r.random() < 0.6:
                    return '%s[%d +: %d]' % (n, lo, w)
                return '%s[%d -: %d]' % (n, lo + w - 1, w)
            return '%s[%d:%d]' % (n, lo + w - 1, lo)
        if ctx.mems and r.random() < 0.5:
            ms = [m for m in ctx.mems if m[1] == w]
            if ms:
                n, mw, abits = r.choice(ms)
                idx = [s for s in ctx.sigs if s[1] == abits]
                if idx and r.random() < 0.8:
                    return '%s[%s]' % (n, r.choice(idx)[0])
                return '%s[%d]' % (n, r.randrange(1 << abits))
        if same:
            return r.choice(same)[0]
        return self.const(w)

    def exact(self, ctx, w, depth):
        """An expression whose size is exactly w."""
        r = self.r
        if depth <= 0 or r.random() < 0.12:
            return self.pick(ctx, w)
        d = depth - 1
        k = r.random()
        if w == 1 and k < 0.6:
            return self.bool(ctx, d)
        if ctx.funcs and k < 0.12:
            fs = [f for f in ctx.funcs if f[1] == w]
            if fs:
                f = r.choice(fs)
                return '%s(%s)' % (f[0], ', '.join(self.arg(ctx, aw, d - 1) for aw in f[2]))
        if k < 0.18 and 'cond' in self.f and (not self.nocond or 'anycond' in self.f or r.random() < 0.12):
            return '(%s ? %s : %s)' % (self.cond(ctx, d - 1), self.exact(ctx, w, d), self.exact(ctx, w, d))
        if k < 0.28 and w > 1 and (not self.uniform):
            a = r.randrange(1, w)
            return '{%s, %s}' % (self.exact(ctx, w - a, d - 1), self.exact(ctx, a, d - 1))
        if k < 0.28 and w > 1 and self.uniform:
            a = r.randrange(1, w)
            return '{%s, %s}' % (self.pick(ctx, w - a), self.pick(ctx, a))
        if k < 0.33 and 'repl' in self.f and w > 1:
            ds = [x for x in range(1, w) if w % x == 0]
            a = r.choice(ds)
            return '{%d{%s}}' % (w // a, self.pick(ctx, a) if self.uniform else self.exact(ctx, a, d - 1))
        if k < 0.40:
            op = r.choice(['~', '~', '-', '+'])
            return '(%s%s)' % (op, self.paren(self.exact(ctx, w, d)))
        if k < 0.50:
            n = r.randrange(0, w + 1)
            op = r.choice(['<<', '>>', '<<', '>>', '<<<', '>>>'])
            if 'shiftv' in self.f and r.random() < 0.4:
                sh = [s for s in ctx.sigs if s[1] <= 4]
                if sh:
                    return '(%s %s %s)' % (self.exact(ctx, w, d), op, r.choice(sh)[0])
            return '(%s %s %s)' % (self.exact(ctx, w, d), op, r.choice([str(n), "3'd%d" % (n & 7)]))
        if k < 0.54 and 'mul' in self.f:
            return '(%s * %s)' % (self.exact(ctx, w, d), self.exact(ctx, w, d - 1))
        if k < 0.57 and 'div' in self.f and w > 1:
            return '(%s %s %s)' % (self.exact(ctx, w, d), r.choice('/%'), "%d'd%d" % (w, r.randrange(1, 1 << min(w, 4))))
        if k < 0.59 and 'pow' in self.f and w > 2:
            return '(%s ** %s)' % (self.exact(ctx, w, 0), r.choice(["2", "2'd3", "1"]))
        op = r.choice(['+', '-', '&', '|', '^', '~^', '+', '-', '&', '|', '^'])
        b = w if self.uniform or r.random() < 0.7 else r.randrange(1, w + 1)
        x, y = self.exact(ctx, w, d), self.exact(ctx, b, d)
        if r.random() < 0.5:
            x, y = y, x
        if r.random() < 0.25:
            # no parentheses: the precedence has to be right
            return '%s %s %s' % (self.paren(x), op, self.paren(y)) if r.random() < 0.5 else \
                '(%s %s %s %s %s)' % (self.pick(ctx, w), r.choice(['+', '-', '&', '|', '^', '*']), x, op, y)
        return '(%s %s %s)' % (x, op, y)

    def paren(self, t):
        return t if t.replace('_', '').isalnum() or t[0] in '({' and t[-1] in ')}' and balanced(t) else '(%s)' % t

    def cond(self, ctx, depth):
        """A condition: without ternaries and branchy temporaries."""
        self.nocond += 1
        try:
            old = self.usable(ctx.plain()) if 'related' in self.f and self.r.random() < 0.35 else ()
            if old:
                t = self.mutate(ctx.plain(), self.r.choice(old))
            elif 'vcond' in self.f and not self.uniform and self.r.random() < 0.25:
                t = self.pick(ctx.plain(), self.width())
                wide = [s for s in ctx.plain().sigs if s[1] > 2]
                if wide and self.r.random() < 0.6:
                    n, w, lsb = self.r.choice(wide)
                    h = self.r.randrange(1, w)
                    t = '%s[%d:%d]' % (n, h + lsb, self.r.randrange(h) + lsb)
            else:
                t = self.bool(ctx.plain(), depth)
            self.recent.append(t)
            return t
        finally:
            self.nocond -= 1

    def usable(self, ctx):
        names = set(s[0] for s in ctx.sigs) | set(m[0] for m in ctx.mems) | set(f[0] for f in ctx.funcs) | set(ctx.consts)
        return [t for t in self.recent
                if all(n in names for n in re.findall(r'(?<![\w\x27.])[A-Za-z_]\w*', t))]

    def mutate(self, ctx, t):
        """A condition close to an earlier one of the same process: what is easily taken for it."""
        r = self.r
        k = r.randrange(7)
        if r.random() < 0.3:
            k = 2
        if k == 0:
            return t
        if k == 1:
            return '(!%s)' % self.paren(t)
        if k == 2 and not self.uniform:
            sp = list(re.finditer(r'\[(\d+):(\d+)\]', t))
            if sp:
                m = r.choice(sp)
                h, l = int(m.group(1)), int(m.group(2))
                return t[:m.start()] + '[%d:%d]' % (h, r.randint(l, h)) + t[m.end():]
        if k == 3:
            sp = list(re.finditer(r" (==|!=|<|>|<=|>=|&&|\|\||\+|-|&|\|) ", t))
            if sp:
                m = r.choice(sp)
                new = {'==': '!=', '!=': '==', '<': '<=', '<=': '<', '>': '>=', '>=': '>', '&&': '||', '||': '&&', '+': '-',
                       '-': '+', '&': '|', '|': '&'}[m.group(1)]
                return t[:m.start(1)] + new + t[m.end(1):]
        if k == 4:
            sp = list(re.finditer(r"(\d+)'[dhob]([0-9a-f_]+)", t))
            if sp:
                m = r.choice(sp)
                return t[:m.start()] + "%s'd%d" % (m.group(1), r.randrange(1 << min(int(m.group(1)), 16))) + t[m.end():]
        if k == 5:
            sp = [m for m in re.finditer(r'(?<![\w\x27.])[A-Za-z_]\w*(?![\w(.\[])', t) if any(s[0] == m.group() for s in ctx.sigs)]
            if sp:
                m = r.choice(sp)
                w = [s[1] for s in ctx.sigs if s[0] == m.group()][0]
                return t[:m.start()] + r.choice([s for s in ctx.sigs if s[1] == w])[0] + t[m.end():]
        return '(%s %s %s)' % (self.paren(t), r.choice(['&&', '||']), self.pick(ctx, 1))

    def bool(self, ctx, depth):
        """A one-bit expression."""
        r = self.r
        if depth <= 0:
            return self.pick(ctx, 1)
        d = depth - 1
        if 'cond' in self.f and r.random() < (0.15 if 'anycond' in self.f else 0.02):
            return '(%s ? %s : %s)' % (self.bool(ctx, d), self.bool(ctx, d), self.bool(ctx, d))
        k = r.random()
        if k < 0.4:
            op = r.choice(['==', '!=', '<', '>', '<=', '>=', '==', '!=', '===', '!=='])
            w = self.width()
            if 'unsized' in self.f and not self.uniform and r.random() < 0.4:
                return '(%s %s %d)' % (self.exact(ctx, w, d), op, r.randrange(1 << min(w, 8)))
            b = w if self.uniform or 'mixw' not in self.f else self.width()
            return '(%s %s %s)' % (self.exact(ctx, w, d), op, self.exact(ctx, b, d))
        if k < 0.65 or 'logic' not in self.f:
            return '(%s %s %s)' % (self.bool(ctx, d), r.choice(['&&', '||', '&&', '||', '&', '|', '^']), self.bool(ctx, d))
        if k < 0.75:
            return '(!%s)' % self.paren(self.bool(ctx, d))
        if k < 0.88 and 'reduce' in self.f:
            w = self.width()
            return '(%s%s)' % (r.choice(['&', '|', '^', '~&', '~|', '~^']), self.paren(self.exact(ctx, w, d)))
        if k < 0.95 and not self.uniform:
            w = self.width()
            return '(%s %s %s)' % (self.exact(ctx, w, d), r.choice(['&&', '||']), self.bool(ctx, d))
        return self.pick(ctx, 1)

    def arg(self, ctx, w, depth):
        if self.uniform or self.r.random() < 0.6:
            return self.exact(ctx, w, depth)
        return self.exact(ctx, self.width(), depth)

    def rhs(self, ctx, w, depth=3):
        """Right side of an assignment to w bits: any size."""
        r = self.r
        if self.uniform:
            return strip(self.exact(ctx, w, depth))
        k = r.random()
        if k < 0.55 or 'mixw' not in self.f:
            if 'unsized' in self.f and r.random() < 0.25:
                return '%s %s %d' % (self.paren(self.exact(ctx, w, depth)), r.choice(['+', '-', '&', '|', '^']), r.randrange(100))
            return strip(self.exact(ctx, w, depth))
        if ctx.consts and r.random() < 0.3:
            return '%s %s %s' % (self.paren(self.exact(ctx, w, depth)), r.choice(['+', '-', '^']), r.choice(ctx.consts))
        return strip(self.exact(ctx, self.width(), depth))

    # ------------------------------------------------------------- statements
    def seq(self, ctx, targets, op, depth, ind, full, temps=()):
        """Statements assigning `targets` [(lhs, width)]; if `full`, on every path."""
        r = self.r
        L = []
        if depth <= 0 or not targets:
            if len(targets) == 2 and self.has('lconcat', 0.3) and not self.uniform:
                return [self.both(ctx, targets, op, ind)]
            for t, w in targets:
                L.append('%s%s %s %s;' % (ind, t, op, self.rhs(ctx, w, 2)))
            return L or [ind + ';']
        k = r.random()
        if k < 0.35:
            c = strip(self.cond(ctx, 2))
            L.append('%sif(%s) begin' % (ind, c))
            L += self.seq(ctx, targets, op, depth - 1, ind + '  ', full)
            if full or r.random() < 0.6:
                if r.random() < 0.3:
                    L.append('%send else if(%s) begin' % (ind, strip(self.cond(ctx, 1))))
                    L += self.seq(ctx, targets, op, depth - 2, ind + '  ', full)
                L.append('%send else begin' % ind)
                sub = targets if full else [t for t in targets if r.random() < 0.8] or targets[:1]
                L += self.seq(ctx, sub, op, depth - 1, ind + '  ', full)
            L.append('%send' % ind)
            return L
        if k < 0.6 and 'case' in self.f:
            w = r.choice([2, 3, 4]) if not self.uniform else min(self.uniform, 3)
            self.nocond += 1
            simple = self.uniform or r.random() < 0.4
            subj = self.pick(ctx.plain(), w) if simple else self.exact(ctx.plain(), w, 1)
            self.nocond -= 1
            kw = r.choice(['case'] * 4 + [x for x in ('casex', 'casez') for _ in '12' if x in self.f] +
                          ['unique case'] * ('unique' in self.f))
            L.append('%s%s(%s)' % (ind, kw, strip(subj)))
            arms = []
            labels = list(range(1 << w))
            r.shuffle(labels)
            n = r.randint(1, min(4, len(labels) - 1))
            for i in range(n):
                ls = [labels.pop()]
                if labels and r.random() < 0.3:
                    ls.append(labels.pop())
                if labels and r.random() < 0.15:
                    ls.append(labels.pop())
                lt = ', '.join("%d'd%d" % (w, x) if r.random() < 0.7 or self.uniform or not simple else str(x) for x in ls)
                if kw in ('casex', 'casez') and 'casewild' in self.f and r.random() < 0.7:
                    bits = [r.choice('01z?' if kw == 'casez' else '01zx?') for _ in range(w)]
                    lt = "%d'b%s" % (w, ''.join(bits)) + (', ' + lt.split(', ')[1] if ', ' in lt else '')
                A = ['%s  %s: begin' % (ind, lt)]
                sub = targets if full else [t for t in targets if r.random() < 0.8]
                A += self.seq(ctx, sub, op, depth - 2, ind + '    ', full)
                A.append('%s  end' % ind)
                arms.append(A)
                if not labels:
                    break
            if full or kw == 'unique case' or r.random() < 0.7:
                A = ['%s  default%s begin' % (ind, ':' if r.random() < 0.9 else ' :')]
                A += self.seq(ctx, targets, op, depth - 2, ind + '    ', full)
                A.append('%s  end' % ind)
                arms.insert(r.randrange(len(arms) + 1) if 'deflt' in self.f and r.random() < 0.4 else len(arms), A)
            for A in arms:
                L += A
            L.append('%sendcase' % ind)
            return L
        if k < 0.75:
            # default, then override
            t, w = r.choice(targets)
            for tt, ww in targets:
                L.append('%s%s %s %s;' % (ind, tt, op, self.rhs(ctx, ww, 2)))
            L.append('%sif(%s) %s %s %s;' % (ind, strip(self.cond(ctx, 2)), t, op, self.rhs(ctx, w, 2)))
            return L
        if k < 0.87 and 'seqs' in self.f:
            # several statements one after another
            for j in range(r.randint(2, 3)):
                L += self.seq(ctx, targets if j == 0 else [t for t in targets if r.random() < 0.8] or targets[:1], op,
                              depth - 1, ind, full and j == 0)
            return L
        if len(targets) == 2 and self.has('lconcat', 0.3) and not self.uniform:
            return [self.both(ctx, targets, op, ind)]
        for t, w in targets:
            L.append('%s%s %s %s;' % (ind, t, op, self.rhs(ctx, w, 3)))
        return L

    def both(self, ctx, targets, op, ind):
        (a, wa), (b, wb) = targets
        c0 = ctx.copy()
        c0.sigs = [s for s in ctx.sigs if s[2] == 0]
        # exactly as wide as the left side (narrower right sides: a known finding)
        return '%s{%s, %s} %s %s;' % (ind, a, b, op, strip(self.exact(c0, wa + wb, 2)))

    def function(self, ctx):
        self.recent = []
        r = self.r
        name = self.fresh('fn')
        w = self.width()
        nargs = r.randint(1, 3)
        args = [('%s_a%d' % (name, i), self.width() if i else max(self.width(), 1)) for i in range(nargs)]
        c2 = Ctx([(n, aw, 0) for n, aw in args], (), ctx.funcs if 'nestf' in self.f else (), ctx.consts)
        L = []
        if r.random() < 0.5 or 'nonansi' in self.f:
            L.append('  function %s%s;' % (rng(w), name))
            for n, aw in args:
                L.append('    input %s%s;' % (rng(aw), n))
        else:
            L.append('  function %s%s;' % (rng(w), name))
            for n, aw in args:
                L.append('    input %s%s;' % (rng(aw), n))
        loc = None
        if r.random() < 0.4:
            loc = (name + '_t', self.width())
            L.append('    reg %s%s;' % (rng(loc[1]), loc[0]))
        L.append('    begin')
        if loc:
            L.append('      %s = %s;' % (loc[0], self.rhs(c2, loc[1], 2)))
            c2.sigs.append((loc[0], loc[1], 0))
        L += self.seq(c2, [(name, w)], '=', r.randint(0, 2), '      ', True)
        L.append('    end')
        L.append('  endfunction')
        return (name, w, [aw for _, aw in args]), '\n'.join(L)

    # ---------------------------------------------------------------- modules
    def module(self, name, leaves, top):
        r = self.r
        items = []
        ctx = Ctx()
        params = []
        if 'param' in self.f and not self.uniform:
            for i in range(r.randint(1, 2)):
                params.append(('%s_P%d' % (name, i), r.randrange(1, 12)))
        pw = None
        if 'pwidth' in self.f and not self.uniform and [w for w in self.widths if w > 1]:
            # a parameter gives the width of many signals; its default is wrong for instances
            n = r.choice([w for w in self.widths if w > 1])
            pw = ('%s_W' % name, n)
            params.insert(0, (pw[0], n if top else r.choice([x for x in (1, 2, 5, 16) if x != n])))
        clk = r.choice(['CLK', 'clk', 'clock', 'CLK_A']) if not top else 'CLK'
        rst = r.choice(['RST', 'rst', 'reset', 'rst_x']) if not top else 'RST'
        clocks = [clk]
        if top and 'twoclk' in self.f:
            clocks.append('CLK2')
        # a vector of clocks
        vec = r.choice([2, 3]) if len(clocks) > 1 and 'vclk' in self.f and not self.uniform else 1
        edges = clocks if vec == 1 else [clk] + ['CLK2[%d]' % j for j in range(vec)]
        ports = [('input', c, vec if c == 'CLK2' else 1, None) for c in clocks] + [('input', rst, 1, None)]
        n_in = r.randint(2, 4)
        for i in range(n_in):
            w = self.width()
            if i == 0 and not any(x == 1 for x in self.widths):
                pass
            ports.append(('input', '%s_i%d' % (name, i), w, None))
        ports.append(('input', '%s_en' % name, 1, None))
        ports.append(('input', '%s_sel' % name, self.uniform and min(3, self.uniform) or r.choice([2, 3, 3]), None))
        lsbn = 0
        for d, n, w, _ in ports:
            if n in clocks or n == rst:
                continue
            ctx.sigs.append((n, w, 0))
        if params:
            ctx.consts += [p for p, _ in params]
        n_out = r.randint(1, 3)
        outs = []
        for i in range(n_out):
            outs.append(['%s_o%d' % (name, i), self.width(), None])
        decl = []
        # constants
        if 'lparam' in self.f and not self.uniform:
            n = self.fresh('LP')
            e = str(r.randrange(1, 40)) if not params or r.random() < 0.4 else '%s %s %d' % (params[0][0], r.choice(['+', '*']), r.randrange(1, 5))
            decl.append('  localparam %s = %s;' % (n, e))
            ctx.consts.append(n)
        # functions
        funcs = []
        if 'func' in self.f:
            for _ in range(r.randint(1, 2)):
                f, t = self.function(ctx)
                ctx.funcs.append(f)
                decl.append(t)
        # registers are declared first so that everything can read them
        regs = []
        for i in range(r.randint(1, 3)):
            n = self.fresh('r')
            w = self.width()
            lsb = r.choice([1, 4]) if 'lsbn' in self.f and not self.uniform and r.random() < 0.4 else 0
            regs.append((n, w, lsb))
            decl.append('  reg %s%s;' % (rng(w, lsb, params, r), n))
        mems = []
        if 'mem' in self.f and not self.uniform:
            ab = r.choice([x[1] for x in ctx.sigs if x[1] <= 3])
            n = self.fresh('mem')
            w = self.width()
            mems.append((n, w, ab))
            decl.append('  reg %s%s [0:%d];' % (rng(w), n, (1 << ab) - 1))
        ctx.sigs += regs
        ctx.mems += mems
        drivers = []          # what is still to be driven
        integer = None
        if 'for' in self.f:
            integer = True
        # a few wires, instances, generates, comb blocks in random order
        kinds = ['wire', 'wire']
        for f, k in (('comb', 'comb'), ('inst', 'inst'), ('gfor', 'gfor'), ('gif', 'gif'), ('lconcat', 'lconcat'),
                     ('partas', 'partas'), ('tcond', 'tcond'), ('combtemp', 'combtemp'), ('gforreg', 'gforreg'), ('idxtemp', 'idxtemp'), ('combpart', 'combpart'),
                     ('gates', 'gates'), ('supply', 'supply'), ('whilel', 'whilel')):
            if f in self.f:
                kinds.append(k)
        if self.uniform:
            kinds = [k for k in kinds if k not in ('gfor',)]
        for _ in range(r.randint(2, 5)):
            k = r.choice(kinds)
            if k == 'inst' and not leaves:
                k = 'wire'
            getattr(self, 'mk_' + k)(items, ctx, leaves, clk, rst, params, integer)
        # clocked processes
        plan = [regs[i:i + 2] for i in range(0, len(regs), 2)]
        for group in plan:
            items.append(self.clocked(ctx, group, r.choice(edges), rst, integer))
        for n, w, ab in mems:
            items.append(self.memwrite(ctx, n, w, ab, clk, rst, integer))
        # outputs
        extra = []
        for o in outs:
            if r.random() < 0.25 and top is not None:
                o[2] = 'reg'
                items.append(self.clocked(ctx, [(o[0], o[1], 0)], r.choice(edges), rst, None))
            else:
                items.append('  assign %s = %s;' % (o[0], self.rhs(ctx, o[1], 3)))
        ports += [('output', o[0], o[1], o[2]) for o in outs]
        head, pdecl = self.header(name, params, ports)
        if pw:
            old = '[%d:0] ' % (pw[1] - 1)

            def put(t):
                parts = t.split(old)
                return parts[0] + ''.join((r.choice([old, '[%s-1:0] ' % pw[0], '[%s - 1 : 0] ' % pw[0]])) + x for x in parts[1:])
            head, pdecl, decl, items = put(head), [put(x) for x in pdecl], [put(x) for x in decl], [put(x) for x in items]
        if 'svalways' in self.f:
            items = [self.sv(x) for x in items]
        return {'pw': pw, 'name': name, 'head': head, 'decl': pdecl + decl, 'items': items, 'params': params, 'clk': clk,
                'rst': rst, 'clocks': clocks,
                'ins': [(n, w) for d, n, w, _ in ports if d == 'input' and n not in clocks and n != rst],
                'outs': [(o[0], o[1]) for o in outs]}

    def sv(self, t):
        if self.r.random() < 0.5:
            t = t.replace('always @*', 'always_comb').replace('always @(*)', 'always_comb')
            t = t.replace('always @(posedge', 'always_ff @(posedge').replace('always @(negedge', 'always_ff @(negedge')
        return t

    def header(self, name, params, ports):
        r = self.r
        if 'nonansi' in self.f and r.random() < 0.6:
            L = ['module %s (%s);' % (name, ', '.join(p[1] for p in ports))]
            D = []
            for p, v in params:
                D.append('  parameter %s = %d;' % (p, v))
            for d, n, w, reg in ports:
                D.append('  %s %s%s;' % (d, rng(w), n))
                if reg:
                    D.append('  reg %s%s;' % (rng(w), n))
            return '\n'.join(L), D
        h = 'module %s' % name
        if params:
            h += ' #(%s)' % ', '.join('parameter %s = %d' % p for p in params)
        h += ' (\n' + ',\n'.join('  %s %s%s%s' % (d, (reg + ' ') if reg else r.choice(['', '', 'wire ']), rng(w), n)
                                 for d, n, w, reg in ports) + ');'
        return h, []

    def mk_wire(self, items, ctx, leaves, clk, rst, params, integer):
        n, w = self.fresh('w'), self.width()
        if self.uniform and self.r.random() < 0.3:
            w = 1
        e = self.rhs(ctx, w, 3)
        if self.r.random() < 0.3:
            items.append('  wire %s%s = %s;' % (rng(w), n, e))
        else:
            items.append('  wire %s%s;\n  assign %s = %s;' % (rng(w), n, n, e))
        ctx.sigs.append((n, w, 0))

    def mk_partas(self, items, ctx, leaves, clk, rst, params, integer):
        n, w = self.fresh('p'), max(2, self.width())
        lsb = self.r.choice([0, 0, 2]) if 'lsbn' in self.f and not self.uniform else 0
        a = self.r.randrange(1, w)
        L = ['  wire %s%s;' % (rng(w, lsb), n)]
        parts = [(a - 1, 0), (w - 1, a)]
        if w - a > 1 and self.r.random() < 0.4:
            b = self.r.randrange(a + 1, w)
            parts = [(a - 1, 0), (b - 1, a), (w - 1, b)]
        self.r.shuffle(parts)
        for hi, lo in parts:
            sel = '%d' % (lo + lsb) if hi == lo and self.r.random() < 0.7 else '%d:%d' % (hi + lsb, lo + lsb)
            L.append('  assign %s[%s] = %s;' % (n, sel, self.rhs(ctx, hi - lo + 1, 2)))
        items.append('\n'.join(L))
        ctx.sigs.append((n, w, lsb))

    def mk_lconcat(self, items, ctx, leaves, clk, rst, params, integer):
        r = self.r
        ns = [(self.fresh('lc'), self.width(), 0) for _ in range(r.randint(2, 3))]
        tot = sum(x[1] for x in ns)
        L = ['  wire %s%s;' % (rng(w), n) for n, w, _ in ns]
        lhs = '{%s}' % ', '.join(n for n, _, _ in ns)
        if r.random() < 0.4:
            # adder with carry out
            a = [s for s in ctx.sigs if s[1] == tot - 1]
            if len(a) > 0:
                rhs = '%s + %s' % (r.choice(a)[0], r.choice(a)[0])
            else:
                rhs = self.pick(Ctx([s for s in ctx.sigs if s[2] == 0]), tot)
        else:
            # a bare vector whose range does not start at 0 is taken apart wrongly (a known finding)
            c0 = Ctx([s for s in ctx.sigs if s[2] == 0], ctx.mems, ctx.funcs, ctx.consts, ctx.branchy)
            rhs = '{%s}' % ', '.join(self.exact(c0, w, 1) for w in split(r, tot))
        L.append('  assign %s = %s;' % (lhs, rhs))
        items.append('\n'.join(L))
        ctx.sigs += ns

    def sens(self, ctx):
        return '@*' if self.r.random() < 0.6 else '@(*)'

    def mk_comb(self, items, ctx, leaves, clk, rst, params, integer):
        self.recent = []
        ts = [(self.fresh('c'), self.width(), 0) for _ in range(self.r.randint(1, 2))]
        L = ['  reg %s%s;' % (rng(w), n) for n, w, _ in ts]
        L.append('  always %s begin' % self.sens(ctx))
        L += self.seq(ctx, [(n, w) for n, w, _ in ts], '=', self.r.randint(1, 3), '    ', True)
        L.append('  end')
        items.append('\n'.join(L))
        ctx.sigs += ts

    def mk_combtemp(self, items, ctx, leaves, clk, rst, params, integer):
        self.recent = []
        r = self.r
        t, w = self.fresh('tt'), self.width()
        y, wy = self.fresh('c'), self.width()
        L = ['  reg %s%s;' % (rng(w), t), '  reg %s%s;' % (rng(wy), y), '  always %s begin' % self.sens(ctx)]
        plain = r.random() < 0.5
        self.nocond += plain
        L += self.seq(ctx, [(t, w)], '=', 0 if plain else r.randint(0, 2), '    ', True)
        self.nocond -= plain
        c2 = ctx.copy()
        c2.sigs += [(t, w, 0)] * 3
        if not plain:
            c2.branchy = {t: 2}
        self.nocond += plain
        if r.random() < 0.5:
            L.append('    %s = %s;' % (t, self.rhs(c2, w, 2)))
        if integer and not self.uniform and r.random() < 0.6:
            n = r.randint(1, 4)
            integer = self.fresh('ii')
            L.insert(0, '  integer %s;' % integer)
            L.append('    for(%s=0; %s<%d; %s=%s+1) begin' % (integer, integer, n, integer, integer))
            L.append('      %s = %s;' % (t, self.rhs(c2, w, 1)))
            L.append('    end')
        self.nocond -= plain
        L += self.seq(c2, [(y, wy)], '=', r.randint(0, 2), '    ', True)
        L.append('  end')
        items.append('\n'.join(L))
        ctx.sigs += [(t, w, 0), (y, wy, 0)]

    def mk_tcond(self, items, ctx, leaves, clk, rst, params, integer):
        """One conditional assignment whose condition is itself a choice."""
        r = self.r
        n, w = self.fresh('tc'), self.width()
        c0 = ctx.plain().copy()
        c0.funcs = []
        ch = '(%s ? %s : %s)' % (self.pick(c0, 1), self.pick(c0, 1), self.pick(c0, 1))
        cond = ch[1:-1] if r.random() < 0.4 else '%s %s %s' % (ch, r.choice(['==', '&', '||', '!=']), self.pick(c0, 1))
        self.nocond += 1
        a, b = self.rhs(c0, w, 2), self.rhs(c0, w, 2)
        self.nocond -= 1
        L = ['  reg %s%s;' % (rng(w), n)]
        if r.random() < 0.5:
            L += ['  always @(posedge %s) begin' % clk, '    if(%s) %s <= %s;' % (cond, n, a)]
            if r.random() < 0.5:
                L += ['    else %s <= %s;' % (n, b)]
        else:
            L += ['  always @* begin', '    if(%s) %s = %s;' % (cond, n, a), '    else %s = %s;' % (n, b)]
        items.append('\n'.join(L + ['  end']))
        ctx.sigs.append((n, w, 0))

    def mk_combpart(self, items, ctx, leaves, clk, rst, params, integer):
        """A variable assigned part by part, then read."""
        self.recent = []
        r = self.r
        if self.uniform:
            return
        t, w = self.fresh('cp'), r.choice([4, 5, 8, 12])
        cut = r.randrange(1, w)
        parts = [(cut - 1, 0), (w - 1, cut)]
        r.shuffle(parts)
        y, wy = self.fresh('c'), self.width()
        L = ['  reg %s%s;' % (rng(w), t), '  reg %s%s;' % (rng(wy), y), '  always %s begin' % self.sens(ctx)]
        self.nocond += 1
        for h, l in parts:
            sel = '[%d]' % h if h == l and r.random() < 0.5 else '[%d:%d]' % (h, l)
            L.append('    %s%s = %s;' % (t, sel, self.rhs(ctx.plain(), h - l + 1, 2)))
        self.nocond -= 1
        c2 = ctx.plain().copy()
        c2.sigs += [(t, w, 0)] * 4
        L += self.seq(c2, [(y, wy)], '=', r.randint(0, 1), '    ', True)
        L.append('  end')
        items.append('\n'.join(L))
        ctx.sigs += [(t, w, 0), (y, wy, 0)]

    def mk_gates(self, items, ctx, leaves, clk, rst, params, integer):
        r = self.r
        L = []
        new = []
        for _ in range(r.randint(1, 3)):
            n = self.fresh('gw')
            op = r.choice(['and', 'nand', 'or', 'nor', 'xor', 'xnor', 'not', 'buf'])
            k = 1 if op in ('not', 'buf') else r.choice([2, 2, 3])
            c0 = ctx.plain().copy()
            c0.sigs = [s for s in c0.sigs if s[1] > 1 or s[2] == 0]     # known finding gate-offset-range
            args = [self.pick(c0, 1) if r.random() < 0.8 else strip(self.bool(c0, 1)) for _ in range(k)]
            L.append('  wire %s;' % n)
            L.append('  %s %s(%s);' % (op, self.fresh('gt') + ' ' if r.random() < 0.9 else '', ', '.join([n] + args)))
            new.append((n, 1, 0))
        items.append('\n'.join(L))
        ctx.sigs += new

    def mk_supply(self, items, ctx, leaves, clk, rst, params, integer):
        n = self.fresh('sp')
        items.append('  supply%d %s;' % (self.r.randrange(2), n))
        ctx.sigs.append((n, 1, 0))

    def mk_whilel(self, items, ctx, leaves, clk, rst, params, integer):
        self.recent = []
        r = self.r
        if self.uniform:
            return
        n = r.randint(1, 4)
        a = [s for s in ctx.sigs if s[1] >= n and s[2] == 0 and s[1] > 1]
        y, w, i = self.fresh('wl'), self.width(), self.fresh('ii')
        L = ['  reg %s%s;' % (rng(w), y), '  integer %s;' % i, '  always %s begin' % self.sens(ctx)]
        self.nocond += 1
        L += ['    %s = %s;' % (y, self.rhs(ctx.plain(), w, 1)), '    %s = 0;' % i, '    while(%s < %d) begin' % (i, n)]
        c2 = ctx.plain().copy()
        c2.sigs += [(y, w, 0)] * 3
        e = self.exact(c2, w, 1)
        if a:
            e = '%s %s %s[%s]' % (e, r.choice('+^'), r.choice(a)[0], i)
        self.nocond -= 1
        L += ['      %s = %s;' % (y, e), '      %s = %s + 1;' % (i, i), '    end', '  end']
        items.append('\n'.join(L))
        ctx.sigs.append((y, w, 0))

    def mk_idxtemp(self, items, ctx, leaves, clk, rst, params, integer):
        """An index held in a variable: a constant first, something else later (or the other way round)."""
        self.recent = []
        r = self.r
        if self.uniform:
            return
        k = r.choice([1, 2, 3])
        t = self.fresh('ix')
        ismem = r.random() < 0.4
        n = self.fresh('mx' if ismem else 'rx')
        w = self.width() if ismem else 1
        L = ['  reg %s%s;' % (rng(k), t), '  reg %s%s [0:%d];' % (rng(w), n, (1 << k) - 1) if ismem else '  reg [%d:0] %s;' % ((1 << k) - 1, n),
             '  always @(posedge %s) begin' % clk]
        c0 = ctx.plain()
        for j in range(r.randint(1, 3)):
            self.nocond += 1
            v = "%d'd%d" % (k, r.randrange(1 << k)) if r.random() < 0.5 else self.pick(c0, k) if r.random() < 0.7 else strip(self.exact(c0, k, 1))
            self.nocond -= 1
            L.append('    %s = %s;' % (t, v))
            if r.random() < 0.3:
                L.append("    %s = %s + %d'd1;" % (t, t, k))
            s = '%s[%s] <= %s;' % (n, t, self.rhs(c0, w, 1))
            L.append('    ' + ('if(%s) %s' % (strip(self.cond(c0, 1)), s) if r.random() < 0.5 else s))
        L.append('  end')
        items.append('\n'.join(L))
        if ismem:
            ctx.mems.append((n, w, k))
        else:
            ctx.sigs.append((n, 1 << k, 0))

    def mk_inst(self, items, ctx, leaves, clk, rst, params, integer):
        r = self.r
        m = r.choice(leaves)
        u = self.fresh('u')
        L = []
        conns = []
        outs = []
        for n, w in m['outs']:
            o = self.fresh('y')
            ow = w if self.uniform or r.random() < 0.7 else self.width()
            L.append('  wire %s%s;' % (rng(ow), o))
            outs.append((o, ow, 0))
            conns.append((n, o))
        ins = [(m['clk'], clk), (m['rst'], rst)]
        for n, w in m['ins']:
            ins.append((n, strip(self.exact(ctx, w, 1))))
        conns = ins + conns
        if 'named' in self.f or r.random() < 0.5:
            r.shuffle(conns)
            ct = ', '.join('.%s(%s)' % c for c in conns)
        else:
            ct = ', '.join(c[1] for c in conns)     # declaration order
        p = ''
        if m['params'] and (m['pw'] or r.random() < 0.7):
            pw = m['pw'][0] if m['pw'] else None

            def val(n):
                return str(m['pw'][1]) if n == pw else self.pval(params)
            if r.random() < 0.6:
                sub = [x for x in m['params'] if x[0] == pw or r.random() < 0.7] or m['params'][:1]
                r.shuffle(sub)
                p = ' #(%s)' % ', '.join('.%s(%s)' % (n, val(n)) for n, _ in sub)
            else:
                p = ' #(%s)' % ', '.join(val(n) for n, _ in m['params'][:r.randint(1, len(m['params']))])
        L.append('  %s%s %s (%s);' % (m['name'], p, u, ct))
        items.append('\n'.join(L))
        ctx.sigs += outs

    def pval(self, params):
        r = self.r
        if params and r.random() < 0.5:
            return '%s%s' % (r.choice(params)[0], r.choice(['', ' + 1', '*2', ' + 3']))
        return str(r.randrange(1, 20))

    def mk_gfor(self, items, ctx, leaves, clk, rst, params, integer):
        r = self.r
        g = self.fresh('gv')
        b = self.fresh('gb')
        n = r.randint(1, 4)
        a = [s for s in ctx.sigs if s[1] >= max(n, 2) and s[2] == 0]
        o = self.fresh('go')
        L = ['  genvar %s;' % g, '  wire [%d:0] %s;' % (n - 1, o), '  generate for(%s=0; %s<%d; %s=%s+1) begin : %s'
             % (g, g, n, g, g, b)]
        w = self.width()
        t = self.fresh('gt')
        if r.random() < 0.6:
            L.append('    wire %s%s;' % (rng(w), t))
            L.append('    assign %s = %s;' % (t, self.rhs(ctx, w, 2)))
            src = '^%s' % t
        else:
            src = self.pick(ctx, 1)
        if a:
            src = '%s %s %s[%s]' % (self.paren(src), r.choice('^&|'), r.choice(a)[0], g)
        if r.random() < 0.4:
            c = r.randrange(n)
            L.append('    if(%s == %d) begin' % (g, c) if r.random() < 0.5 else '    if(%s < %d) begin' % (g, c + 1))
            L.append('      assign %s[%s] = %s;' % (o, g, src))
            L.append('    end else begin')
            L.append('      assign %s[%s] = %s;' % (o, g, self.pick(ctx, 1)))
            L.append('    end')
        else:
            L.append('    assign %s[%s] = %s;' % (o, g, src))
        L.append('  end endgenerate')
        items.append('\n'.join(L))
        ctx.sigs.append((o, n, 0))

    def mk_gforreg(self, items, ctx, leaves, clk, rst, params, integer):
        """Registers (or instances) created by a generate loop."""
        r = self.r
        g = self.fresh('gv')
        b = self.fresh('gb')
        n = r.randint(1, 3)
        w = self.width()
        t = self.fresh('gr')
        outs = []
        L = ['  genvar %s;' % g, '  generate for(%s=0; %s<%d; %s=%s+1) begin : %s' % (g, g, n, g, g, b)]
        L.append('    reg %s%s;' % (rng(w), t))
        c2 = ctx.copy()
        c2.sigs.append((t, w, 0))
        L.append('    always @(posedge %s) begin' % clk)
        L.append('      if(%s) %s <= %s;' % (rst, t, self.const(w)))
        L.append('      else %s <= %s;' % (t, self.rhs(c2, w, 2)))
        L.append('    end')
        L.append('  end endgenerate')
        if 'hier' in self.f:
            o = self.fresh('w')
            L.append('  wire %s%s;' % (rng(w), o))
            L.append('  assign %s = %s[%d].%s;' % (o, b, r.randrange(n), t))
            outs.append((o, w, 0))
        items.append('\n'.join(L))
        ctx.sigs += outs

    def mk_gif(self, items, ctx, leaves, clk, rst, params, integer):
        r = self.r
        n, w = self.fresh('gi'), self.width()
        if self.uniform:
            c = r.choice(['1', '0', '2 > 1'])
        else:
            c = '%s %s %d' % (r.choice(ctx.consts) if ctx.consts else str(r.randrange(9)), r.choice(['&', '%', '-', '>>']),
                              r.randrange(1, 5)) if 'gifnum' in self.f and r.random() < 0.5 else \
                '%s %s %d' % (r.choice(ctx.consts) if ctx.consts else str(r.randrange(9)), r.choice(['>', '<', '==', '!=']), r.randrange(12))
        L = ['  wire %s%s;' % (rng(w), n), '  generate if(%s) begin%s' % (c, ' : ' + self.fresh('gl') if r.random() < 0.6 else '')]
        L.append('    assign %s = %s;' % (n, self.rhs(ctx, w, 2)))
        L.append('  end else begin%s' % (' : ' + self.fresh('gl') if r.random() < 0.6 else ''))
        L.append('    assign %s = %s;' % (n, self.rhs(ctx, w, 2)))
        L.append('  end endgenerate')
        items.append('\n'.join(L))
        ctx.sigs.append((n, w, 0))

    def clocked(self, ctx, group, clk, rst, integer):
        self.recent = []
        r = self.r
        edge = 'negedge' if 'negedge' in self.f and r.random() < 0.25 else 'posedge'
        async_ = 'asyncr' in self.f and r.random() < 0.5
        low = async_ and r.random() < 0.3
        L = ['  always @(%s %s%s) begin' % (edge, clk, ' or %s %s' % ('negedge' if low else 'posedge', rst) if async_ else '')]
        ind = '    '
        has_rst = async_ or r.random() < 0.7
        if has_rst:
            L.append('    if(%s%s) begin' % ('!' if low else '', rst))
            for n, w, lsb in group:
                L.append('      %s <= %s;' % (n, self.const(w) if r.random() < 0.6 or self.uniform else str(r.randrange(4))))
            L.append('    end else begin%s' % (' : ' + self.fresh('bk') if r.random() < 0.2 else ''))
            ind = '      '
        body = []
        c2 = ctx
        if 'ctemp' in self.f and not has_rst and r.random() < 0.7:
            pass
        done = False
        k = r.random()
        g0 = group[0]
        if 'bitas' in self.f and g0[1] > 1 and k < 0.3:
            n, w, lsb = g0
            a = r.randrange(1, w)
            body.append('%s%s[%d:%d] <= %s;' % (ind, n, w - 1 + lsb, a + lsb, self.rhs(ctx, w - a, 2)))
            sel = '%d' % lsb if a == 1 else '%d:%d' % (a - 1 + lsb, lsb)
            if r.random() < 0.5:
                body.append('%sif(%s) %s[%s] <= %s;' % (ind, strip(self.cond(ctx, 2)), n, sel, self.rhs(ctx, a, 2)))
            else:
                body.append('%s%s[%s] <= %s;' % (ind, n, sel, self.rhs(ctx, a, 2)))
            # reset has to use the same parts
            for i, l in enumerate(L):
                if l.strip().startswith(n + ' <='):
                    L[i] = '      %s[%d:%d] <= %s; %s[%s] <= %s;' % (n, w - 1 + lsb, a + lsb, self.const(w - a), n, sel, self.const(a))
            group = group[1:]
        elif 'lconcat' in self.f and len(group) == 2 and k < 0.5 and not self.uniform:
            (n1, w1, _), (n2, w2, _) = group
            body.append('%s{%s, %s} <= %s;' % (ind, n1, n2, '{%s, %s}' % (self.exact(ctx, w1, 2), self.exact(ctx, w2, 2))))
            group = []
        if len(group) == 1 and 'bitvar' in self.f and not self.uniform and group[0][1] in (2, 4, 8, 16) and \
                group[0][2] == 0 and r.random() < 0.5:
            n, w, _ = group[0]
            idx = [s for s in ctx.sigs if 1 << s[1] == w]
            if idx:
                s = '%s[%s] <= %s;' % (n, r.choice(idx)[0], self.bool(ctx, 2))
                body.append(ind + (s if r.random() < 0.4 else 'if(%s) %s' % (strip(self.cond(ctx, 2)), s)))
                group = []
        if group:
            body += self.seq(ctx, [(n, w) for n, w, _ in group], '<=', r.randint(1, 3), ind, False)
        L += body
        if has_rst:
            L.append('    end')
        L.append('  end')
        text = '\n'.join(L)
        if 'ctemp' in self.f and r.random() < 0.5 and group and not self.uniform:
            t, w = self.fresh('bt'), self.width()
            c2 = ctx.copy()
            plain = r.random() < 0.5
            self.nocond += plain
            lines = ['  reg %s%s;' % (rng(w), t), L[0], '    %s = %s;' % (t, self.rhs(ctx, w, 2))]
            self.nocond -= plain
            c2.sigs += [(t, w, 0)] * 3
            if not plain:
                c2.branchy = {t: 3}
            if r.random() < 0.5 and not plain:
                lines.append('    if(%s) %s = %s;' % (strip(self.cond(ctx, 1)), t, self.rhs(c2, w, 1)))
            rest = L[1:]
            # a second use of the temporary
            n, w2, lsb = group[0]
            lines2 = ['    if(%s) %s <= %s;' % (strip(self.cond(ctx, 1)), n, self.rhs(c2, w2, 2))]
            if async_:
                # only the standard reset shape is synthesizable: keep the temporary inside it
                text = '\n'.join(L)
            elif has_rst:
                lines3 = ['    if(%s) begin' % rst]
                for nn, ww, ll in group:
                    lines3.append('      %s <= %s;' % (nn, self.const(ww)))
                lines3.append('    end else begin')
                lines3 += self.seq(c2, [(nn, ww) for nn, ww, _ in group], '<=', 2, '      ', False)
                lines3.append('    end')
                if len(body) and 'bitas' in self.f and k < 0.3:
                    return text
                text = '\n'.join(lines + lines3 + ['  end'])
        return text

    def memwrite(self, ctx, n, w, ab, clk, rst, integer):
        self.recent = []
        r = self.r
        idx = [s for s in ctx.sigs if s[1] == ab]
        L = ['  always @(posedge %s) begin' % clk]
        a = r.choice(idx)[0]
        k = r.random()
        if integer and k < 0.35:
            integer = self.fresh('ii')
            L.insert(0, '  integer %s;' % integer)
            L.append('    if(%s) begin' % rst)
            L.append('      for(%s=0; %s<%d; %s=%s+1) %s[%s] <= %s;' % (integer, integer, 1 << ab, integer, integer, n, integer, self.const(w)))
            L.append('    end else if(%s) begin' % strip(self.cond(ctx, 1)))
            L.append('      %s[%d] <= %s;' % (n, r.randrange(1 << ab), self.rhs(ctx, w, 2)))
            L.append('    end')
        elif k < 0.75:
            L.append('    if(%s) %s[%s] <= %s;' % (strip(self.cond(ctx, 1)), n, a, self.rhs(ctx, w, 2)))
        else:
            L.append('    %s[%s] <= %s;' % (n, a, self.rhs(ctx, w, 2)))
        L.append('  end')
        return '\n'.join(L)


def balanced(t):
    d = 0
    for i, c in enumerate(t):
        if c in '({':
            d += 1
        elif c in ')}':
            d -= 1
            if d == 0 and i < len(t) - 1:
                return False
    return True


def strip(t):
    if t.startswith('(') and t.endswith(')') and balanced(t):
        return t[1:-1]
    return t


def split(r, tot):
    if tot < 2 or r.random() < 0.2:
        return [tot]
    a = r.randrange(1, tot)
    return [a, tot - a]


def rng(w, lsb=0, params=(), r=None):
    if w == 1 and lsb == 0 and (r is None or r.random() < 0.8):
        return ''
    if params and r is not None and lsb == 0 and r.random() < 0.0:
        return '[%s-1:0] ' % params[0][0]
    return '[%d:%d] ' % (w - 1 + lsb, lsb)


def design(r, feats=None, uniform=None, size=None):
    feats = features(r) if feats is None else feats
    g = G(r, feats, uniform)
    leaves = []
    if 'inst' in g.f:
        for i in range(r.randint(1, 2)):
            sub = leaves[:] if r.random() < 0.5 else []
            leaves.append(g.module('L%d' % i, sub, False))
    top = g.module('TOP', leaves, True)
    mods = leaves + [top]
    if r.random() < 0.3:
        mods = mods[::-1]
    return {'top': 'TOP', 'feats': feats, 'uniform': uniform,
            'modules': [{'name': m['name'], 'head': m['head'], 'decl': m['decl'], 'items': m['items']} for m in mods],
            'clocks': top['clocks'], 'rst': 'RST'}


def text(d):
    out = []
    for m in d['modules']:
        out.append(m['head'])
        out += m['decl']
        out += m['items']
        out.append('endmodule\n')
    return '\n'.join(out)
