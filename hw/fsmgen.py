"""Seeded state machines."""
import re

NAMES = ['state', 'fsm', 'cur_state', 'fsm_r', 'mode', 'step', 'count', 'cnt', 'State1', 'read_count']


def outputs(r):
    """As design, with registers that the machines control: 'outs': [[path, machine, reset, active, constants only, whole]]."""
    return F(r, True).design()


def design(r):
    """{'top', 'modules': [{'head', 'decl', 'items'}], 'machines': [[path, clock, reset, active, certain]]} as hw.gen makes them."""
    return F(r).design()


class F(object):
    def __init__(self, r, outs=False):
        self.r = r
        self.outs = outs
        self.onebit = False         # in definitions of wires of one bit: trees have no widths (finding of P02)
        self.n = 0
        self.bits = ['go', 'x', 'y']
        self.vecs = ['a', 'b']
        self.mach = []              # [name, width, labels, msb offset]
        self.lits = [0, 1, 3, 255]
        self.mods = []              # further modules
        self.twin = {}              # output register -> wire of a register of the same name in another module

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def k8(self):
        v = self.r.choice([0, 1, 2, 3, 7, 128, 255, self.r.randrange(256)])
        self.lits.append(v)
        return self.r.choice(["8'd%d", "8'h%x", "%d"]) % v

    # -------------------------------------------------------------- conditions
    def state_atom(self, m=None):
        r = self.r
        n, w, labels, off = m or r.choice(self.mach)
        k = r.random()
        s = r.choice(labels) if r.random() < 0.8 else "%d'd%d" % (w, r.randrange(1 << w)) if r.random() < 0.7 else \
            str(r.randrange(1 << w)) if r.random() < 0.8 else str((1 << w) + r.randrange(4))
        if k < 0.45:
            return '(%s)' % ' == '.join(r.sample([n, s], 2))
        if k < 0.6:
            return '(%s)' % ' != '.join(r.sample([n, s], 2))
        if k < 0.9:
            return '(' + r.choice([' < ', ' > ', ' <= ', ' >= ']).join([n, s] if r.random() < 0.7 else [s, n]) + ')'
        if k < 0.93 and w > 1:
            return '%s[%d]' % (n, r.randrange(w) + off)
        if k < 0.96:
            return '(%s != %s)' % (n, s) if self.onebit and w > 1 else n
        return '(%s == %s)' % (n, 'b[%d:0]' % (w - 1) if w > 1 else 'go')

    def one(self, d, own=None):
        """A condition of one bit."""
        r = self.r
        k = r.random()
        if d > 0 and k < 0.45:
            j = r.random()
            if j < 0.3:
                return '(%s && %s)' % (self.cond(d - 1, own), self.cond(d - 1, own))
            if j < 0.55:
                return '(%s || %s)' % (self.cond(d - 1, own), self.cond(d - 1, own))
            if j < 0.7:
                return '(!%s)' % self.cond(d - 1, own)
            if j < 0.8:
                return '(%s & %s)' % (self.one(d - 1, own), self.one(d - 1, own))
            if j < 0.88:
                return '(%s | %s)' % (self.one(d - 1, own), self.one(d - 1, own))
            if j < 0.94:
                return '(~%s)' % self.one(d - 1, own)
            if j < 0.97:
                return '(%s ^ %s)' % (self.one(d - 1, own), self.one(d - 1, own))
            return '(%s ? %s : %s)' % (self.one(d - 1, own), self.one(d - 1, own), self.one(d - 1, own))
        if k < 0.65 and self.mach:
            return self.state_atom(own if own is not None and r.random() < 0.8 else None)
        j = r.random()
        if j < 0.4:
            return r.choice(self.bits)
        if j < 0.5:
            return '%s[%d]' % (r.choice(self.vecs), r.randrange(8))
        if j < 0.7:
            return '(%s %s %s)' % (r.choice(self.vecs), r.choice(['==', '!=', '<', '>', '<=', '>=']), self.k8())
        if j < 0.78:
            return '(a %s b)' % r.choice(['==', '!=', '<', '>=', '<=', '>'])
        if j < 0.84:
            return '(%s%s)' % (r.choice(['&', '|', '^', '~&', '~|', '~^']), r.choice(self.vecs))
        if j < 0.9:
            return '(!%s)' % r.choice(self.bits + self.vecs)
        return '(~%s)' % r.choice(self.bits)

    def cond(self, d=2, own=None):
        """A condition, of any width."""
        r = self.r
        k = r.random()
        if k < 0.88:
            return self.one(d, own)
        if k < 0.92:
            return r.choice(self.vecs)
        if k < 0.96:
            return '(%s & %s)' % (r.choice(self.vecs), self.k8())
        if k < 0.98:
            return '(%s | %s)' % (r.choice(self.vecs), r.choice(self.vecs))
        return '(~%s)' % r.choice(self.vecs)

    # -------------------------------------------------------------- statements
    def value(self, m):
        r = self.r
        n, w, labels, off = m
        k = r.random()
        if k < 0.85:
            return r.choice(labels)
        if k < 0.93:
            return "%d'd%d" % (w, r.randrange(1 << w))
        if k < 0.96:
            return str(r.randrange(1 << w))
        if k < 0.98:
            return str(r.randrange(1 << w) + (1 << w))
        return '%s ? %s : %s' % (self.one(1, m), r.choice(labels), r.choice(labels))

    def stmt(self, m, lhs, op, d):
        r = self.r
        n, w, labels, off = m
        k = r.random()
        if d <= 0 or k < 0.2:
            if r.random() < 0.08:
                return '%s %s %s;' % (lhs, op, n)
            return '%s %s %s;' % (lhs, op, self.value(m))
        if k < 0.62:
            s = 'if(%s) begin %s end' % (self.cond(r.choice([0, 1, 2]), m), self.stmt(m, lhs, op, d - 1))
            if r.random() < 0.5:
                s += ' else begin %s end' % self.stmt(m, lhs, op, d - 1)
            return s
        if k < 0.72:
            return '%s %s' % (self.stmt(m, lhs, op, d - 1), self.stmt(m, lhs, op, d - 1))
        if k < 0.82:
            c = r.choice(self.vecs)
            arms = ' '.join("2'd%d: begin %s end" % (v, self.stmt(m, lhs, op, d - 1)) for v in r.sample(range(4), r.randint(1, 3)))
            return 'case(%s[1:0]) %s%s endcase' % (c, arms, ' default: begin %s end' % self.stmt(m, lhs, op, d - 1) if r.random() < 0.5 else '')
        return self.cases(m, lhs, op, d - 1)

    def cases(self, m, lhs, op, d):
        r = self.r
        n, w, labels, off = m
        ls = list(labels)
        r.shuffle(ls)
        arms = []
        while ls:
            take = 2 if len(ls) > 1 and r.random() < 0.1 else 1
            arms.append('%s: begin %s end' % (', '.join(ls[:take]), self.stmt(m, lhs, op, d)))
            ls = ls[take:]
        if r.random() < 0.2 and len(arms) > 2:
            arms.pop()
        if r.random() < 0.4:
            arms.append('default: begin %s end' % self.stmt(m, lhs, op, 0))
        return 'case(%s)\n      %s\n    endcase' % (n, '\n      '.join(arms))

    # -------------------------------------------------------------- the module
    def design(self):
        r = self.r
        items, decl = [], []
        rst = r.choice(['RST', 'RST', 'rst', 'rst_x', 'reset', 'rst_n'])
        low = rst in ('rst_x', 'rst_n')
        names = r.sample(NAMES, r.choice([1, 1, 2]))
        sub = r.random() < 0.3
        machines = []
        for n in names:
            w = r.choice([1, 2, 2, 3, 3, 3, 4])
            off = r.choice([0, 0, 0, 1])
            N = r.randint(2, min(6, 1 << w))
            vals = list(range(N)) if r.random() < 0.5 else r.sample(range(1 << w), N)
            if r.random() < 0.15 and N <= w:
                vals = [1 << j for j in range(N)]
            labels = []
            kind = r.choice(['localparam', 'localparam', 'parameter', 'plain'])
            for j, v in enumerate(vals):
                if kind == 'plain':
                    labels.append("%d'd%d" % (w, v))
                else:
                    p = '%s_S%d' % (n.upper(), j)
                    decl.append('  %s %s%s = %s;' % (kind, '[%d:0] ' % (w - 1) if r.random() < 0.3 else '', p,
                                                     "%d'd%d" % (w, v) if r.random() < 0.7 else v))
                    labels.append(p)
            decl.append('  reg %s%s;' % ('[%d:%d] ' % (w - 1 + off, off) if w > 1 or r.random() < 0.3 else '', n))
            if 'reg %s;' % n in decl[-1]:
                off = 0
            self.mach.append([n, w, labels, off])
        self.onebit = True
        for _ in range(r.randint(0, 3)):
            w = self.fresh('w')
            items.append('  wire %s;\n  assign %s = %s;' % (w, w, self.one(1)))
            self.bits.append(w)
        self.onebit = False
        if r.random() < 0.3:
            t = 'timer'
            items.append('  reg [7:0] timer;\n  always @(posedge CLK) begin if(%s) timer <= 8\'d0; else timer <= timer + 8\'d1; end' % self.one(1))
            self.vecs.append(t)
        for m in self.mach:
            n, w, labels, off = m
            style = r.choice(['case', 'case', 'case', 'if', 'next', 'next', 'wild'])
            lhs, op = (n, '<=')
            if style == 'next':
                lhs, op = self.fresh('nx'), '='
            certain = style in ('case', 'next')
            depth = r.choice([1, 1, 2, 2, 3])
            if style in ('case', 'next'):
                body = self.cases(m, lhs, op, depth)
            elif style == 'if':
                body = ' '.join('%sif(%s) begin %s end' % ('else ' if j and r.random() < 0.7 else '', self.cond(r.choice([1, 2]), m),
                                                        self.stmt(m, lhs, op, depth - 1)) for j in range(r.randint(2, 4)))
            else:
                body = self.stmt(m, lhs, op, depth + 1)
            if style == 'next':
                items.append('  reg %s%s;\n  always @* begin\n    %s = %s;\n    %s\n  end' % (
                    '[%d:0] ' % (w - 1) if w > 1 else '', lhs, lhs, n, body))
                body = '%s <= %s;' % (n, lhs)
            kind = r.choice(['none', 'sync', 'sync', 'sync', 'async', 'async'])
            edge = 'posedge CLK'
            if kind != 'none':
                c = r.choice(['!%s', '!%s', '~%s', '%s == 0', "%s == 1'b0"] if low else ['%s', '%s', "%s == 1'b1"] if kind == 'sync' else ['%s']) % rst
                if kind == 'async':
                    edge += ' or %s %s' % ('negedge' if low else 'posedge', rst)
                    c = ('!%s' if low else '%s') % rst
                body = 'if(%s) begin\n    %s <= %s;\n    end else begin\n    %s\n    end' % (c, n, r.choice(labels), body)
            items.append('  always @(%s) begin\n    %s\n  end' % (edge, body))
            machines.append([n, 'CLK', rst if kind != 'none' else None, not low, certain])
        outs = self.controlled(items, decl, rst, low) if self.outs else []
        ports = ['CLK', rst, 'a', 'b', 'go', 'x', 'y']
        io = '(input CLK, input %s, input [7:0] a, input [7:0] b, input go, input x, input y, output z);' % rst
        decl.append('  assign z = %s;' % self.one(1))
        if sub:
            inst = r.choice(['u0', 'ctrl', 'u_fsm', 'burst0', 'rst_ctl'])
            mods = [{'name': 'M', 'head': 'module M ' + io, 'decl': decl, 'items': items},
                    {'name': 'TOP', 'head': 'module TOP ' + io, 'decl': [], 'items':
                     ['  M %s (%s, .z(z));' % (inst, ', '.join('.%s(%s)' % (p, p) for p in ports))]}]
            machines = [['TOP.%s.%s' % (inst, m[0])] + m[1:] for m in machines]
            outs = [['TOP.%s.%s' % (inst, o[0]), 'TOP.%s.%s' % (inst, o[1])] + o[2:] for o in outs]
        else:
            mods = [{'name': 'TOP', 'head': 'module TOP ' + io, 'decl': decl, 'items': items}]
            machines = [['TOP.%s' % m[0]] + m[1:] for m in machines]
            outs = [['TOP.%s' % o[0], 'TOP.%s' % o[1]] + o[2:] for o in outs]
        mods = self.mods + mods
        d = {'top': 'TOP', 'modules': mods, 'clocks': ['CLK'], 'rst': rst, 'feats': [], 'machines': machines,
             'lits': sorted(set(self.lits))}
        if self.outs:
            d['outs'] = outs
        return d

    # -------------------------------------------------------------- controlled registers
    def controlled(self, items, decl, rst, low):
        r = self.r
        outs = []
        for q in r.sample(['valid', 'done', 'led', 'req', 'grant', 'data_en'], r.randint(1, 3)):
            m = r.choice(self.mach)
            w = r.choice([1, 1, 2, 4])
            const = r.random() < 0.6
            whole = 'assign'            # which ways to assign or hold the value are all under a comparison with the state
            decl.append('  reg %s%s;' % ('[%d:0] ' % (w - 1) if w > 1 else '', q))
            if not const and w == 1 and r.random() < 0.5:
                t = self.fresh('tw')
                self.mods.append({'name': 'H_' + q, 'head': 'module H_%s(input CLK, input d, output o);' % q, 'decl': ['  reg %s;' % q], 'items':
                                  ['  assign o = %s;' % q, '  always @(posedge CLK) begin\n    %s <= d;\n  end' % q]})
                items.append('  wire %s;\n  H_%s h_%s(.CLK(CLK), .d(%s), .o(%s));' % (t, q, q, r.choice(self.bits + ['a[0]', 'b[1]']), t))
                self.twin[q] = t
            k = r.random()
            if k < 0.5:
                body = self.ocases(m, q, w, const)
                whole = 'assign hold'
            elif k < 0.85:
                body = ' '.join('%sif(%s) begin %s end' % ('else ' if j and r.random() < 0.8 else '', self.at(m), self.ostmt(m, q, w, const, 1))
                                for j in range(r.randint(1, 3)))
                if r.random() < 0.3 and not re.search(r'end if', body):
                    body += ' else begin %s end' % self.ostmt(m, q, w, const, 1)
                    whole = ''
            else:
                mach, self.mach = self.mach, []         # bits of the state are no comparison with it
                c = self.cond(1)
                self.mach = mach
                body = 'if(%s) begin %s end' % (c, self.ocases(m, q, w, const))
            kind = r.choice(['none', 'sync', 'sync', 'async'])
            edge = 'posedge CLK'
            if kind != 'none':
                c = ('!%s' if low else '%s') % rst
                if kind == 'async':
                    edge += ' or %s %s' % ('negedge' if low else 'posedge', rst)
                body = 'if(%s) begin\n    %s <= 0;\n    end else begin\n    %s\n    end' % (c, q, body)
            items.append('  always @(%s) begin\n    %s\n  end' % (edge, body))
            outs.append([q, m[0], rst if kind != 'none' else None, not low, const, whole])
        return outs

    def at(self, m):
        """A condition that implies something of the state of this machine."""
        r = self.r
        n, w, labels, off = m
        self.onebit = True
        try:
            e = self.one(1)
        finally:
            self.onebit = False
        c = '%s %s %s' % (n, r.choice(['==', '==', '==', '!=', '<', '>=']), r.choice(labels))
        k = r.random()
        if k < 0.4:
            return c
        if k < 0.6:
            return '(%s) && %s' % (c, e)
        if k < 0.75:
            return '%s & (%s)' % (e, c)
        if k < 0.9:
            return '(%s) %s (%s == %s)' % (c, r.choice(['||', '|']), n, r.choice(labels))
        return '!((%s) || (%s == %s))' % (c, n, r.choice(labels))

    def ovalue(self, q, w, const):
        r = self.r
        k = r.random()
        if k < 0.1:
            return q
        if q in self.twin and k < 0.6:
            return self.twin[q]
        if k < 0.3 and not const:
            return r.choice(['a[%d:0]' % (w - 1), 'b[%d:0]' % (w - 1)]) if w > 1 else r.choice(self.bits)
        return "%d'd%d" % (w, r.randrange(1 << w))

    def ostmt(self, m, q, w, const, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.5:
            return '%s <= %s;' % (q, self.ovalue(q, w, const))
        s = 'if(%s) begin %s end' % (self.cond(1, m), self.ostmt(m, q, w, const, d - 1))
        if r.random() < 0.5:
            s += ' else begin %s end' % self.ostmt(m, q, w, const, d - 1)
        return s

    def ocases(self, m, q, w, const):
        r = self.r
        n, _, labels, off = m
        arms = ['%s: begin %s end' % (x, self.ostmt(m, q, w, const, r.choice([0, 1, 2]))) for x in r.sample(labels, r.randint(1, len(labels)))]
        if r.random() < 0.3:
            arms.append('default: begin %s end' % self.ostmt(m, q, w, const, 0))
        return 'case(%s)\n      %s\n    endcase' % (n, '\n      '.join(arms))
