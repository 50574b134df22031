"""Seeded behavioural models that drive themselves: processes with delays, events, waits, forks and disabled loops.

Their transcript ($display at simulated times) is their behaviour.  Processes own the variables they write.
"""


def design(r):
    """{'top': 'TB', 'modules': [{'name', 'head', 'decl', 'items'}]}"""
    return T(r).design()


class T(object):
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.vars = []          # [name, width, signed, kind]; kind: reg, integer, real, bit
        self.own = []
        self.funcs = []
        self.consts = []
        self.nets = []
        self.loops = 0
        self.blocks = []        # named blocks that may be disabled here
        self.p = 0
        self.started = set()    # have a value in their declaration
        self.local = False

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ------------------------------------------------------------------ expressions
    def num(self):
        r = self.r
        w = r.choice([1, 3, 4, 8, 8, 16])
        v = r.choice([0, 1, 2, 3, (1 << w) - 1, r.randrange(1 << w)]) % (1 << w)
        k = r.random()
        if k < 0.3:
            return str(v)
        if k < 0.4:
            return "'d%d" % v
        s = 's' if r.random() < 0.15 else ''
        if k < 0.55:
            return "%d'%sd%d" % (w, s, v)
        if k < 0.7:
            return "%d'%sh%x" % (w, s, v)
        if k < 0.8:
            return "%d'%so%o" % (w, s, v)
        b = bin(v)[2:].zfill(w)
        if r.random() < 0.25:
            b = ''.join(r.choice('xz') if r.random() < 0.3 else c for c in b)
        if r.random() < 0.2 and len(b) > 2:
            b = b[:2] + '_' + b[2:]
        return "%d'%sb%s" % (w, s, b)

    def fnum(self):
        return self.r.choice(['1.5', '0.25', '2.0e3', '1.0e-2', '3.75', '10.0', '1e2'])

    def ex(self, d):
        """An integral expression."""
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.25:
            j = r.random()
            if j < 0.3:
                return self.num()
            rd = [v for v in self.vars if v[3] != 'real']
            n, w, s, kind = r.choice(rd)
            if kind == 'reg' and w > 1 and j < 0.5:
                a = r.randrange(w)
                b = r.randrange(a + 1)
                c = r.random()
                return '%s[%d]' % (n, a) if c < 0.4 else '%s[%d:%d]' % (n, a, b) if c < 0.7 else \
                    '%s[%d+:%d]' % (n, b, a - b + 1) if c < 0.85 else '%s[%d-:%d]' % (n, a, a - b + 1)
            if j < 0.57 and self.consts:
                return r.choice(self.consts)
            if j < 0.64 and self.nets:
                return r.choice(self.nets)
            return n
        if k < 0.6:
            op = r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '~^', '<<', '>>', '<<<', '>>>', '==', '!=', '<', '>', '<=', '>=', '===', '!==',
                           '&&', '||', '-', '**'])
            b = self.ex(d - 1)
            if op == '**':
                b = str(r.randrange(4))
            if op in ('<<', '>>', '<<<', '>>>'):
                b = r.choice([str(r.randrange(9)), '(%s & 7)' % b])
            t = '%s %s %s' % (self.ex(d - 1), op, b)
            return '(%s)' % t if r.random() < 0.75 else t
        if k < 0.7:
            return '%s(%s)' % (r.choice(['~', '!', '-', '&', '|', '^', '~&', '~|', '~^', '+']), self.ex(d - 1))
        if k < 0.78:
            return '(%s ? %s : %s)' % (self.ex(d - 1), self.ex(d - 1), self.ex(d - 1))
        if k < 0.85:
            return '{%s}' % ', '.join(self.sized(d - 1) for _ in range(r.randint(1, 3)))
        if k < 0.89:
            return '{%d{%s}}' % (r.randint(1, 3), self.sized(d - 1))
        if k < 0.95 and self.funcs:
            f, n = r.choice(self.funcs)
            return '%s(%s)' % (f, ', '.join(self.ex(d - 1) for _ in range(n)))
        return '%s(%s)' % (r.choice(['$signed', '$unsigned', '$clog2']) if r.random() < 0.8 else '$signed', self.ex(d - 1))

    def sized(self, d):
        r = self.r
        rd = [v for v in self.vars if v[3] == 'reg']
        if r.random() < 0.6:
            return r.choice(rd)[0]
        return "%d'd%d" % (4, r.randrange(16)) if r.random() < 0.5 else '(%s & 8\'hf)' % r.choice(rd)[0]

    def rex(self, d):
        """A real expression."""
        r = self.r
        k = r.random()
        reals = [v[0] for v in self.vars if v[3] == 'real']
        if d <= 0 or k < 0.4:
            return r.choice(reals) if reals and r.random() < 0.6 else self.fnum()
        if k < 0.8:
            t = '%s %s %s' % (self.rex(d - 1), r.choice(['+', '-', '*', '-']), self.rex(d - 1))
            return '(%s)' % t if r.random() < 0.7 else t
        if k < 0.9:
            return '-(%s)' % self.rex(d - 1)
        return '$itor(%s)' % self.ex(0)

    # ------------------------------------------------------------------ statements
    def delay(self):
        r = self.r
        n = r.randint(1, 9)
        k = r.random()
        if k < 0.6:
            return '#%d' % n
        if k < 0.75:
            return '#(%d + %d)' % (n, r.randint(0, 3))
        if k < 0.9:
            return '#D'
        return '#(D * %d - 1)' % r.randint(1, 3)

    def display(self):
        r = self.r
        if r.random() < 0.1:
            return '$display("p%d %%0t", $time);' % self.p
        args, fmt = [], 'p%d %%0t %s ' % (self.p, r.choice(['a', 'it is', 'x=', 'val:', '50%%', '(x)', 'a;b', 'c,d', '{e}', '// no', '[0]', 'q\\n', "it's", 'tab\\t.', 'if(a) begin', '/* a */']))
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.2 and any(v[3] == 'real' for v in self.vars):
                fmt += ' %f'
                args.append(self.rex(1))
            else:
                fmt += ' ' + r.choice(['%b', '%d', '%h', '%0d', '%o'])
                args.append(self.ex(r.choice([0, 0, 1, 2])))
        return '$display("%s", $time, %s);' % (fmt, ', '.join(args))

    def assign(self, timed, op=None):
        r = self.r
        n, w, s, kind = r.choice(self.own)
        op = op or r.choice(['=', '=', '=', '<='])
        if kind == 'real':
            return '%s %s %s;' % (n, '=', self.rex(r.choice([0, 1, 2])))
        if kind == 'mem':
            n = '%s[%d]' % (n, r.randrange(4))
        elif kind == 'reg' and w > 1 and r.random() < 0.25:
            a = r.randrange(w)
            b = r.randrange(a + 1)
            n = r.choice(['%s[%d]' % (n, a), '%s[%d:%d]' % (n, a, b), '%s[%d+:%d]' % (n, b, a - b + 1)])
        elif kind == 'reg' and r.random() < 0.1:
            m = r.choice([v for v in self.own if v[3] == 'reg'])[0]
            if m != n:
                n = '{%s, %s}' % (n, m)
        pre = self.delay() + ' ' if timed and r.random() < 0.15 else ''
        mid = self.delay() + ' ' if r.random() < 0.12 and (op == '<=' or timed) else ''
        return '%s%s %s %s%s;' % (pre, n, op, mid, self.ex(r.choice([0, 1, 2, 3])))

    def many(self, d, timed, n=None):
        return ' '.join(self.stmt(d, timed) for _ in range(n or self.r.randint(1, 3)))

    def body(self, d, timed):
        r = self.r
        k = r.random()
        if k < 0.25:
            return self.simple(timed)
        if k < 0.33:
            return self.stmt(d, timed)
        if k < 0.4:
            return 'begin : %s %s end' % (self.fresh('blk'), self.many(d, timed))
        return 'begin %s end' % self.many(d, timed)

    def simple(self, timed):
        r = self.r
        k = r.random()
        if k < 0.3:
            return self.display()
        if k < 0.38 and timed:
            return self.delay() + ';'
        return self.assign(timed)

    def stmt(self, d, timed):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.35:
            return self.simple(timed)
        if k < 0.5:
            s = '%sif(%s) %s' % (self.delay() + ' ' if timed and r.random() < 0.15 else '', self.ex(r.choice([0, 1, 2])),
                               'begin %s end' % self.many(d - 1, timed) if r.random() < 0.6 else self.body(d - 1, timed))
            if r.random() < 0.5:
                s += ' else %s' % self.body(d - 1, timed)
            return s
        if k < 0.6:
            c = r.choice(['case', 'case', 'casez', 'casex'])
            arms = []
            for _ in range(r.randint(1, 3)):
                lab = ', '.join(self.num() if r.random() < 0.8 else self.ex(1) for _ in range(r.choice([1, 1, 2])))
                arms.append('%s: %s' % (lab, self.body(d - 1, timed)))
            if r.random() < 0.6:
                arms.append('default: %s' % self.body(d - 1, timed))
            return '%s(%s) %s endcase' % (c, self.ex(1), ' '.join(arms))
        if k < 0.68:
            i = self.loopvar()
            if i:
                b = self.body(d - 1, timed)
                step = r.choice(['%s = %s + 1', '%s = %s + 2']) % (i, i)
                return 'for(%s = %s; %s < %d; %s) %s' % (i, r.choice(['0', '1']), i, r.randint(2, 5), step, b)
        if k < 0.74:
            i = self.loopvar()
            if i:
                b = self.many(d - 1, timed)
                return 'begin %s = 0; while(%s < %d) begin %s = %s + 1; %s end end' % (i, i, r.randint(1, 4), i, i, b)
        if timed and k < 0.82:
            i = self.loopvar()
            if i:
                n = self.fresh('lp')
                b = self.many(d - 1, timed)
                return 'begin : %s %s = 0; forever begin %s; %s = %s + 1; if(%s > %d) disable %s; %s end end' % (
                    n, i, self.delay(), i, i, i, r.randint(1, 4), n, b)
        if timed and k < 0.88 and not self.local:
            return 'fork %s join' % ' '.join('begin %s %s end' % (self.delay() + ';', self.many(d - 1, timed)) for _ in range(r.randint(1, 3)))
        if timed and k < 0.92:
            return r.choice(['@(posedge ck);', '@(negedge ck);', '@(ck);', '@(posedge ck or negedge ck2);', '@(ck, ck2);', '@(posedge ck2 or negedge ck2);'])
        if timed and k < 0.95:
            return 'wait(%s)%s' % (r.choice(['ck', '!ck', 'ck & !ck2', 'ck === 1\'b1']), r.choice([';', ' ' + self.simple(timed)]))
        if k < 0.98 and not self.local:
            n = self.fresh('nb')
            v = self.fresh('lv')
            kind = r.choice(['reg', 'integer'])
            w = r.choice([4, 8])
            one = [v, w if kind == 'reg' else 32, False, kind]
            self.vars.append(one)
            self.own.append(one)
            s = 'begin : %s %s %s; %s = 0; %s end' % (n, 'reg [%d:0]' % (w - 1) if kind == 'reg' else 'integer', v, v, self.many(d - 1, timed, 2))
            self.vars.remove(one)
            self.own[:] = [v for v in self.own if v is not one]
            return s
        return 'begin %s end' % self.many(d - 1, timed)

    def loopvar(self):
        free = [v for v in self.own if v[3] == 'integer']
        if not free or len(free) < 2:
            return None
        # a variable that the body does not write
        v = free[-1]
        self.own.remove(v)
        self.taken.append(v)
        return v[0]

    # ------------------------------------------------------------------ the module
    def function(self):
        r = self.r
        f = self.fresh('fn')
        n = r.randint(1, 2)
        args = [self.fresh('fa') for _ in range(n)]
        w = r.choice([4, 8])
        keep = self.vars, self.own, self.funcs, self.nets, self.local
        self.funcs, self.nets, self.local = [], [], True
        self.vars = [[a, w, False, 'reg'] for a in args]
        loc = self.fresh('fi')
        self.vars.append([loc, 32, True, 'integer'])
        self.own = [[f, w, False, 'reg'], [loc, 32, True, 'integer']]
        self.taken = []
        L = ['%s = 0;' % loc, '%s = %s;' % (f, self.ex(2))]
        for _ in range(r.randint(0, 2)):
            s = self.stmt(2, False)
            if '$display' not in s and '<=' not in s.replace(' <= ', ' <= ') and '#' not in s and 'begin :' not in s:
                L.append(s)
        ret = r.choice(['[%d:0] ' % (w - 1), '[%d:0] ' % (w - 1), 'integer '])
        s = '  function %s%s;\n    %s\n    integer %s;\n    begin\n    %s\n    end\n  endfunction' % (
            ret, f, '\n    '.join('input [%d:0] %s;' % (w - 1, a) for a in args), loc, '\n    '.join(L))
        self.vars, self.own, self.funcs, self.nets, self.local = keep
        self.funcs.append((f, n))
        return s

    def design(self):
        r = self.r
        decl, items, mods = [], [], []
        decl.append('  %s D = %d;' % (r.choice(['parameter', 'localparam', 'parameter integer', 'localparam [3:0]']), r.randint(2, 5)))
        self.consts.append('D')
        if r.random() < 0.4:
            decl.append('  %s K = %s;' % (r.choice(['parameter', 'localparam', 'parameter signed [7:0]', 'parameter [7:0]']), self.num()))
            self.consts.append('K')
        decl += ['  reg ck;', '  reg ck2;']
        self.vars += [['ck', 1, False, 'bit'], ['ck2', 1, False, 'bit']]
        procs = []
        for _ in range(r.randint(1, 3)):
            own = []
            for _ in range(r.randint(1, 3)):
                v, w, s = self.fresh('v') if r.random() < 0.95 else '\\v%d+*(' % r.randrange(9) + self.fresh('e') + ' ', r.choice([1, 4, 8, 8, 16]), r.random() < 0.3
                start = ' = %d' % r.randrange(1 << w) if r.random() < 0.15 else ''
                if start:
                    self.started.add(v)
                decl.append('  reg %s%s%s%s;' % ('signed ' if s else '', '[%d:0] ' % (w - 1) if w > 1 else '', v, start))
                own.append([v, w, s, 'reg'])
            for _ in range(r.randint(1, 3)):
                v = self.fresh('i')
                decl.append('  integer %s%s;' % (v, ' = %d' % r.randrange(9) if r.random() < 0.3 else ''))
                own.append([v, 32, True, 'integer'])
            if r.random() < 0.4:
                v = self.fresh('f')
                decl.append('  real %s;' % v)
                own.append([v, 64, True, 'real'])
            if r.random() < 0.3:
                v = self.fresh('m')
                decl.append('  reg [7:0] %s [0:3];' % v)
                own.append([v, 8, False, 'mem'])
            procs.append(own)
            self.vars += [v for v in own if v[3] != 'mem']
            self.vars += [['%s[%d]' % (v[0], k), 8, False, 'bit'] for v in own if v[3] == 'mem' for k in range(2)]
        for _ in range(r.randint(0, 2)):
            items.append(self.function())
        if r.random() < 0.3:
            decl.append('  %s %s, %s;' % (r.choice(['wire', 'reg [3:0]', 'integer', 'real', 'wire signed [7:0]', 'tri [1:0]']), self.fresh('z'), self.fresh('z')))
        if r.random() < 0.15:
            t, a, b = self.fresh('ta'), self.fresh('tp'), self.fresh('tl')
            items.append('  task %s;\n    input [3:0] %s;\n    %s %s;\n    begin\n      %s = %s %s 1;\n      $display("%%d", %s);\n    end\n  endtask' % (
                t, a, r.choice(['reg [7:0]', 'integer']), b, b, a, r.choice(['+', '<<', '==']), b))
        for _ in range(r.randint(0, 3)):
            n, w = self.fresh('n'), r.choice([1, 4, 8])
            k = r.random()
            e = self.ex(2)
            ww = '[%d:0] ' % (w - 1) if w > 1 else ''
            if k < 0.3:
                items.append('  wire %s%s%s = %s;' % (ww, r.choice(['', '', '#%d ' % r.randint(1, 4), '#(D + 1) ']), n, e))
            elif k < 0.5:
                items.append('  wire %s%s;\n  assign %s %s = %s;' % (ww, n, '#%d' % r.randint(1, 4), n, e))
            elif k < 0.7:
                items.append('  tri %s%s;\n  assign %s = ck ? %s : %d\'bz;\n  assign %s = ck ? %d\'bz : %s;' % (ww, n, n, e, w, n, w, self.ex(1)))
            elif k < 0.85:
                items.append('  wire %s%s;\n  assign %s = %s;' % (ww, n, n, e))
            else:
                items.append('  supply%d %s;' % (r.randrange(2), n))
            self.nets.append(n)
        if r.random() < 0.5:
            mods.append(self.sub())
            u = self.fresh('u')
            o = self.fresh('o')
            k = r.random()
            par = r.choice(['', '#(.P(%s)) ' % r.choice(['3', "8'd5", 'D', '(D + 1)']), '#(%d) ' % r.randrange(9), '#(.S("%s")) ' % r.choice(['on', 'a b', 'x;', ''])])
            if k < 0.6:
                items.append('  wire [7:0] %s;\n  SUB %s%s(.ck(ck), .d(%s), .q(%s)%s);' % (o, par, u, self.ex(1), o, r.choice(['', ', .e()', ', .e(ck2)'])))
                self.nets.append(u + '.t')
            elif k < 0.8:
                items.append('  wire [15:0] %s;\n  SUB %s%s [1:0] (.ck(ck), .d(16\'d%d), .q(%s), .e(ck2));' % (o, par, u, r.randrange(1 << 16), o))
            else:
                g = self.fresh('g')
                items.append('  wire [15:0] %s;\n  genvar gi;\n  generate for(gi = 0; gi < 2; gi = gi + 1) begin : %s\n    SUB %s%s(ck, %s, %s[gi * 8 +: 8], ck2);\n  end endgenerate' % (
                    o, g, par, u, self.ex(1), o))
                self.nets.append('%s[%d].%s.t' % (g, r.randrange(2), u))
            self.nets.append(o)
        if r.random() < 0.3:
            y = self.fresh('y')
            items.append('  wire %s;\n  %s %s(%s, ck, ck2%s);' % (y, r.choice(['and', 'or', 'xor', 'nand', 'nor', 'xnor']), r.choice(['', self.fresh('ga')]), y,
                                                                   r.choice(['', ', !ck', ', ck ^ ck2'])))
            self.nets.append(y)
        items.append('  initial begin\n    #2;\n    ck = 0;\n    ck2 = %d;\n    forever begin\n      #7; ck = !ck;\n      #%d; ck2 = ~ck2;\n    end\n  end' % (r.randrange(2), r.choice([4, 7, 13])))
        items.append('  initial begin\n    #%s;\n    $finish%s;\n  end' % (r.choice(['300', '(100 * 3)', '256']), r.choice(['', '(0)'])))
        for own in procs:
            self.p += 1
            self.own = list(own)
            self.taken = []
            k = r.random()
            init = ' '.join('%s = %s;' % (v[0] if v[3] != 'mem' else v[0] + '[0]', self.fnum() if v[3] == 'real' else r.randrange(16)) for v in own if r.random() < 0.9 and v[0] not in self.started)
            prag = r.choice(['', '', '', '  (* keep *)\n', '  (* full_case = 1 *)\n'])
            if k < 0.6:
                items.append(prag + '  initial begin%s\n    %s\n    #%d;\n    %s\n    %s\n  end' % (
                    ' : ' + self.fresh('ini') if r.random() < 0.2 else '', init, self.p, '\n    '.join(self.stmt(3, True) for _ in range(r.randint(2, 5))), self.display()))
            else:
                items.append('  initial begin %s end' % init)
                items.append(prag + '  always @(%s) begin\n    %s\n    %s\n  end' % (
                    r.choice(['posedge ck', 'negedge ck2', 'posedge ck or negedge ck2', 'ck', 'ck or ck2', 'posedge ck, posedge ck2', 'posedge ck or negedge ck', 'negedge ck2, posedge ck2']),
                    '\n    '.join(self.stmt(3, r.random() < 0.3) for _ in range(r.randint(1, 4))), self.display()))
        if r.random() < 0.25:
            # an always block that is a single statement
            self.p += 1
            v = self.fresh('c')
            decl.append('  integer %s = 0;' % v)
            items.append('  always #%d %s = %s + 1;' % (r.randint(20, 40), v, v) if r.random() < 0.5 else '  always @(posedge ck) %s <= %s + 1;' % (v, v))
            items.append('  initial begin #(290 / 2); $display("p%d %%0t %%d", $time, %s); end' % (self.p, v))
        top = {'name': 'TB', 'head': 'module TB;', 'decl': decl, 'items': items}
        return {'top': 'TB', 'modules': mods + [top] if r.random() < 0.7 else [top] + mods}

    def sub(self):
        r = self.r
        head = 'module SUB %s' % r.choice(['#(parameter P = 1, parameter S = "off") ', '#(parameter P = 1, S = "off") ', '#(parameter [7:0] P = 1, parameter S = "off") '])
        decl = ['  reg [3:0] t;']
        k = r.random()
        if k < 0.6:
            head += '(input ck, input [7:0] d, output reg [7:0] q, input e);'
        elif k < 0.8:
            head += '(ck, d, q, e);'
            decl += ['  input ck, e;', '  input [7:0] d;', '  output [7:0] q;', '  reg [7:0] q;']
        else:
            head = 'module SUB(ck, d, q, e);'
            decl = ['  parameter P = 1, S = "off";', '  input ck;', '  input e;', '  input [7:0] d;', '  output reg [7:0] q;', '  reg [3:0] t, unused;']
        return {'name': 'SUB', 'head': head,
            'decl': decl, 'items': [
                '  initial begin t = %d; q = 0; end' % r.randrange(16),
                '  always @(%s ck) begin\n    q <= d + P;\n    t <= t + %s;\n  end' % (r.choice(['posedge', 'negedge']), r.choice(['1', 'P', "4'd3"])),
                '  initial begin #%d; $display("p9%s %%0t %%s %%d %%b", $time, S, P, e); end' % (r.randint(200, 230), r.choice(['', ' %m']))]}
