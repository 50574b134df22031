"""Event-driven two-state simulator of elaborated designs (the reference world).

Processes are compiled to Python functions.  Which runnable process goes next,
and in which order nonblocking updates of one instant are applied to different
signals, is decided by the seeded scheduler passed in.  Registers start with
seeded values instead of X.
"""
from . import vfront
from .vfront import VError, ARITH, CMP, size, signed


def ts(v, w):
    """Two's complement reading."""
    return v - (1 << w) if v >> (w - 1) else v


def sx(v, w, W):
    return v | (((1 << W) - 1) ^ ((1 << w) - 1)) if v >> (w - 1) else v


def sdiv(a, b):
    if b == 0:
        raise VError('division by zero')
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def smod(a, b):
    if b == 0:
        raise VError('modulo by zero')
    r = abs(a) % abs(b)
    return -r if a < 0 else r


def parity(v):
    return bin(v).count('1') & 1


def shl(v, n, W):
    return 0 if n >= W else (v << n) & ((1 << W) - 1)


def vpow(a, b, W, sg):
    if b < 0:
        raise VError('negative power')
    return pow(a, b, 1 << W)


def bitsel(v, i, w):
    if 0 <= i < w:
        return (v >> i) & 1
    raise VError('bit select out of range')


class Gen(object):
    """Expressions and statements -> Python source."""

    def __init__(self):
        self.funcs = {}
        self.reads = set()
        self.writes = set()
        self.nwrites = set()
        self.memw = False

    def m(self, w):
        return '0x%x' % ((1 << w) - 1)

    def ev(self, e, W=None, sg=None):
        """Python expression for e in context width W; value in [0, 2**W)."""
        w = size(e)
        if W is None:
            W = w
        W = max(W, w)
        if sg is None:
            sg = signed(e)
        k = e[0]
        if k == 'ev':
            return '0x%x' % (e[1] & ((1 << W) - 1))
        if k == 'num':
            v = e[1]
            if sg:
                v = sx(v, w, W)
            return '0x%x' % v
        if k in ('sig', 'lvar', 'mem', 'bit', 'part', 'ipart', 'cat', 'call', 'signed', 'unsigned'):
            return self.ext(self.leaf(e), w, W, sg)
        if k == 'un':
            op = e[1]
            if op in ('+', '-', '~'):
                a = self.ev(e[2], W, sg)
                if op == '+':
                    return a
                if op == '-':
                    return '((-%s)&%s)' % (a, self.m(W))
                return '(%s^%s)' % (a, self.m(W))
            wa = size(e[2])
            a = self.ev(e[2])
            full = self.m(wa)
            return {'!': '(0 if %s else 1)' % a,
                    '&': '(1 if %s==%s else 0)' % (a, full),
                    '~&': '(0 if %s==%s else 1)' % (a, full),
                    '|': '(1 if %s else 0)' % a,
                    '~|': '(0 if %s else 1)' % a,
                    '^': 'parity(%s)' % a,
                    '~^': '(1^parity(%s))' % a}[op]
        if k == 'bin':
            op = e[1]
            if op in ARITH:
                a, b = self.ev(e[2], W, sg), self.ev(e[3], W, sg)
                if op in '&|^' and len(op) == 1:
                    return '(%s%s%s)' % (a, op, b)
                if op == '~^':
                    return '(%s^%s^%s)' % (a, b, self.m(W))
                if op in ('+', '-', '*'):
                    return '((%s%s%s)&%s)' % (a, op, b, self.m(W))
                f = 'sdiv' if op == '/' else 'smod'
                if sg:
                    return '(%s(ts(%s,%d),ts(%s,%d))&%s)' % (f, a, W, b, W, self.m(W))
                return '(%s(%s,%s)&%s)' % (f, a, b, self.m(W))
            if op in CMP:
                wc = max(size(e[2]), size(e[3]))
                sc = signed(e[2]) and signed(e[3])
                a, b = self.ev(e[2], wc, sc), self.ev(e[3], wc, sc)
                o = {'===': '==', '!==': '!='}.get(op, op)
                if sc and o not in ('==', '!='):
                    a, b = 'ts(%s,%d)' % (a, wc), 'ts(%s,%d)' % (b, wc)
                return '(1 if %s%s%s else 0)' % (a, o, b)
            if op in ('&&', '||'):
                return '(1 if (%s) %s (%s) else 0)' % (self.ev(e[2]), 'and' if op == '&&' else 'or', self.ev(e[3]))
            a = self.ev(e[2], W, sg)
            b = self.ev(e[3])
            if op in ('<<', '<<<'):
                return 'shl(%s,%s,%d)' % (a, b, W)
            if op == '>>':
                return '(%s>>%s)' % (a, b)
            if op == '>>>':
                if sg:
                    return '((ts(%s,%d)>>%s)&%s)' % (a, W, b, self.m(W))
                return '(%s>>%s)' % (a, b)
            if op == '**':
                if signed(e[3]):
                    b = 'ts(%s,%d)' % (b, size(e[3]))
                return 'vpow(%s,%s,%d,%d)' % (a, b, W, sg)
        if k == 'cond':
            return '(%s if %s else %s)' % (self.ev(e[2], W, sg), self.ev(e[1]), self.ev(e[3], W, sg))
        raise VError(k)

    def ext(self, code, w, W, sg):
        if W == w or not sg:
            return code
        return 'sx(%s,%d,%d)' % (code, w, W)

    def lv(self, v):
        return 'L_' + v.name.replace('.', '_').replace('$', '_').replace('[', '_').replace(']', '_')

    def leaf(self, e):
        k = e[0]
        if k == 'sig':
            self.reads.add(e[1].index)
            return 'S[%d]' % e[1].index
        if k == 'lvar':
            return self.lv(e[1])
        if k == 'mem':
            self.reads.add(e[1].index)
            return 'S[%d][memidx(%s,%d,%d)]' % (e[1].index, self.ev(e[2]), e[1].abase, e[1].depth)
        if k == 'bit':
            base = self.leaf(e[1]) if e[1][0] != 'num' else '0x%x' % e[1][1]
            s = vfront.selsig(e[1])
            idx = self.idx(e[2])
            if s is None:
                return 'bitsel(%s,%s,%d)' % (base, idx, size(e[1]))
            pos = '(%s-%d)' % (idx, s.lsb) if s.msb >= s.lsb else '(%d-%s)' % (s.lsb, idx)
            return 'bitsel(%s,%s,%d)' % (base, pos, s.width)
        if k == 'part':
            return '((%s>>%d)&%s)' % (self.leaf(e[1]), e[2], self.m(e[3]))
        if k == 'ipart':
            s = e[1][1]
            lo = '(%s-%d)' % (self.idx(e[2]), s.lsb + (0 if e[4] else e[3] - 1))
            return 'ipart(%s,%s,%d,%d)' % (self.leaf(e[1]), lo, e[3], s.width)
        if k == 'cat':
            parts, sh = [], 0
            for x in reversed(e[1]):
                c = self.ev(x)
                parts.append('(%s<<%d)' % (c, sh) if sh else c)
                sh += size(x)
            return '(%s)' % '|'.join(parts)
        if k in ('signed', 'unsigned'):
            return self.ev(e[1])
        if k == 'call':
            f = e[1]
            args = []
            for p, a in zip(f.ports, e[2]):
                w = max(p.width, size(a))
                args.append('(%s)&%s' % (self.ev(a, w), self.m(p.width)))
            self.funcs[f.path] = f
            return '%s(%s)' % (self.fname(f), ', '.join(['S'] + args))
        raise VError(k)

    def idx(self, e):
        """An index as a Python integer (signed indices may be negative)."""
        c = self.ev(e)
        return 'ts(%s,%d)' % (c, size(e)) if signed(e) else c

    def fname(self, f):
        return 'F_' + f.path.replace('.', '_').replace('$', '_').replace('[', '_').replace(']', '_')

    # ---- lvalues
    def lwidth(self, l):
        if l[0] == 'cat':
            return sum(self.lwidth(x) for x in l[1])
        return size(l)

    def store(self, l, code, ind, nba):
        """Source lines storing the Python expression `code` (width of l) to l."""
        out = []
        if l[0] == 'cat':
            self.tmp = getattr(self, 'tmp', 0) + 1
            t = 't%d' % self.tmp
            out.append('%s%s = %s' % (ind, t, code))
            off = self.lwidth(l)
            for x in l[1]:
                w = self.lwidth(x)
                off -= w
                out += self.store(x, '(%s>>%d)&%s' % (t, off, self.m(w)), ind, nba)
            return out
        if l[0] == 'lvar':
            return ['%s%s = %s' % (ind, self.lv(l[1]), code)]
        base = l
        lo = None
        w = size(l)
        if l[0] == 'bit':
            s = vfront.selsig(l[1])
            i = self.idx(l[2])
            lo = '(%s-%d)' % (i, s.lsb) if s.msb >= s.lsb else '(%d-%s)' % (s.lsb, i)
            base = l[1]
        elif l[0] == 'part':
            lo = str(l[2])
            base = l[1]
        elif l[0] == 'ipart':
            s = l[1][1]
            lo = '(%s-%d)' % (self.idx(l[2]), s.lsb + (0 if l[4] else l[3] - 1))
            base = l[1]
        if base[0] == 'lvar':
            v = self.lv(base[1])
            return ['%s%s = setbits(%s, %s, %d, %s, %d)' % (ind, v, v, lo, w, code, base[1].width)]
        if base[0] not in ('sig', 'mem'):
            raise VError('cannot assign to %s' % base[0])
        s = base[1]
        mem = 'None'
        if base[0] == 'mem':
            mem = 'memidx(%s,%d,%d)' % (self.ev(base[2]), s.abase, s.depth)
        if nba:
            self.nwrites.add(s.index)
            return ['%sN.append((%d, %s, %s, %d, %s))' % (ind, s.index, mem, lo, w, code)]
        self.writes.add(s.index)
        if mem == 'None' and lo is None:
            return ['%sS[%d] = %s' % (ind, s.index, code)]
        return ['%sput(S, %d, %s, %s, %d, %s, %d)' % (ind, s.index, mem, lo, w, code, s.width)]

    def assign(self, l, r, ind, nba=False):
        lw = self.lwidth(l)
        W = max(lw, size(r))
        code = self.ev(r, W)
        if W > lw:
            code = '(%s)&%s' % (code, self.m(lw))
        return self.store(l, code, ind, nba)

    # ---- statements
    def stmt(self, s, ind):
        k = s[0]
        if k == 'null':
            return [ind + 'pass']
        if k == 'block':
            out = []
            for x in s[1]:
                out += self.stmt(x, ind)
            return out or [ind + 'pass']
        if k == 'if':
            out = ['%sif %s:' % (ind, self.ev(s[1]))] + self.stmt(s[2], ind + ' ')
            if s[3] is not None:
                out += [ind + 'else:'] + self.stmt(s[3], ind + ' ')
            return out
        if k == 'case':
            w = size(s[1])
            sg = signed(s[1])
            for ls, b in s[2]:
                for x in ls or ():
                    w = max(w, size(x))
                    sg = sg and signed(x)
            self.tmp = getattr(self, 'tmp', 0) + 1
            t = 't%d' % self.tmp
            out = ['%s%s = %s' % (ind, t, self.ev(s[1], w, sg))]
            word = 'if'
            default = None
            for ls, b in s[2]:
                if ls is None:
                    default = b
                    continue
                c = ' or '.join('%s&%d == %d' % (t, x[2] | ((1 << w) - (1 << x[3])), x[1]) if x[0] == 'wild' else
                                '%s == %s' % (t, self.ev(x, w, sg)) for x in ls)
                out += ['%s%s %s:' % (ind, word, c)] + self.stmt(b, ind + ' ')
                word = 'elif'
            if default is not None:
                if word == 'if':
                    out += self.stmt(default, ind)
                else:
                    out += [ind + 'else:'] + self.stmt(default, ind + ' ')
            return out
        if k == 'for':
            out = self.stmt(s[1], ind)
            self.tmp = getattr(self, 'tmp', 0) + 1
            g = 'g%d' % self.tmp
            out += ['%s%s = 0' % (ind, g), '%swhile %s:' % (ind, self.ev(s[2]))]
            out += self.stmt(s[4], ind + ' ') + self.stmt(s[3], ind + ' ')
            out += ['%s %s += 1' % (ind, g), '%s if %s > 2000: raise VError("endless loop")' % (ind, g)]
            return out
        if k == 'while':
            self.tmp = getattr(self, 'tmp', 0) + 1
            g = 'g%d' % self.tmp
            out = ['%s%s = 0' % (ind, g), '%swhile %s:' % (ind, self.ev(s[1]))] + self.stmt(s[2], ind + ' ')
            out += ['%s %s += 1' % (ind, g), '%s if %s > 2000: raise VError("endless loop")' % (ind, g)]
            return out
        if k in ('ba', 'nba'):
            return self.assign(s[1], s[2], ind, k == 'nba')
        raise VError(k)


def memidx(i, base, depth):
    i -= base
    if not 0 <= i < depth:
        raise VError('array index out of range')
    return i


def ipart(v, lo, w, W):
    if lo < 0 or lo + w > W:
        raise VError('part select out of range')
    return (v >> lo) & ((1 << w) - 1)


def setbits(old, lo, w, v, W):
    if lo < 0 or lo + w > W:
        raise VError('assignment out of range')
    mask = ((1 << w) - 1) << lo
    return (old & ~mask) | ((v & ((1 << w) - 1)) << lo)


def put(S, i, mem, lo, w, v, W):
    if mem is None:
        S[i] = setbits(S[i], lo, w, v, W)
    elif lo is None:
        S[i][mem] = v
    else:
        S[i][mem] = setbits(S[i][mem], lo, w, v, W)


GLOBALS = dict(ts=ts, sx=sx, sdiv=sdiv, smod=smod, parity=parity, shl=shl, vpow=vpow, bitsel=bitsel,
               memidx=memidx, ipart=ipart, setbits=setbits, put=put, VError=VError)


def eval_const(e, w):
    g = Gen()
    return eval(g.ev(e, w), dict(GLOBALS), {'S': ()})


class Proc(object):
    __slots__ = ('fn', 'reads', 'writes', 'edges', 'level', 'kind', 'path', 'n', 'nwrites')


class Model(object):
    """A compiled design; many Sims may share it."""

    def __init__(self, design):
        self.d = design
        self.procs = []
        src = []
        funcs = {}
        n = 0
        specs = []
        for l, r, path in design.assigns:
            g = Gen()
            body = g.assign(l, r, ' ')
            # reads in the target's own index expressions count as well
            specs.append(('assign', g, body, None, path))
            funcs.update(g.funcs)
        for p in design.procs:
            g = Gen()
            body = g.stmt(p['body'], ' ')
            specs.append(('always', g, body, p['sens'], p['path']))
            funcs.update(g.funcs)
        # functions (they may call functions)
        todo = list(funcs.values())
        done = set()
        freads = {}
        fcalls = {}
        while todo:
            f = todo.pop()
            if f.path in done:
                continue
            done.add(f.path)
            g = Gen()
            el = vfront.Elaborator({})
            el.d = design
            body = el.stmt(f.body, f.scope)
            lines = g.stmt(body, ' ')
            head = 'def %s(%s):' % (g.fname(f), ', '.join(['S'] + [g.lv(p) for p in f.ports]))
            init = [' %s = 0' % g.lv(v) for v in f.vars.values() if v not in f.ports]
            src += [head] + init + lines + [' return ' + g.lv(f.ret)]
            freads[f.path] = g.reads
            fcalls[f.path] = set(g.funcs)
            todo += list(g.funcs.values())
        for k, (kind, g, body, sens, path) in enumerate(specs):
            src += ['def P%d(S, N):' % k] + body
            pr = Proc()
            pr.kind, pr.path, pr.n = kind, path, k
            reads = set(g.reads)
            stack, seen = list(g.funcs), set()
            while stack:
                fp = stack.pop()
                if fp in seen:
                    continue
                seen.add(fp)
                reads |= freads.get(fp, set())
                stack += list(fcalls.get(fp, ()))
            pr.reads = reads
            pr.writes = sorted(g.writes)
            pr.nwrites = sorted(g.nwrites)
            pr.edges, pr.level = [], set()
            if kind == 'assign' or sens == '*':
                pr.level = reads
            else:
                for edge, e in sens:
                    if edge is None:
                        gg = Gen()
                        gg.ev(e)
                        pr.level |= gg.reads
                    else:
                        if e[0] == 'sig':
                            pr.edges.append((e[1].index, 0, edge))
                        elif e[0] == 'bit' and e[1][0] == 'sig':
                            v = vfront.const_value(e[2])
                            pr.edges.append((e[1][1].index, e[1][1].bitpos(v), edge))
                        else:
                            raise VError('edge of an expression')
            self.procs.append(pr)
        env = dict(GLOBALS)
        exec(compile('\n'.join(src) + '\n', '<design>', 'exec'), env)
        for pr in self.procs:
            pr.fn = env['P%d' % pr.n]
        self.on_level = {}
        self.on_edge = {}
        for pr in self.procs:
            for i in sorted(pr.level):
                self.on_level.setdefault(i, []).append(pr)
            for i, b, edge in pr.edges:
                self.on_edge.setdefault(i, []).append((b, edge, pr))
        self.mem = {s.index for s in design.sigs if s.depth}
        # signals written by edge-triggered processes: state
        self.state = set()
        for pr in self.procs:
            if pr.edges:
                self.state |= set(pr.writes) | set(pr.nwrites)


class Sim(object):
    LIMIT = 20000

    def __init__(self, model, rng, init=None):
        """init(sig) -> starting value of a storage element (int or list)."""
        self.m = model
        self.rng = rng
        self.S = []
        self.force = {}
        self.steps = 0
        self.order = 0           # running hash of scheduling decisions
        for s in model.d.sigs:
            v = init(s) if init else None
            if s.depth:
                self.S.append(list(v) if v is not None else [0] * s.depth)
            else:
                self.S.append(v if v is not None else 0)
        self.queue = [p for p in model.procs if p.kind == 'assign' or not p.edges]
        self.queued = set(p.n for p in self.queue)
        self.nba = []
        self.armed = False       # values settling at power-up are no edges
        self.settle()
        self.armed = True

    def snapshot(self):
        return [list(v) if type(v) is list else v for v in self.S]

    def restore(self, snap):
        self.S = [list(v) if type(v) is list else v for v in snap]

    def wake(self, i, old, new, me=None):
        for p in self.m.on_level.get(i, ()):
            if p is not me and p.n not in self.queued:
                self.queued.add(p.n)
                self.queue.append(p)
        for b, edge, p in self.m.on_edge.get(i, ()) if self.armed else ():
            o, n = (old >> b) & 1, (new >> b) & 1
            if o != n and n == (1 if edge == 'posedge' else 0) and p.n not in self.queued:
                self.queued.add(p.n)
                self.queue.append(p)

    def run_proc(self, p):
        S = self.S
        old = [list(S[i]) if i in self.m.mem else S[i] for i in p.writes]
        p.fn(S, self.nba)
        for i, o in zip(p.writes, old):
            if i in self.force:
                S[i] = self.force[i]
            if S[i] != o:
                self.wake(i, o, S[i], p)

    def settle(self):
        rng = self.rng
        count = 0
        while True:
            while self.queue:
                k = rng.randrange(len(self.queue)) if len(self.queue) > 1 else 0
                p = self.queue.pop(k)
                self.queued.discard(p.n)
                self.order = (self.order * 1000003 + p.n + 1) & 0xffffffffffffffff
                self.run_proc(p)
                count += 1
                if count > self.LIMIT:
                    raise VError('the design oscillates')
            if not self.nba:
                break
            batch, self.nba = self.nba, []
            # per signal program order is kept, signals are interleaved at will
            keys = []
            per = {}
            for u in batch:
                if u[0] not in per:
                    per[u[0]] = []
                    keys.append(u[0])
                per[u[0]].append(u)
            rng.shuffle(keys)
            for key in keys:
                for i, mem, lo, w, v in per[key]:
                    s = self.m.d.sigs[i]
                    o = list(self.S[i]) if i in self.m.mem else self.S[i]
                    if mem is None and lo is None:
                        self.S[i] = v
                    else:
                        put(self.S, i, mem, lo, w, v, s.width)
                    if i in self.force:
                        self.S[i] = self.force[i]
                    if self.S[i] != o:
                        self.wake(i, o, self.S[i])
        self.steps += count

    def drive(self, changes):
        """Change inputs ({signal index: value}) at one instant and settle."""
        for i, v in changes.items():
            o = self.S[i]
            if i in self.force:
                v = self.force[i]
            if o != v:
                self.S[i] = v
                self.wake(i, o, v)
        self.settle()

    def poke(self, i, v):
        """A disturbance: overwrite one storage element (or release a force)."""
        o = self.S[i]
        if type(o) is list:
            o = list(o)
        self.S[i] = v
        if v != o:
            self.wake(i, o, v)
        # drivers of a wire take it back
        for p in self.m.procs:
            if i in p.writes and not p.edges and p.n not in self.queued and i not in self.force:
                self.queued.add(p.n)
                self.queue.append(p)
        self.settle()
