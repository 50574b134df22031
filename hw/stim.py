"""Stimulus: histories of clock edges, resets, input changes and faults."""


def value(r, w):
    k = r.random()
    if k < 0.15:
        return 0
    if k < 0.25:
        return (1 << w) - 1
    if k < 0.4:
        return 1 << r.randrange(w)
    if k < 0.55:
        return r.randrange(min(8, 1 << w))
    return r.getrandbits(w)


def initial(d, m, r):
    """Seeded contents of every register and memory at power-up."""
    init = {}
    for s in d.sigs:
        if s.depth:
            init[s.index] = [value(r, s.width) for _ in range(s.depth)]
        elif s.index in m.state:
            init[s.index] = value(r, s.width)
    for s in d.inputs:
        init[s.index] = value(r, s.width)
    return init


def short(s):
    return s.name.split('.', 1)[1]


def history(d, r, n, clocks, rst, init):
    """A list of {input index: new value} continuing from init; clocks, resets and data never change at the
    same instant."""
    clk = [s for s in d.inputs if short(s) in clocks]
    rs = [s for s in d.inputs if short(s) == rst]
    data = [s for s in d.inputs if s not in clk and s not in rs]
    cur = dict(init)
    ops = []
    rate = r.choice([0.02, 0.06, 0.2])
    weights = [r.choice([1, 1, 1, 0.2, 3]) for _ in clk]
    change = r.choice([0.3, 0.8, 1.0])
    while len(ops) < n:
        k = r.random()
        if k < rate and rs:
            s = r.choice(rs)
            cur[s.index] ^= 1
            ops.append({s.index: cur[s.index]})
        elif k < 0.45 and data:
            op = {}
            for s in data:
                if r.random() < change:
                    v = value(r, s.width)
                    if r.random() < 0.3:
                        v = cur[s.index] ^ (1 << r.randrange(s.width))
                    op[s.index] = cur[s.index] = v
            if op:
                ops.append(op)
        elif clk:
            s = r.choices(clk, weights)[0]
            cur[s.index] ^= 1 << (r.randrange(s.width) if s.width > 1 else 0)
            ops.append({s.index: cur[s.index]})
        elif not data:
            break
    return ops
