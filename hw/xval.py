"""Cross-validation of the reference simulator against Icarus vvp (a second engine)."""
import os
import random
import re
import subprocess
import sys
import tempfile

from . import optgen, gen, stim, vfront, vsim


def run_vvp(text, top, d, init, ops, workdir):
    """Trace of every signal after every operation, as a list of {name: int or None}."""
    sigs = [s for s in d.sigs]
    # a block that reads what it writes: always_comb and always @* mean the same in the reference
    L = [text.replace('always_comb', 'always @*'), 'module tb_;']
    ins = []
    for s in d.inputs:
        n = s.name.split('.', 1)[1]
        L.append('  reg [%d:0] %s;' % (s.width - 1, n))
        ins.append(n)
    L.append('  %s dut(%s);' % (top, ', '.join('.%s(%s)' % (n, n) for n in ins)))
    L.append('  initial begin')
    for s in d.inputs:
        L.append("    %s = %d'h%x;" % (s.name.split('.', 1)[1], s.width, init[s.index]))
    L.append('    #10;')
    for s in sigs:
        v = init.get(s.index)
        if v is None or s in d.inputs:
            continue
        h = 'dut.' + s.name.split('.', 1)[1]
        if s.depth:
            for k, x in enumerate(v):
                L.append("    %s[%d] = %d'h%x;" % (h, k + s.abase, s.width, x))
        else:
            L.append("    %s = %d'h%x;" % (h, s.width, v))
    L.append('    #10;')
    for k, op in enumerate(ops):
        for i, v in sorted(op.items()):
            s = d.sigs[i]
            L.append("    %s = %d'h%x;" % (s.name.split('.', 1)[1], s.width, v))
        L.append('    #10;')
        for s in sigs:
            h = 'dut.' + s.name.split('.', 1)[1]
            if s.depth:
                for j in range(s.depth):
                    L.append('    $display("%d %d.%d %%h", %s[%d]);' % (k, s.index, j, h, j + s.abase))
            else:
                L.append('    $display("%d %d %%h", %s);' % (k, s.index, h))
    L += ['    $finish;', '  end', 'endmodule']
    v = os.path.join(workdir, 'x.v')
    with open(v, 'w') as f:
        f.write('\n'.join(L) + '\n')
    o = os.path.join(workdir, 'x.vvp')
    p = subprocess.run(['iverilog', '-g2012', '-s', 'tb_', '-o', o, v], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return None, p.stdout.decode()
    p = subprocess.run(['vvp', '-n', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ret = [dict() for _ in ops]
    for line in p.stdout.decode().splitlines():
        m = re.match(r'(\d+) (\d+)(?:\.(\d+))? ([0-9a-fxzXZ]+)$', line)
        if m:
            x = m.group(4)
            key = (int(m.group(2)), None if m.group(3) is None else int(m.group(3)))
            ret[int(m.group(1))][key] = int(x, 16) if re.match('^[0-9a-f]+$', x) else None
    return ret, None


def compare(text, top, seed, workdir, nops=30, clocks=('CLK',), rst='RST'):
    d = vfront.elaborate(text, top)
    m = vsim.Model(d)
    if any(p.kind == 'always' and not p.edges and not p.level - set(p.writes) for p in m.procs):
        return None, 0, 0       # such a block never runs in an event-driven simulator
    r = random.Random(seed)
    init = stim.initial(d, m, r)
    ops = stim.history(d, r, nops, clocks, rst, init)
    tr, err = run_vvp(text, top, d, init, ops, workdir)
    if tr is None:
        return 'iverilog: ' + err[:600], 0, 0
    sim = vsim.Sim(m, random.Random(seed + 1), lambda s: init.get(s.index))
    n = x = 0
    for k, op in enumerate(ops):
        sim.drive(op)
        for s in d.sigs:
            for j in range(s.depth) if s.depth else (None,):
                a = sim.S[s.index] if j is None else sim.S[s.index][j]
                b = tr[k].get((s.index, j))
                n += 1
                if b is None:
                    x += 1
                elif a != b:
                    return 'op %d %s: vsim %x vvp %x' % (k, s.name, a, b), n, x
    return None, n, x


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 50
    start = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    bad = tot = xs = 0
    with tempfile.TemporaryDirectory() as wd:
        for i in range(start, start + n):
            r = random.Random(i)
            d = optgen.design(r) if i % 5 == 4 else gen.design(r, uniform=8 if i % 4 == 3 else None)
            t = gen.text(d)
            err, k, x = compare(t, 'TOP', i, wd, clocks=d['clocks'])
            tot += k
            xs += x
            if err:
                bad += 1
                print(i, err)
    print('designs %d mismatching %d values compared %d, x %d' % (n, bad, tot, xs))


if __name__ == '__main__':
    main()
