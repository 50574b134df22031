"""A PyVerilog process with its own hash seed: answers {"text","top","alloc"} requests with every step's result.

Each request runs in a fork, so requests do not see each other."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(16 * 1024)
    from simkit import child, core, observe
    from checks import _session, _hw
    observe.warm()                                   # tables generated under this hash seed
    _hw.limit_nodes()
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')

    def answer(q):
        keep = []
        x = q['alloc']
        for k in range(x % 4096):                    # another memory layout
            x = (x * 1103515245 + 12345) % (1 << 31)
            keep.append([bytearray(x % 700)] if x & 1 else object())
        del keep[::1 + x % 5]
        with core.Scratch('p09') as d:
            os.chdir(d)
            st = _session.State(d, q['text'], q['top'])
            st.write()
            res = []
            for n in _session.STEPS:
                res.append([n, _session.step(st, n)])
            os.chdir('/')
            return res
    out.write('ready\n')
    out.flush()
    while True:
        line = sys.stdin.readline()
        if not line:
            return
        try:
            r = {'ok': child.run(lambda: answer(json.loads(line)))}
        except core.HarnessError as e:
            r = {'error': str(e)}
        out.write(json.dumps(r) + '\n')
        out.flush()


main()
