"""Create a seeded change: python3 tools/mkseed.py spec.py [...]

A spec is a Python file defining NAME, PROPERTY, EDITS = [(file, old, new), ...], NEEDS, BREAKS and DEMO (Python text).
The change is made in a scratch copy of /repo, built, tested and demonstrated there; only if all of that holds it is
kept as seeded/NAME/.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/sh
# Runs in the repository's directory; exit 0 when the property holds here.
R=$(pwd)
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
PYTHONPATH="$R" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PATH=/opt/venv/bin:$PATH timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    W = tempfile.mkdtemp(prefix='seed_')
    try:
        c = os.path.join(W, 'repo')
        shutil.copytree('/repo', c, symlinks=True)
        sh('git', 'checkout', '--', '.', cwd=c)
        d = os.path.join(W, 'x', ns['NAME'])
        os.makedirs(d)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
        r = sh('sh', d + '/demo.sh', cwd=c)
        if r.returncode != 0:
            return 'demo fails on the unchanged tree:\n' + r.stdout[-2000:]
        for f, old, new in ns['EDITS']:
            p = os.path.join(c, f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: %d matches of %r' % (f, s.count(old), old[:80])
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git', 'diff', cwd=c).stdout
        open(d + '/patch.diff', 'w').write(diff)
        # original lines only
        base = sh('git', 'rev-list', '--max-parents=0', 'HEAD', cwd=c).stdout.strip()
        for f in set(e[0] for e in ns['EDITS']):
            orig = sh('git', 'show', base + ':' + f, cwd=c).stdout.splitlines()
            gone = [l[1:] for l in sh('git', 'diff', '-U0', f, cwd=c).stdout.splitlines() if l.startswith('-') and not l.startswith('---')]
            bad = [l for l in gone if l.strip() and l not in orig]
            if bad:
                print('warning: changes lines that are not original:', bad[:3])
        for src in ('build', 'test'):
            t = open('/opt/vp/%s.sh' % src).read().replace('/repo', c)
            open(os.path.join(W, src + '.sh'), 'w').write(t)
        r = sh('bash', W + '/build.sh')
        if r.returncode != 0:
            return 'build fails:\n' + r.stdout[-2000:]
        r = sh('sh', d + '/demo.sh', cwd=c)
        if r.returncode == 0:
            return 'demo passes with the change:\n' + r.stdout[-1500:]
        print(r.stdout[-700:])
        if r.returncode == 124:
            return 'demo timed out'
        sh('bash', W + '/test.sh', W + '/t.json')
        got = json.load(open(W + '/t.json'))
        want = json.load(open('/opt/vp/BASELINE.json'))
        want = want['stable']
        miss = [t for t in want if t not in got['passed']]
        if miss:
            return 'tests fail: %s' % miss[:5]
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'].strip(), 'what_it_breaks': ns['BREAKS'].strip()},
                  open(d + '/meta.json', 'w'), indent=1)
        out = os.path.join(V, 'seeded', ns['NAME'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        return 'kept ' + out
    finally:
        shutil.rmtree(W, ignore_errors=True)


for s in sys.argv[1:]:
    print('==', s)
    print(main(s))
