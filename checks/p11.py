"""P11: whatever fails, nothing is left behind and the next session works."""
import os
import re

from simkit import core, iosim
from checks import _pre

PROPERTY = 'P11'
LEVEL = 'exploration'
RULE = ('A case is a seeded history of 1-4 parse sessions in one directory with fault plans. Non-trivial: at '
        'least one fault fired in the history; identity is (api, faults fired, outcome, files left) per session.')
STATE_MEASURE = 'distinct (api, faults fired, outcome, leftovers) tuples'
COMPONENTS = dict(_pre and {'real': ['pyverilog.vparser.preprocessor', 'pyverilog.vparser.parser', 'PLY',
                                     'iverilog -E (run for its output bytes)'],
                            'stub': ['child start/exit/signal and partial output (simkit.iosim)',
                                     'open/read/write/close/unlink/mkstemp error injection (simkit.iosim)']})
ASSUMPTIONS = ['a file whose removal was itself made to fail may stay',
               'a simulated process death or an interrupt delivered inside a system call may leave files; '
               'later sessions must work all the same',
               'leftover checks cover temporary sources, the intermediate output and the callers\' own files']
REQUIRED_PROBES = ('recovered-after-fault', 'error-reported', 'crash-then-session')
prepare = _pre.prepare
shrink = _pre.shrink


def budget(tier):
    return (2600, 150) if tier == 'quick' else (60000, 780)


def make(r, i, tier):
    return _pre.make(r, faulty=True)


DEBUG_FILES = ('parser.out', 'parsetab.py')


def leftovers(res):
    """Files that exist now, did not before, and are neither debug files nor asked for."""
    s = res.session
    ret = []
    for p in sorted(res.after):
        if p in res.before or os.path.basename(p) in DEBUG_FILES:
            continue
        if s['api'] == 'VerilogPreprocessor' and p == os.path.normpath(os.path.join('cwd', _pre.default_output(s))):
            continue                      # this API leaves its output to the caller
        # the name of a private intermediate output carries the process number
        ret.append(re.sub(r'preprocess\.output\.[0-9a-f.]+$', 'preprocess.output.#', p))
    return ret


def run(sc):
    out = core.Outcome()
    ident = []
    anyfault = False
    earlier_fault = False
    crashed = False
    out.nruns = 0
    for res in _pre.simulate(sc, out):
        out.nruns += 1
        s, fired = res.session, res.world.fired
        died = isinstance(res.error, iosim.SimCrash)
        sigint = any(f[1] == 'sigint' for f in fired)
        outcome = 'raise:' + type(res.error).__name__ if res.error is not None else 'ok'
        left = leftovers(res)
        ident.append((s['api'], tuple(fired), outcome, tuple(left)))
        out.states.append((s['api'], tuple(fired), outcome, tuple(left)))
        out.log('left', left)
        anyfault = anyfault or bool(fired)
        if res.error is not None and not died:
            out.probe('error-reported')
        # 1. nothing is left behind
        if left and not died and not sigint:
            excused = any(f[0] == 'remove' for f in fired)
            if excused:
                out.probe('removal-failed')
            else:
                out.fail('litter', 'session %d (%s, faults %s) ended (%s) and left %s' %
                         (res.index, s['api'], fired, outcome, left))
        # 2. the callers' own files are as they were
        for src in s['sources']:
            if src['kind'] == 'file':
                p = os.path.join('cwd', src['name'])
                if res.after.get(p) != src['text'].encode():
                    out.fail('source-damaged', 'session %d (%s, faults %s): source file %s was changed or removed'
                             % (res.index, s['api'], fired, p))
        for h in s['headers']:
            if os.path.join('cwd', h) not in res.after:
                out.fail('source-damaged', 'session %d: header %s disappeared' % (res.index, h))
        for p in res.before:
            base = os.path.basename(p)
            if p not in res.after and base not in DEBUG_FILES and not base.startswith('preprocess.output.') and \
                    p != os.path.normpath(os.path.join('cwd', _pre.default_output(s))):
                out.fail('foreign-file-removed', 'session %d (%s, faults %s): %s disappeared'
                         % (res.index, s['api'], fired, p))
        # 3. once faults stop, a session succeeds with the right result
        if not fired and res.want is not None:
            kind, want = ('ok', _pre.norm(res.want)) if s['api'] in ('preprocess', 'VerilogPreprocessor') \
                else _pre.reference_ast(res.want)
            if kind == 'ok':
                if res.error is not None:
                    out.fail('no-recovery', 'fault-free session %d (%s) after %d earlier sessions fails: %s: %s'
                             % (res.index, s['api'], res.index, type(res.error).__name__, res.error))
                else:
                    got = _pre.norm(res.value) if res.kind == 'text' else res.value
                    if got != want:
                        out.fail('no-recovery', 'fault-free session %d (%s) after earlier sessions returns a wrong '
                                 'result: got %r want %r' % (res.index, s['api'], got[:300], want[:300]))
                if earlier_fault:
                    out.probe('recovered-after-fault')
                if crashed:
                    out.probe('crash-then-session')
        if fired:
            earlier_fault = True
        crashed = crashed or died
        if out.violations:
            break
    if anyfault:
        out.nontrivial = ident
    out.sample = _pre.describe(sc)
    return out
