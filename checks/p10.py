"""P10: preprocessing delivers exactly the given sources, or reports a failure."""
from simkit import core
from checks import _pre

PROPERTY = 'P10'
LEVEL = 'exploration'
RULE = ('A case is a seeded history of 1-4 parse sessions in one directory, each with its own sources, '
        'API entry point, leftover files and fault plan. Non-trivial: at least one fault fired or a stale '
        'output was present; identity is the tuple of (api, source kinds, faults fired, outcome) per session.')
STATE_MEASURE = 'distinct (api, fault fired at operation n, outcome) triples'
COMPONENTS = {'real': ['pyverilog.vparser.preprocessor', 'pyverilog.vparser.parser', 'pyverilog.vparser.lexer',
                       'PLY', 'iverilog -E (run for its output bytes)'],
              'stub': ['child process start/exit/signal and how much of its output is written (simkit.iosim)',
                       'open/read/write/close/unlink/mkstemp error injection (simkit.iosim)']}
ASSUMPTIONS = ['a child that exits 0 has written its complete output',
               'file contents are not altered by others while a session runs']
REQUIRED_PROBES = ('stale-output', 'child-failed', 'result-under-fault', 'clean-session', 'bad-source')
prepare = _pre.prepare
shrink = _pre.shrink


def budget(tier):
    return (2600, 150) if tier == 'quick' else (60000, 780)


def make(r, i, tier):
    return _pre.make(r, faulty=(i % 4 != 0))


def run(sc):
    out = core.Outcome()
    ident = []
    interesting = False
    out.nruns = 0
    for res in _pre.simulate(sc, out):
        out.nruns += 1
        s, w = res.session, res.world
        fired = w.fired
        outcome = 'raise:' + type(res.error).__name__ if res.error is not None else 'ok'
        ident.append((s['api'], tuple(x['kind'] for x in s['sources']), tuple(fired), outcome))
        out.states.append((s['api'], tuple(fired), outcome))
        if s['stale'] is not None:
            out.probe('stale-output')
            interesting = True
        if fired:
            interesting = True
        if w.child_failed:
            out.probe('child-failed')
        if res.want is None:
            out.probe('bad-source')
        want_kind, want = None, None
        if res.want is not None:
            if s['api'] in ('preprocess', 'VerilogPreprocessor'):
                want_kind, want = 'ok', _pre.norm(res.want)
            else:
                want_kind, want = _pre.reference_ast(res.want)
        if res.error is None:
            got = _pre.norm(res.value) if res.kind == 'text' else res.value
            if res.want is None:
                out.fail('silent-bad-source', 'session %d (%s) returned a result although the sources cannot be '
                         'preprocessed: %r' % (res.index, s['api'], got[:200]))
            elif w.child_failed:
                out.fail('silent-child-failure', 'session %d (%s): the preprocessor failed (%s) but the call returned %r'
                         % (res.index, s['api'], fired, got[:200]))
            elif want_kind != 'ok' or got != want:
                out.fail('wrong-sources', 'session %d (%s), faults %s: the result is not that of the sources given.\n'
                         'got  %r\nwant %r' % (res.index, s['api'], fired, got[:400], str(want)[:400]))
            if fired:
                out.probe('result-under-fault')
            else:
                out.probe('clean-session')
        else:
            if res.want is not None and want_kind == 'ok' and not w.child_failed and _pre.only_transparent(fired):
                out.fail('spurious-failure', 'session %d (%s) failed with %s: %s although %s' % (
                    res.index, s['api'], type(res.error).__name__, res.error,
                    'only short transfers happened' if fired else 'nothing went wrong'))
        if out.violations:
            break
    if interesting:
        out.nontrivial = ident
    out.sample = _pre.describe(sc)
    return out
