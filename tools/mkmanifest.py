"""Writes MANIFEST.json from the list below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation: '
CHECKS = {
    'P01': (T + 'seeded event-driven execution of generated designs (seeded process activation orders, clock, reset and input histories); the recorded definitions are evaluated on the values at each triggering event',
            'Seeded sample of designs and histories; the hardware is a simulator written for this (hw/), cross-validated against Icarus vvp; two-state values.'),
    'P02': (T + 'seeded event-driven execution; every resolved, optimized, merged and walked definition is evaluated on the values at each triggering event and compared with the executed value',
            'Seeded sample of designs and histories; executed by the simulator in hw/ (cross-validated against Icarus vvp); two-state values; constants whose intermediate results overflow their width are set aside (recorded finding).'),
    'P03': (T + 'seeded event-driven execution with fault injection: every signal outside the reported subset, walked tree or graph is disturbed at a seeded time in a second run of the same schedule, and the target of both runs compared',
            'Seeded sample of designs, targets, histories and disturbances; executed by the simulator in hw/ (cross-validated against Icarus vvp); two-state values.'),
    'P05': (T + 'seeded event-driven execution of generated state machines with resets and single-event upsets of the state registers injected; every clock edge compared with the reported transitions in both directions, and every executed cycle of states with the reported loops',
            'Seeded sample of machines and histories; executed by the simulator in hw/ (cross-validated against Icarus vvp); two-state values; next states that are constants.'),
    'P06': (T + 'seeded event-driven execution with resets and single-event upsets injected; at every clock edge what a register does is determined by disturbing its old value and the state, and compared with the reported active conditions, both ways',
            'Seeded sample of machines, controlled registers and histories; executed by the simulator in hw/ (cross-validated against Icarus vvp); two-state values.'),
    'P04': (T + 'the regenerated design is executed beside the original under the same seeded activation orders, clocks, resets and inputs; every signal compared after every event; behavioural models with delays are run by the discrete-event simulator vvp and their transcripts compared',
            'Seeded sample of designs and histories; the hardware is a simulator written for this (hw/), cross-validated against Icarus vvp; two-state values.'),
    'P10': (T + 'seeded fault injection into the preprocessor child and file operations, compared with direct runs',
            'Seeded sample of histories and fault placements; the reference is the same iverilog -E run directly without faults. Trusts the fault layer (simkit/iosim.py) and iverilog.'),
    'P11': (T + 'seeded faults, interrupts and process deaths at file and process operations, file-system state and retry checked afterwards',
            'Seeded sample; process death is modelled at operation granularity, unlinked/unflushed data of the dead process is dropped.'),
    'P12': (T + 'seeded table-file conditions, torn writes and restarts over simulated process lifetimes',
            'Seeded sample of conditions and crash points; restart is simulated by dropping the module caches.'),
    'P08': (T + 'seeded histories (other, broken and interrupted sessions, I/O faults, repeated queries) in simulated processes; every query of the final session compared with a process without history',
            'Seeded sample of histories and interrupt points; the reference is the same query in a fork of a clean process.'),
    'P09': (T + 'the same seeded sessions in processes with different hash seeds and memory layouts, results compared',
            'Seeded sample of designs, hash seeds and allocation histories; six hash seeds in the pool.'),
    'P07': (T + 'a seeded scheduler runs the threads of one process one at a time, switching between source lines and at file and process operations, with per-thread I/O faults; each result compared with the thread running alone',
            'Seeded sample of sessions and interleavings at source-line granularity of pyverilog and PLY; the reference is each session alone in a fork.'),
    'P13': (T + 'seeded I/O faults, short reads and interrupts while templates are read and rendered, text compared with a healthy run, then a healthy run of the same objects',
            'Seeded sample of trees, fault placements and interrupt lines; the reference is the generator itself on a freshly parsed tree without faults.'),
}
NA = {
    'P14': 'A pure function of the text: no schedule, fault, clock or history is involved. What of it a running design can show is decided through P01 and P04.',
    'P15': 'A pure rendering of one tree, and the dataflow text output has no consumer to execute; no schedule, fault or history is involved.',
}


def main():
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup.py', 'checks': [], 'not_applicable': [],
         'notes': 'No hooks in /repo are needed: the seams are files, processes, threads, the interpreter\'s trace '
                  'function and the simulated hardware. See DESIGN.md.'}
    ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    for i in ids:
        if i in CHECKS:
            t, note = CHECKS[i]
            m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i,
                                'thorough_cmd': 'python3 run.py %s thorough' % i,
                                'technique': t, 'level': 'exploration', 'level_note': note})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'No check yet: being built.')})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
