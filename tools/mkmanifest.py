#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'P01': 'seeded simulation of the controller under sensor/actuator/operator faults, limit invariant after every step',
 'P02': 'seeded simulation with fault injection, refinement against an executable reference controller',
 'P03': 'seeded simulation of operator mode switches, refinement against a reference controller plus bumpless-transfer check',
 'P04': 'seeded closed-loop simulation with injected faults, bounded-time recovery check after the last fault',
 'P05': 'seeded simulation of the tuning life cycle, history check of the gains against an identification reference',
 'P06': 'seeded simulation, refinement against a reference model-reference controller',
 'P07': 'seeded simulation with faulty histories and resets, bit-exact comparison with a fresh twin',
 'P08': 'deterministic user-level scheduler preempting inside library calls, bit-exact comparison with solo runs',
 'P09': 'crash injection at every basic block and memory access of a call, then recovery and bit-exact comparison',
 'P10': 'seeded simulation of insert/flush/reconfigure histories against a list model',
 'P12': 'seeded simulation of faulty input histories against a difference-equation reference',
 'P13': 'seeded simulation of faulty input histories against state-space and exact-solution references',
 'P14': 'seeded simulation of faulty sample histories against reference recursions',
 'P15': 'seeded simulation of faulty sample histories against window references',
 'P16': 'seeded simulation of outlier bursts against a reference filter',
 'P17': 'seeded simulation of faulty sample histories against a three-stage reference, plus convergence check',
 'P18': 'seeded simulation of a corrupting link, acceptance check per frame',
 'P19': 'seeded simulation of a peer node computing check-sums bit-serially, agreement check',
 'P20': 'seeded simulation of operation histories against a bit-array model',
 'P21': 'interrupt observation and crash injection at every memory access of a write, old-or-new check per bit',
 'P22': 'seeded simulation of configuration and input histories against an interval reference of the inference',
 'P23': 'seeded simulation of configuration and input histories against an interval reference of the inference',
 'P24': 'seeded simulation with faulty inputs, range invariant and unaffected-twin check',
 'P25': 'seeded simulation of sample histories and rule switches against a reference state',
 'P26': 'seeded simulation of all components with faults under AddressSanitizer with exact-size buffers',
 'P33': 'seeded simulation of table and method changes, faulty abscissas and several interpolators against a reference interpolant',
 'P34': 'seeded simulation of operation histories with unordered elements and faulty callbacks against reference containers',
 'P35': 'seeded simulation of operation histories with overflows, zero divisors and extreme operands against exact integer arithmetic',
 'P27': 'injection of invalid configuration calls, bit-exact comparison with a twin that never got them',
}
NOTE = 'Deterministic simulation with fault injection: every run is a pure function of its seed; violations are minimised and replayed in two fresh processes before being reported. Samples, does not prove. '
X = {
 'P09': NOTE + 'Within a run the crash point is enumerated over every event (basic block, load, store) of the interrupted call, up to 64 points per run, strided and shifted beyond. Trusts that a crash between two instrumented events is not distinguishable.',
 'P21': NOTE + 'Every instrumented event of a write is an observation point; crash points are drawn per write. Trusts the compiled order of memory accesses of this build.',
 'P26': NOTE + 'Trusts AddressSanitizer and exact-size allocations; overflow inside one object is caught only where the bounds instrumentation sees the array.',
 'P08': NOTE + 'Preemption happens at every basic block and memory access; no two tasks run at the same instant (single core), which is the deployment the library addresses.',
}
NA = [
 ('P31', 'The fast math functions are pure functions of their argument: no schedule, clock, fault, crash point or history enters, so there is nothing to simulate; input generation alone would be a different technique.'),
 ('P32', 'The fixed-point elementary functions are pure functions of their arguments; nothing for a simulator to schedule, fault or accumulate (the arithmetic that is carried through histories is P35).'),
]
claimed = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
na = {p for p, _ in NA}
checks = []
for p in claimed:
    if p in na: continue
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                   'technique': 'deterministic simulation with fault injection: ' + T[p], 'level': 'fault_enumeration' if p in ('P09', 'P21') else 'exploration',
                   'level_note': X.get(p, NOTE + 'Numerical comparisons use a tolerance measured by running the reference in perturbed single precision over the same history; histories on which the documented law itself overflows or is undecidable by rounding are counted and not judged.' if p in T else NOTE)})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'hooks': {'guard': 'none', 'enable': 'No hooks in /repo: the checks compile the unmodified sources with clang -fsanitize-coverage=trace-pc,trace-loads,trace-stores, whose callbacks are the preemption and crash seam.', 'source_commits': []},
     'checks': checks, 'not_applicable': [{'property': p, 'reason': r} for p, r in NA],
     'notes': 'Seed from VERIF_SEED; VERIF_SECS overrides the search time, VERIF_WORKERS the number of processes. Replay: python3 check.py --replay FILE.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
