#!/usr/bin/env python3
"""Driver of one property check.

  check.py PROPERTY quick|thorough     run the check (exit 0 held, 1 violation, 2 harness error)
  check.py --setup                     build all simulators
  check.py --replay FILE               re-execute a replay file twice

Builds the simulator from /repo's current tree, runs seeded simulations on all cores, and on a violation minimises
the plan, re-executes it in two fresh processes and only then reports it.  Writes evidence/<PROPERTY>.json.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
FAMILY = {}
for ids, fam in ((('P01', 'P02', 'P03', 'P04', 'P05', 'P06'), 'pid'),
                 (('P10', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P25'), 'filt'),
                 (('P18', 'P19', 'P20'), 'bits'),
                 (('P21',), 'bits_o0'),
                 (('P22', 'P23', 'P24'), 'fis'),
                 (('P07', 'P27'), 'life'),
                 (('P08', 'P09'), 'life_o0'),
                 (('P33', 'P34', 'P35'), 'misc'),
                 (('P26',), 'life_asan')):
    for i in ids: FAMILY[i] = fam
QUICK = {'P08': 60, 'P09': 45}            # seconds of search per property, quick tier (others: DEFQ)
DEFQ, DEFT = 40, 420
LEVEL = {'P09': 'fault_enumeration', 'P21': 'fault_enumeration'}
REAL = {
    'pid': (['pidController, pidAutoTuning, nState (pid.cpp, numa.cpp) and the ffmath functions they call'],
            ['process, sensor and actuator: double-precision stub with injected faults', 'sampling clock: simulated']),
    'filt': (['smoothers, rms, tdl, transportDelay, discrete and continuous LTI systems, nState (smoother.cpp, rms.cpp, tdl.cpp, ltisys.cpp, numa.cpp)'],
             ['signal source and sensor: stub with injected faults', 'sampling clock: simulated']),
    'bits': (['crc (crc.cpp, crc.hpp), bitfield (bitfield.cpp, bitfield.hpp)'],
             ['link and remote node: stub (bit-serial check-sum node, corrupting channel)', 'interrupts: simulated at every basic block and memory access of the library']),
    'fis': (['fis::instance, fis::core (fis.cpp, fisCore.cpp) and the ffmath functions they call'],
            ['sensors feeding the inputs: stub with injected faults']),
    'misc': (['interp1 (interp1.cpp, interp1.hpp), algorithm.hpp, mat.hpp, fp16 (fp16.cpp, fp16.hpp) and the ffmath functions they call'],
             ['sensor giving the abscissas, operator swapping tables, callbacks (comparison and predicate functions, also inconsistent ones), the program operating on the fixed-point values: stubs']),
    'life': (['every stateful component of the library (pid, numa, smoothers, rms, tdl, LTI, fis, bitfield, crc)'],
             ['scheduler: simulated (user-level tasks switched at basic-block and memory-access granularity)', 'crash and memory contents: simulated']),
}
REAL['life_asan'] = REAL['life_o0'] = REAL['life']
REAL['bits_o0'] = REAL['bits']


def sha_tree():
    h = hashlib.sha256()
    files = []
    for d in (os.path.join(REPO, 'src'), os.path.join(V, 'sim')):
        for root, _, fs in os.walk(d):
            for f in fs:
                if f.endswith(('.cpp', '.hpp', '.h', 'Makefile')):
                    files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def build(fam):
    """Builds sim_<fam> from the current tree into a directory keyed by the sources' contents."""
    b = os.path.join(V, 'build', sha_tree())
    exe = os.path.join(b, 'sim_' + fam)
    if not os.path.exists(exe):
        os.makedirs(b, exist_ok=True)
        r = subprocess.run(['make', '-s', '-j8', '-f', 'Makefile', 'REPO=' + REPO, 'B=' + b, exe], cwd=os.path.join(V, 'sim'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            print('ERROR: the simulator does not build against the current tree')
            sys.exit(2)
        # keep only the newest few build directories
        bd = os.path.join(V, 'build')
        old = sorted((os.path.getmtime(os.path.join(bd, d)), d) for d in os.listdir(bd))
        for _, d in old[:-4]: shutil.rmtree(os.path.join(bd, d), ignore_errors=True)
    return exe


def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_sigfpe=0'
    return e


def replay_once(exe, path, tmp):
    e = env(); e['SIM_TMP'] = tmp
    r = subprocess.run([exe, 'replay', '--file', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=e, timeout=300)
    lines = r.stdout.split('\n')
    return r.returncode, lines[0], '\n'.join(lines[1:])


def known_findings():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                # known: property=<id> key=<violation key> <what fails>
                parts = l[len('known: '):].split(' ', 2)
                out.append({'property': parts[0].split('=', 1)[1], 'key': parts[1].split('=', 1)[1], 'what': parts[2]})
    return out


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        path = os.path.abspath(sys.argv[2])
        prop = [l.split()[1] for l in open(path) if l.startswith('property ')][0]
        exe = build(FAMILY[prop])
        with tempfile.TemporaryDirectory() as tmp:
            a = replay_once(exe, path, tmp); b = replay_once(exe, path, tmp)
        print(a[1]); print(a[2])
        if a[:2] != b[:2]: print('ERROR: replay is not deterministic'); return 2
        if a[0] == 1: print('VIOLATION property=%s replay=%s' % (prop, path))
        return a[0]
    if sys.argv[1:] == ['--setup']:
        for f in sorted(set(FAMILY.values())): build(f)
        print('simulators built'); return 0
    if len(sys.argv) != 3 or sys.argv[1] not in FAMILY or sys.argv[2] not in ('quick', 'thorough'):
        print(__doc__); return 2
    prop, tier = sys.argv[1:]
    t0 = time.time()
    base = int(os.environ.get('VERIF_SEED', '1') or 1)
    fam = FAMILY[prop]
    exe = build(fam)
    t_build = time.time() - t0
    secs = float(os.environ.get('VERIF_SECS') or (QUICK.get(prop, DEFQ) if tier == 'quick' else DEFT))
    nw = int(os.environ.get('VERIF_WORKERS') or min(8, os.cpu_count() or 1))
    known = [k for k in known_findings() if k['property'] == prop]
    tmp = tempfile.mkdtemp(prefix='qsim')
    try:
        return run(prop, tier, base, fam, exe, secs, nw, known, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, base, fam, exe, secs, nw, known, tmp, t0, t_build):
    e = env(); e['SIM_TMP'] = tmp
    kf = ','.join(k['key'] for k in known)
    procs = []
    for w in range(nw):
        o, bm = os.path.join(tmp, 'o%d' % w), os.path.join(tmp, 'b%d' % w)
        cmd = [exe, 'run', '--prop', prop, '--base', str(base), '--worker', str(w), '--nworkers', str(nw), '--secs', str(secs), '--out', o, '--bitmap', bm, '--known', kf or '-']
        procs.append((subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), o, bm))
    res, err = [], None
    for pr, o, bm in procs:
        _, se = pr.communicate()
        if pr.returncode not in (0, 1):
            err = 'worker exit %d: %s' % (pr.returncode, se[-500:]); continue
        res.append((json.load(open(o)), bm))
    viol = sorted((r['violation']['index'], r['violation']) for r, _ in res if 'violation' in r)
    if err and not viol:
        print('ERROR: ' + err); return 2
    # ---- merge coverage
    COV, PC = (1 << 22) // 8, (1 << 20) // 8
    cov = bytearray(COV); pcs = bytearray(PC); traces = set()
    for r, bm in res:
        d = open(bm, 'rb').read()
        cov = (int.from_bytes(cov, 'little') | int.from_bytes(d[:COV], 'little')).to_bytes(COV, 'little')
        pcs = (int.from_bytes(pcs, 'little') | int.from_bytes(d[COV:COV + PC], 'little')).to_bytes(PC, 'little')
        n = int.from_bytes(d[COV + PC:COV + PC + 8], 'little'); body = d[COV + PC + 8:]
        for i in range(n): traces.add(body[8 * i:8 * i + 8])
    states = bin(int.from_bytes(cov, 'little')).count('1'); blocks = bin(int.from_bytes(pcs, 'little')).count('1')
    tot = lambda k: sum(r[k] for r, _ in res)
    runs = tot('runs'); wall = max([r['wall'] for r, _ in res] or [0.001])
    faults = {}
    for r, _ in res:
        for k, v in r['faults'].items(): faults[k] = faults.get(k, 0) + v
    knownhits = {}
    for r, _ in res:
        for k, v in r.get('known', {}).items(): knownhits[k] = knownhits.get(k, 0) + v
    ev = {
        'property': prop, 'tier': tier, 'seed': base, 'level': LEVEL.get(prop, 'exploration'),
        'coverage': {
            'evaluations': runs, 'distinct_nontrivial': len(traces),
            'rule': 'one evaluation = one seeded simulated run (plan of configuration, sample, fault, preemption and crash events, executed in its own process). Non-trivial: at least one library call and at least one injected fault, reconfiguration or preemption; distinct: by the hash of its sequence of abstract states.',
            'samples': [s for r, _ in res for s in r['samples']][:3] or ['(no sample: violation found in the first runs)'],
            'runs_per_hour': int(runs / wall * 3600), 'seeds_per_hour': int(runs / wall * 3600),
            'simulated_seconds': round(tot('sim_time'), 3), 'library_calls': tot('libcalls'), 'plan_events': tot('plan_steps'), 'longest_plan': max([r['max_plan'] for r, _ in res] or [0]),
            'oracle_comparisons': tot('compares'), 'oracle_comparisons_with_tolerance_below_0.2_percent': tot('tight'), 'comparisons_skipped_as_undecidable_by_rounding': tot('skipped'), 'histories_left_domain': tot('out_of_domain'),
            'faults_injected': faults,
            'distinct_abstract_states': states, 'state_measure': 'distinct abstract states (per-scenario discretisation of mode, saturation, magnitude class, index, width, configuration), counted in a 2^22-bit map',
            'library_basic_blocks_reached': blocks,
            'preemption_points_seen': tot('seam_events'), 'task_switches_or_crashes': tot('switches'),
            'determinism_rechecks': tot('determinism_rechecks'), 'known_finding_hits': knownhits,
            'real_components': REAL[fam][0], 'stub_components': REAL[fam][1], 'workers': nw, 'build_s': round(t_build, 1)},
        'assumptions': ['x86-64 IEEE binary32 arithmetic, clang 18 build of the library sources', 'real_t is float (the library default)', 'inputs stay in the domain stated by the property'],
        'wall_s': round(time.time() - t0, 2), 'violations': 0}
    rc = 0
    if viol:
        v = viol[0][1]
        rdir = os.path.join(V, 'replays'); os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.txt' % (prop, v['seed']))
        mr = subprocess.run([exe, 'minimize', '--prop', prop, '--seed', str(v['seed']), '--file', path, '--secs', '40'], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if mr.returncode != 0:
            print('ERROR: violation of seed %d (%s) did not reproduce from its plan: %s' % (v['seed'], v['key'], v['msg'])); rc = 2
        else:
            a = replay_once(exe, path, tmp); b = replay_once(exe, path, tmp)
            if a[0] != 1 or a[:2] != b[:2]:
                print('ERROR: replay of %s is not reproducible: %s / %s' % (path, a[1], b[1])); rc = 2
            else:
                print('%s: %s' % (v['key'], a[2].strip()[:1500]))
                print('seed=%d base=%d; %s' % (v['seed'], base, mr.stdout.strip()))
                print('VIOLATION property=%s replay=%s' % (prop, path))
                ev['violations'] = 1; rc = 1
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if rc == 0:
        print('%s held: %d runs (%d/h), %d distinct non-trivial, %d abstract states, %d library calls, %.0f simulated s, faults %s' %
              (prop, runs, int(runs / wall * 3600), len(traces), states, tot('libcalls'), tot('sim_time'), sum(faults.values())))
    return rc


if __name__ == '__main__':
    sys.exit(main())
