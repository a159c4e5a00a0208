"""Decides one property: every contract obligation of its harnesses, from /repo's current source."""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from . import driver as D

VERIF = D.VERIF


def harness_opts(cpp, h):
    m = re.search(r'//\s*opts\(%s\):\s*(\{.*\})' % h, open(cpp).read())
    return eval(m.group(1)) if m else {}


def _child(conn, ll, cpp, h, secs, procs):
    try:
        ir = D.dump_ir(ll, ['vch_' + h])
        R = D.verify_harness(ir, h, harness_opts(cpp, h), secs, procs, lambda *a: None)
    except BaseException as x:     # noqa
        R = dict(harness=h, error='internal: %s: %s' % (type(x).__name__, str(x)[:300]), obligations=[], covers=[], functions=[], replaced=[],
                 externals=[], notes=[], loops=[], exec_s=0, solve_s=0, query_s=0, queries=0, steps=0, trivial=0, wall_s=0)
    conn.send(R)
    conn.close()


def run_proof(ll, cpp, h, secs, procs, deadline):
    a, b = mp.get_context('fork').Pipe(False)
    p = mp.get_context('fork').Process(target=_child, args=(b, ll, cpp, h, secs, procs))
    p.start()
    b.close()
    R = None
    try:
        if a.poll(max(1, deadline - time.time())):
            R = a.recv()
    except EOFError:
        pass
    if R is None:
        subprocess.run(['pkill', '-KILL', '-P', str(p.pid)])
        p.kill()
        R = dict(harness=h, error='no answer within the time budget', obligations=[], covers=[], functions=[], replaced=[], externals=[],
                 notes=[], loops=[], exec_s=0, solve_s=0, query_s=0, queries=0, steps=0, trivial=0, wall_s=0)
    p.join()
    R['contract'] = os.path.relpath(cpp, VERIF)
    return R


def nonvac(msg):
    m = re.search(r'runs (\d+) vacuous (\d+)', msg or '')
    return int(m.group(1)) - int(m.group(2)) if m else 0


def check(pid, tier, registry):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = registry[pid]
    thorough = tier == 'thorough'
    deadline = t0 + (3000 if thorough else 560)
    secs = 60 if thorough else prop.get('secs', 12)
    D.ensure_tool()
    work = tempfile.mkdtemp(prefix='irvc')
    results, natives, builds = [], {}, {}
    violations = []
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    try:
        units = [(os.path.join(VERIF, 'contracts', u), hs or D.harnesses_in(os.path.join(VERIF, 'contracts', u))) for u, hs in prop['units']]

        def build(cpp):
            try:
                return D.compile_ir(cpp, work), None
            except D.BuildError as x:
                return None, 'contract unit does not compile: ' + str(x)[:1500]
        with ThreadPoolExecutor(8) as ex:
            builds = dict(zip([u for u, _ in units], ex.map(build, [u for u, _ in units])))
        jobs = [(cpp, h) for cpp, hs in units for h in hs]
        par = min(len(jobs), 5)

        def one(job):
            cpp, h = job
            ll, err = builds[cpp]
            if err:
                return dict(harness=h, error=err, obligations=[], covers=[], functions=[], replaced=[], externals=[], notes=[], loops=[],
                            exec_s=0, solve_s=0, query_s=0, queries=0, steps=0, trivial=0, wall_s=0, contract=os.path.relpath(cpp, VERIF))
            return run_proof(ll, cpp, h, secs, 8 if par == 1 else 4 if par < 4 else 3, deadline)
        with ThreadPoolExecutor(par) as ex:
            results = list(ex.map(one, jobs))

        nerr = None

        def native(cpp):
            nonlocal nerr
            if cpp not in natives:
                try:
                    natives[cpp] = D.compile_native(cpp, work)
                except D.BuildError as x:
                    natives[cpp] = None
                    nerr = str(x)[:1500]
            return natives[cpp]
        noanswer = []
        for (cpp, h), R in zip(jobs, results):
            R['undecided'] = []
            bad = [o for o in R['obligations'] if o['status'] == 'refuted']
            open_ = [o for o in R['obligations'] if o['status'] not in ('proved', 'refuted')]
            vac = [c for c in R['covers'] if c[1] != 'reachable']
            found = None
            if bad or open_ or R['error'] or vac or thorough:
                exe = native(cpp)
                if exe is not None and bad:
                    # replay the counterexamples on the real code, then search around them
                    bad.sort(key=lambda o: (o['model'] is None, len(o['model'] or ())))
                    for k, o in enumerate(bad[:4]):
                        if time.time() > t0 + (3300 if thorough else 760):
                            break
                        out = os.path.join(work, 'r%s%d' % (h, k))
                        f, msg = D.run_native(exe, h, o['model'], out, 10 if k == 0 else 4, seed)
                        if f:
                            found = (o, msg, out, 'replay of the counterexample of the refuted obligation')
                            break
                if exe is not None and found is None and (bad or open_ or R['error'] or vac or thorough):
                    out = os.path.join(work, 's' + h)
                    n = 60 if thorough else 8 if bad else 20 if open_ or R['error'] else 3
                    f, msg = D.run_native(exe, h, None, out, n, seed)
                    R['native_search'] = dict(seconds=n, result=msg, failing=bool(f))
                    if f:
                        found = (None, msg, out, 'bounded native search')
                    elif vac and nonvac(msg) > 0:
                        vac = [c for c in vac if c[1] != 'undecided']
                if exe is None and not bad:
                    noanswer.append(h)
            if found or bad:
                rp = os.path.join(evdir, '%s-%s-replay.json' % (pid, h))
                o = found[0] if found and found[0] else (bad[0] if bad else None)
                vals = []
                if found and os.path.exists(found[2]):
                    vals = [l.split(' ', 1) for l in open(found[2]).read().strip().split('\n') if ' ' in l]
                json.dump(dict(property=pid, contract=R['contract'], harness=h, failed_obligation=(o or {}).get('label') or (found and found[1]),
                               location=(o or {}).get('loc'), native_failure=found and found[1], how=found and found[3], inputs=vals[:20000],
                               verifier_model=(o or {}).get('model') and o['model'][:2000], verifier='irvc/%s' % ((o or {}).get('by') or '-'),
                               verifier_output='obligation refuted (%s): %s' % ((o or {}).get('by'), (o or {}).get('label')) if o else R['error'],
                               replay_cmd='python3-vt /verif/run.py replay ' + rp), open(rp, 'w'), indent=1)
                violations.append((rp, bool(found), h, (o or {}).get('label') or found[1]))
            for o in open_:
                R['undecided'].append('%s [%s] (%s)' % (o['label'], o['kind'], o['loc']))
            if R['error']:
                R['undecided'].append('whole harness: ' + R['error'])
            for c in vac:
                R['undecided'].append('vacuity guard: %s is %s' % (c[0], c[1]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    write_evidence(pid, tier, seed, prop, results, violations, t0)
    for R in results:
        if R['undecided']:
            print('UNDECIDED property=%s harness=%s: %s%s' % (pid, R['harness'], '; '.join(R['undecided'][:3])[:600],
                  ' (bounded native search instead: %s)' % R['native_search']['result'] if 'native_search' in R else ''))
    for rp, conf, h, lab in violations:
        print('%s: %s' % (h, lab))
    # one line per property: a confirmed violation first
    violations.sort(key=lambda v: not v[1])
    if violations:
        rp, conf, _, _ = violations[0]
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if conf else ' no-failing-input-found'))
        return 1
    if noanswer:
        print('no answer: %s; native build: %s' % (', '.join(noanswer), nerr))
        return 2
    n = sum(len(R['obligations']) for R in results)
    k = sum(len([o for o in R['obligations'] if o['status'] == 'proved']) for R in results)
    print('%s: %d/%d obligations discharged in %.0f s' % (pid, k, n, time.time() - t0))
    if n == 0 and not any(R['undecided'] for R in results):
        print('no obligations generated')
        return 2
    return 0


TRUSTED = [
    'clang 18 front end and -O2 optimiser (source to LLVM IR), irdump, the irvc verification-condition generator (/verif/irvc) and the SMT solvers z3 and cvc5',
    'floating point arithmetic is treated as exact real arithmetic with separate NaN and infinity states; rounding, overflow to infinity and underflow are not modelled',
    'signed integer arithmetic follows the IR (nsw operations are obligations only where listed); operator new never fails',
    'stub headers of /verif/stubs stand in for ROS, PCL, tf, mavros and octomap types (data members and documented behaviour only)',
]


def write_evidence(pid, tier, seed, prop, results, violations, t0):
    fns, repl, ext, notes, by = set(), set(), set(), set(), {}
    n = k = 0
    samples, und, loops = [], [], []
    for R in results:
        fns |= set(R['functions'])
        repl |= set(R['replaced'])
        ext |= set(R['externals'])
        notes |= set(R['notes'])
        loops += ['%s' % (l,) for l in (R['loops'] or [])][:40]
        for o in R['obligations']:
            n += 1
            if o['status'] == 'proved':
                k += 1
                by[o['by']] = by.get(o['by'], 0) + 1
        labs = []
        for o in R['obligations']:
            if o['kind'] == 'assert' and o['label'] not in labs:
                labs.append(o['label'])
        samples.append(dict(harness=R['harness'], contract=R.get('contract'), obligations=len(R['obligations']),
                            proved=len([o for o in R['obligations'] if o['status'] == 'proved']), postconditions=labs[:40],
                            reachability=R['covers'], exec_s=round(R['exec_s'], 2), solve_s=round(R['solve_s'], 2), error=R['error'],
                            solver_s=round(sum(o['time'] for o in R['obligations']) + R['query_s'], 2), undecided=R['undecided'],
                            native_search=R.get('native_search')))
        und += ['%s: %s' % (R['harness'], u) for u in R['undecided']]
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', coverage=dict(
        obligations=n, discharged=k, checker_cmd='python3-vt /verif/run.py check %s --tier %s' % (pid, tier),
        trusted_base=TRUSTED + prop.get('trusted', []), back_ends=by, functions_under_contract=sorted(fns), callees_replaced_by_contract=sorted(repl),
        external_functions_modelled=sorted(ext), abstractions=sorted(notes), loops=loops[:80],
        solver_time_s=round(sum(s['solver_s'] for s in samples), 2), undecided_obligations=und, bounded_not_proved=prop.get('bounded', []),
        samples=samples), assumptions=prop.get('assumptions', []) + ['harness preconditions (REQUIRES and input ranges) in ' + u for u, _ in prop['units']],
        wall_s=round(time.time() - t0, 2), violations=[dict(replay=v[0], confirmed=v[1], harness=v[2], obligation=v[3]) for v in violations])
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def replay(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix='irvc')
    try:
        exe = D.compile_native(os.path.join(VERIF, d['contract']), work)
        f, msg = D.run_native(exe, d['harness'], d['inputs'] or d['verifier_model'], os.path.join(work, 'o'), 0.01, 1)
        print('%s: %s' % (d['harness'], msg))
        return 1 if f else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
