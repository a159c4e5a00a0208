"""Builds a contract unit from /repo's current source, generates obligations, discharges them."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IRVC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'irdump')

INC = ['-I%s/build/gen' % VERIF, '-I%s/include' % VERIF, '-I%s/stubs' % VERIF, '-I%s/contracts' % VERIF,
       '-I%s/avoidance/include' % REPO, '-I%s/local_planner/include' % REPO, '-I%s/local_planner/src/nodes' % REPO,
       '-I%s/safe_landing_planner/include' % REPO, '-I%s/global_planner/include' % REPO,
       '-I%s' % REPO, '-isystem', '/usr/include/eigen3']
HOOK = ['-DPX4_AVOIDANCE_CONTRACTS']
SYM = ['clang++-18', '-std=c++14', '-fno-access-control', '-DVC_SYM', '-O2', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
       '-ffp-contract=off', '-fno-math-errno', '-fno-threadsafe-statics', '-fno-jump-tables', '-DEIGEN_DONT_VECTORIZE',
       '-mllvm', '-rotation-max-header-size=0', '-w', '-S', '-emit-llvm', '-fno-stack-protector', '-fno-delete-null-pointer-checks']
NAT = ['g++', '-std=c++14', '-fno-access-control', '-O1', '-g1', '-w', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr,float-cast-overflow,signed-integer-overflow',
       '-fno-sanitize-recover=undefined', '-rdynamic', '-D_GLIBCXX_ASSERTIONS']


def ensure_tool():
    global TOOL
    gen_configs()
    src = os.path.join(VERIF, 'irvc', 'tool', 'irdump.cpp')
    TOOL = os.path.join(BUILD, 'irdump-' + hashlib.sha1(open(src, 'rb').read()).hexdigest()[:10])
    if os.path.exists(TOOL):
        return
    os.makedirs(BUILD, exist_ok=True)
    fl = subprocess.check_output(['llvm-config-18', '--cxxflags', '--ldflags', '--libs', 'core', 'irreader', 'analysis'], text=True).split()
    tmp = TOOL + '.%d' % os.getpid()
    subprocess.check_call(['clang++-18', '-O1', '-std=c++17', '-fno-rtti', src] + fl + ['-o', tmp])
    os.rename(tmp, TOOL)


GEN = os.path.join(BUILD, 'gen')


def put(o, out):
    os.makedirs(os.path.dirname(o), exist_ok=True)
    if os.path.exists(o) and open(o).read() == out:
        return
    with open(o + '.%d' % os.getpid(), 'w') as w:
        w.write(out)
    os.rename(o + '.%d' % os.getpid(), o)


def gen_configs():
    """the dynamic_reconfigure headers, generated from /repo's .cfg files as catkin would"""
    ty = dict(double_t='double', int_t='int', bool_t='bool', str_t='vcs::str')
    for pkg in ('local_planner', 'safe_landing_planner', 'global_planner'):
        d = os.path.join(REPO, pkg, 'cfg')
        if not os.path.isdir(d):
            continue
        for f in sorted(x for x in os.listdir(d) if 'gen.add' in open(os.path.join(d, x)).read()):
            t = open(os.path.join(d, f)).read()
            ns = re.search(r'PACKAGE\s*=\s*["\'](\w+)', t)
            ns = ns.group(1) if ns else pkg
            name = f[:-4] + 'Config'
            mem, lim = [], []
            for m in re.finditer(r'gen\.add\(\s*"(\w+)"\s*,\s*(\w+)\s*,\s*\w+\s*,\s*"[^"]*"\s*,\s*([^,)]+)(?:,\s*([-\d.]+))?(?:,\s*([-\d.]+))?', t):
                n, k, dv, lo, hi = m.groups()
                dv = dv.strip()
                dv = dict(True_='true', False_='false').get(dv + '_', dv)
                mem.append('  %s %s = %s;' % (ty[k], n, dv))
                if lo and hi and k in ('double_t', 'int_t'):
                    lim.append('#define %s_%s_MIN %s\n#define %s_%s_MAX %s' % (name, n, lo, name, n, hi))
            out = '#pragma once\n#include <vcros.h>\nnamespace %s {\nstruct %s {\n%s\n};\n}\n%s\n' % (ns, name, '\n'.join(mem), '\n'.join(lim))
            put(os.path.join(GEN, pkg, name + '.h'), out)
        d = os.path.join(REPO, pkg, 'msg')
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
            mem = []
            for l in open(os.path.join(d, f)):
                m = re.match(r'\s*([\w/]+)(\[\])?\s+(\w+)\s*$', l)
                if m:
                    t, arr, n = m.groups()
                    t = dict(Header='std_msgs::Header', float64='double', float32='float', int32='int', int64='int64_t', uint8='uint8_t', bool='bool', string='vcs::str').get(t, t.replace('/', '::'))
                    mem.append('  %s %s{};' % ('std::vector<%s>' % t if arr else t, n))
            put(os.path.join(GEN, pkg, f[:-4] + '.h'), '#pragma once\n#include <vcros.h>\nnamespace %s {\nstruct %s {\n%s\n};\n}\n' % (pkg, f[:-4], '\n'.join(mem)))


class BuildError(Exception):
    pass


def hooks_header(cpp, work):
    """hooks in /repo: an invariant where this contract file states one, nothing elsewhere"""
    tags = set()
    for pkg in ('avoidance', 'local_planner', 'safe_landing_planner', 'global_planner'):
        for d, _, fs in os.walk(os.path.join(REPO, pkg)):
            for f in fs:
                if f.endswith(('.cpp', '.h', '.hpp')):
                    tags.update(re.findall(r'VC_LOOP_INVARIANT\(\s*(\w+)', open(os.path.join(d, f), errors='replace').read()))
    mine = set(re.findall(r'\bvcinv_(\w+)\s*\(', open(cpp).read()))
    p = os.path.join(work, 'hooks.h')
    with open(p, 'w') as o:
        for t in sorted(tags | mine):
            o.write('#define vchook_%s(...) vc_loop_cut(vcinv_%s(__VA_ARGS__))\n' % (t, t) if t in mine else '#define vchook_%s(...) ((void)0)\n' % t)
    return p


def compile_ir(cpp, work, flags=()):
    ll = os.path.join(work, os.path.basename(cpp) + '.ll')
    keep = re.findall(r'^//\s*noinline:\s*(\S.*?)\s*$', open(cpp).read(), re.M)
    shadow = ['-I%s/stubs/sym' % VERIF] if re.search(r'^// shadow\b', open(cpp).read(), re.M) else []
    if re.search(r'^// strings\b', open(cpp).read(), re.M):
        shadow = ['-I%s/stubs/symstr' % VERIF] + shadow
    cmd = SYM + HOOK + ['-include', hooks_header(cpp, work)] + list(flags) + shadow + INC + [cpp, '-o', ll]
    if keep:
        cmd += ['-Xclang', '-disable-llvm-passes']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise BuildError(r.stderr[:4000])
    if keep:
        for c in ([TOOL, '--prep', ll, ll + '.1.ll'] + keep, SYM + ['-x', 'ir', ll + '.1.ll', '-o', ll]):
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode != 0:
                raise BuildError(r.stderr[:4000])
    return ll


def dump_ir(ll, roots):
    r = subprocess.run([TOOL, ll] + roots, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise BuildError('irdump: ' + r.stderr[:1000])
    return json.loads(r.stdout)


def harnesses_in(cpp):
    return re.findall(r'^\s*HARNESS\((\w+)\)', open(cpp).read(), re.M)


def compile_native(cpp, work, flags=()):
    exe = os.path.join(work, os.path.basename(cpp) + '.native')
    if os.path.exists(exe):
        return exe
    cmd = NAT + list(flags) + INC + [cpp, os.path.join(VERIF, 'include', 'vc_native.cpp'), '-o', exe, '-ldl']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise BuildError('native: ' + r.stderr[:4000])
    return exe


def run_native(exe, harness, values, out, secs, seed, timeout=None):
    vp = '-'
    if values:
        vp = out + '.in'
        with open(vp, 'w') as f:
            for n, v in values:
                f.write('%s %s\n' % (n.replace(' ', '_'), v))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
    try:
        r = subprocess.run([exe, harness, vp, out, str(secs), str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env,
                           timeout=timeout or secs + 60)
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    m = re.search(r'VC_FAIL (.*)', r.stdout)
    if m:
        return True, m.group(1)
    if 'AddressSanitizer' in r.stderr or 'runtime error' in r.stderr:
        return True, 'sanitizer: ' + '\n'.join(r.stderr.split('\n')[:3])
    m = re.search(r'VC_OK.*', r.stdout)
    return False, m.group(0) if m else 'rc %d %s' % (r.returncode, r.stderr[:300])


def demangle(names):
    if not names:
        return []
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.strip().split('\n')


def verify_harness(ir, h, opts, secs, procs, log):
    """-> dict(result)"""
    from .execute import Exec
    from .engine import NeedCut
    from .values import Unsupported
    from . import solve
    t0 = time.time()
    cuts = set(map(tuple, opts.get('cuts', ())))
    err = None
    for attempt in range(8):
        eng = Exec(ir, opts)
        eng.reset()
        eng.mono = {}
        eng.cutset = cuts
        try:
            res = eng.run('vch_' + h)
            err = None
            break
        except NeedCut as x:
            if (x.fn, x.h) in cuts:
                err = 'loop in %s cannot be bounded' % x.fn
                break
            cuts = cuts | {(x.fn, x.h)}
            log('   cutting loop %s@%d at an automatic invariant' % (x.fn, x.h))
        except Unsupported as x:
            err = '%s (%s:%s)' % (x, eng.curloc[0], eng.curloc[1])
            if os.environ.get('IRVC_TRACE'):
                traceback.print_exc()
            break
        except Exception as x:
            err = 'internal: %s: %s (%s:%s)' % (type(x).__name__, str(x)[:200], eng.curloc[0], eng.curloc[1])
            if os.environ.get('IRVC_TRACE'):
                traceback.print_exc()
            break
    else:
        err = 'too many loops to cut'
    R = dict(harness=h, error=err, exec_s=time.time() - t0, steps=eng.steps, notes=sorted(eng.notes), externals=sorted(eng.externals),
             queries=eng.qn, query_s=eng.qt, loops=eng.loopinfo)
    fns = []
    for n in eng.used_fns:
        f = eng.fns.get(n)
        if f is not None and f.file.startswith(REPO):
            fns.append(n)
    R['functions'] = sorted(set(demangle(fns)))
    R['replaced'] = sorted(set(demangle(list(eng.replaced))))
    R['obligations'] = []
    R['trivial'] = eng.trivial
    if err is None:
        rs, rv, es, ev = res
        if es is not None and not es.dead:
            eng.curloc = ('', 0)
            eng.oblige(es, False, 'no uncaught exception', 'exception')
        t1 = time.time()
        # vacuity: the harness end (or an explicit cover) must be reachable
        cov = []
        if rs is not None and not rs.dead:
            eng.covers.append(('harness end reachable', list(rs.g), False))
        elif not eng.covers:
            eng.covers.append(('harness end reachable', [], True))
        R['covers'] = []
        for lab, g, bad in eng.covers:
            r = False if bad else eng.sat(g, 20000)
            R['covers'].append((lab, {True: 'reachable', False: 'UNREACHABLE', None: 'undecided'}[r]))
        solve.solve_all(eng, secs, procs, budget=opts.get('budget'))
        R['solve_s'] = time.time() - t1
        for o in eng.obls:
            R['obligations'].append(dict(label=o.label, kind=o.kind, status=o.status, by=o.by, time=o.time, loc='%s:%s' % o.loc, model=o.model))
    else:
        R['covers'] = []
        R['solve_s'] = 0.0
    R['wall_s'] = time.time() - t0
    return R


def summarize(R):
    n = len(R['obligations'])
    st = {}
    for o in R['obligations']:
        st[o['status']] = st.get(o['status'], 0) + 1
    return '%s: %d obligations %s exec %.1fs solve %.1fs%s covers %s' % (R['harness'], n, st, R['exec_s'], R['solve_s'], ' ERROR ' + R['error'] if R['error'] else '', R['covers'])


def dev(argv):
    """development entry: driver.py contract.cpp [harness...]"""
    ensure_tool()
    cpp = argv[0]
    work = tempfile.mkdtemp(prefix='irvc')
    try:
        t = time.time()
        ll = compile_ir(cpp, work)
        if os.environ.get('IRVC_KEEP'):
            shutil.copy(ll, os.environ['IRVC_KEEP'])
        hs = [a for a in argv[1:] if not a.startswith('-')] or harnesses_in(cpp)
        print('compiled %.1fs' % (time.time() - t))
        for h in hs:
            ir = dump_ir(ll, ['vch_' + h])
            opts = {}
            m = re.search(r'//\s*opts\(%s\):\s*(\{.*\})' % h, open(cpp).read())
            if m:
                opts = eval(m.group(1))
            R = verify_harness(ir, h, opts, float(os.environ.get('IRVC_SECS', 10)), 8, print)
            print(summarize(R))
            for o in R['obligations']:
                if o['status'] != 'proved' or os.environ.get('IRVC_V'):
                    print('   ', o['status'], o['kind'], '|', o['label'], '|', o['loc'], o['by'], '%.1fs' % o['time'])
                    if o['model'] and os.environ.get('IRVC_M'):
                        print('        ', o['model'][:60])
            if R['notes']:
                print('    notes', R['notes'])
            if R['error'] is None and '-n' in argv:
                exe = compile_native(cpp, work)
                print('    native', run_native(exe, h, None, os.path.join(work, 'o'), 2, 1))
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    dev(sys.argv[1:])
