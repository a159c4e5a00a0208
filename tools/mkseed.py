#!/usr/bin/env python3
"""mkseed.py SPEC.py: plants the bugs of a spec (list BUGS of dicts id, property, edits [(file, old, new)], needs, breaks, demo (C++ text), inc)
into a scratch copy of /repo, validates them (build, tests, demo fails with / passes without) and writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
R = '/repo'


def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns['BUGS']:
    if only and b['id'] not in only:
        continue
    d = '/verif/seeded/' + b['id']
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        assert sh('git -C /repo diff --quiet').returncode == 0, 'repo dirty'
        for f, old, new in b['edits']:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(b['demo'])
        inc = ''
        if b.get('stubs'):
            shutil.copytree('/verif/stubs', d + '/stubs', ignore=shutil.ignore_patterns('sym'))
            shutil.copytree('/verif/build/gen', d + '/stubs', dirs_exist_ok=True)
            shutil.copy('/verif/include/vc.h', d + '/stubs/vc.h')
            inc = ' -DVC_NATIVE -I"$here/stubs"'
        for n, t in b.get('files', {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, n)) or d, exist_ok=True)
            open(os.path.join(d, n), 'w').write(t)
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds; nonzero: broken. Run with cwd /repo.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++14 -O1 -w %s%s -I"$here" -Iavoidance/include -Ilocal_planner/include -Ilocal_planner/src/nodes -Isafe_landing_planner/include -Iglobal_planner/include -I. -isystem /usr/include/eigen3 "$here/demo.cpp" -o "$out/demo"
timeout 120 "$out/demo"
''' % (b.get('flags', ''), inc))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash /opt/vp/build.sh')
        assert r.returncode == 0, 'build ' + r.stdout[-500:]
        sh('bash /opt/vp/test.sh %s/o.json' % tmp)
        o = json.load(open(tmp + '/o.json'))
        assert len(o['failed']) == 0 and len(o['passed']) >= 22, 'tests %s' % o['failed']
        r = sh('bash %s/demo.sh' % d, cwd=R)
        bad = r.returncode
        msg = r.stdout[-80:].strip()
        sh('git -C /repo checkout -- .')
        r = sh('bash %s/demo.sh' % d, cwd=R)
        print(b['id'], 'demo with patch', bad, '(%s)' % msg, 'without', r.returncode, r.stdout[-0:][:60] if r.returncode else "", 'OK' if bad and not r.returncode else '*** NOT OK')
    except AssertionError as x:
        print(b['id'], '*** FAILED', x)
    finally:
        sh('git -C /repo checkout -- .')
        shutil.rmtree(tmp)
sh('bash /opt/vp/build.sh')
