#!/usr/bin/env python3
"""seed.py new ID PROP 'needs' 'what' < edit already made in /repo's working tree; demo in /tmp/w/demo.cpp
   -> writes seeded/ID, verifies build/tests/demo, restores /repo.
   seed.py run ID [check ...]: apply, run checks, restore."""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# compiles demo.cpp against the repository in the current directory and runs it
set -e
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 %s-I"$PWD/include" -DBOOST_URL_HEADER_ONLY "$H/demo.cpp" -o "$T/demo" -lboost_system 2>"$T/log" || \\
g++ -std=c++11 %s-I"$PWD/include" "$H/demo.cpp" -o "$T/demo" 2>>"$T/log" || { cat "$T/log"; exit 3; }
timeout 60 "$T/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def tests():
    r = sh('bash /opt/vp/test.sh /tmp/w/out.json')
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    o = json.load(open('/tmp/w/out.json'))
    return b - set(o['passed']), r


def main():
    if sys.argv[1] == 'new':
        sid, prop, needs, what = sys.argv[2:6]
        flags = sys.argv[6] + ' ' if len(sys.argv) > 6 else ''
        d = os.path.join(V, 'seeded', sid)
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
        assert diff.strip(), 'no edit'
        try:
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            shutil.copy('/tmp/w/demo.cpp', d + '/demo.cpp')
            open(d + '/demo.sh', 'w').write(DEMO % (flags, flags))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
            miss, r = tests()
            r2 = sh('bash %s/demo.sh' % d, cwd='/repo')
            print('patched: missing tests', miss, 'demo', r2.returncode, (r2.stdout + r2.stderr)[-300:])
        finally:
            sh('git -C /repo checkout -- .')
        r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
        print('clean: demo', r1.returncode, (r1.stdout + r1.stderr)[-300:])
        ok = not miss and r2.returncode != 0 and r2.returncode != 3 and r1.returncode == 0
        print('KEEP' if ok else 'REJECTED', sid)
        if not ok:
            shutil.move(d, '/tmp/w/rejected_' + sid + str(os.getpid()))
    elif sys.argv[1] == 'run':
        sid = sys.argv[2]
        d = os.path.join(V, 'seeded', sid)
        cs = sys.argv[3:] or [json.load(open(d + '/meta.json'))['property']]
        r = sh('git -C /repo apply %s/patch.diff' % d)
        assert r.returncode == 0, r.stderr
        try:
            for c in cs:
                r = sh('python3 run.py %s' % c, cwd=V)
                print(sid, c, r.returncode, (r.stdout.strip().splitlines() or ['?'])[-1][:200])
                for ln in r.stdout.splitlines()[:4]:
                    print('     ', ln[:220])
                if r.returncode == 2:
                    print(r.stderr[-500:])
        finally:
            sh('git -C /repo checkout -- .')


main()
