#!/usr/bin/env python3
"""plant.py ID...: try the planted bugs of /verif/seeded against /repo (development tool; restores /repo)"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def build():
    rc, out = sh(['bash', '/opt/vp/build.sh'])
    if rc:
        print(out[-1500:])
    return rc


stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json'))['passed'])
assert sh(['git', '-C', '/repo', 'status', '--short'])[1].strip() == ''
notests = '--no-tests' in sys.argv
for i in [a for a in sys.argv[1:] if a[0] != '-']:
    d = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    build()
    rc0, out0 = sh(['bash', d + '/demo.sh'], cwd='/repo')
    print(i, 'demo on the unchanged tree:', rc0, out0[-500:] if rc0 else '')
    try:
        rc, out = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        if rc:
            print(i, 'DOES NOT APPLY', out)
            continue
        if build():
            print(i, 'DOES NOT BUILD')
            continue
        rc1, out1 = sh(['bash', d + '/demo.sh'], cwd='/repo')
        print(i, 'demo on the changed tree:', rc1, out1[-300:])
        if not notests:
            sh(['bash', '/opt/vp/test.sh', '/tmp/plant.json'])
            t = json.load(open('/tmp/plant.json'))
            missing = stable - set(t['passed'])
            print(i, 'stable tests failing:', len(missing), sorted(missing)[:5])
        rc, out = sh(['bash', HERE + '/run.sh', meta['property'], 'quick'])
        viol = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        print(i, 'check', meta['property'], 'exit', rc, viol[:1] or out[-800:])
        print(i, 'CAUGHT' if rc == 1 and viol else '*** MISSED ***')
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
build()
print(sh(['git', '-C', '/repo', 'status', '--short'])[1])
