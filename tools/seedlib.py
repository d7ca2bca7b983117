"""helpers to write planted bugs (development tool)"""
import json
import os
import subprocess

HEAD = '''import os, sys, struct
W = os.environ['W']
import capnpy
def schema(src, pyx='auto'):
    fn = os.path.join(W, 'tmp_%d.capnp' % len(os.listdir(W)))
    with open(fn, 'w') as f:
        f.write('@0xbf5147cbbecf40c1;\\nusing Py = import "/capnpy/annotate.capnp";\\n' + src)
    return capnpy.load_schema(filename=fn, pyx=False)
'''


def sub(p, a, b, cnt=1):
    p = '/repo/' + p
    with open(p) as f:
        s = f.read()
    assert s.count(a) == cnt, (p, a, s.count(a))
    with open(p, 'w') as f:
        f.write(s.replace(a, b))


def seed(i, prop, needs, breaks, demo, head=HEAD, both=True):
    d = '/verif/seeded/' + i
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as f:
        f.write(head + demo)
    with open(d + '/meta.json', 'w') as f:
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), f, indent=1)
    subprocess.check_call(['bash', '/verif/tools/mkseed.sh', i, prop])
    if not both:
        with open(d + '/demo.sh') as f:
            s = f.read()
        s = s.replace(' && /opt/venv-pypy/bin/python "$here/demo.py"', '')
        with open(d + '/demo.sh', 'w') as f:
            f.write(s)
