import os

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'schemas')


def schema(*names):
    out = []
    for n in names:
        with open(os.path.join(DIR, n + '.capnp')) as f:
            out.append((n, f.read()))
    return out


def module(out, name):
    for t in out:
        t.setdefault('module', name)
    return out
