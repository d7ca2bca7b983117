from checks.common import schema, module
from checks.c06 import LAYOUTS, DEEP
LEVEL = 'model_checking'
BOUNDS = ('the object graphs and layouts of C06, through both dump paths; 0..3 messages in a file; 1..9 trailing bytes and '
          'every truncation of a message of 48 bytes')
OUTSIDE = 'larger graphs'
ASSUMPTIONS = []
SCHEMAS = schema('st')
PRELOAD = ['st']
S = ['s', 1, [['l', 2, 3], None, ['s', 1, []]]]


def tasks(tier):
    out = []
    for lay in LAYOUTS:
        for fast in (True, False):
            for fam in ('leaf', 'pair') if tier == 'quick' else ('leaf', 'pair', 'deep'):
                out.append(dict(func='roundtrip', params=dict(layout=lay, fam=fam, fast=fast), time=3000))
            for s in DEEP:
                out.append(dict(func='roundtrip', params=dict(layout=lay, shape=s, fast=fast)))
            for ss in ([], [S], [S, ['s', 0, []], DEEP[0]]):
                out.append(dict(func='files', params=dict(layout=lay, shapes=ss, fast=fast)))
    for e in range(1, 10):
        out.append(dict(func='trailing', params=dict(extra=e, cut=0, shape=S)))
    for c in range(0, 65):
        out.append(dict(func='trailing', params=dict(extra=0, cut=c, shape=S)))
    return module(out, 'h_tree')
