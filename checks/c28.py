from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('a schema with annotations of 9 types on the file, structs, enums, fields, groups, union members, enumerants and '
          'constants (up to 3 on the same entity, including twice the same one), nested structs: arbitrary values of the '
          'annotations, or arbitrary 64-bit ids of one or two of them; the node of an arbitrary 64-bit id; asked '
          'for by node and by Python entity, repeatedly')
OUTSIDE = ('annotations whose value is a struct or list (returned as untyped pointers); interfaces; imported annotations; other '
           'schemas')
ASSUMPTIONS = ['the message of the schema is the one written by the installed capnp, apart from the annotations']
SCHEMAS = schema('sr')
PRELOAD = ['layout_sr']
WITH = ['file', 'Color', 'Color.red', 'Color.darkBlue', 'Outer', 'Outer.one', 'Outer.three', 'Outer.grp', 'Outer.grp.four',
        'Outer.six', 'Outer.seven', 'Outer.Inner', 'Outer.Inner.eight', 'Outer.nine']


def tasks(tier):
    out = [dict(func='nodes', params={}, reach=['unknown', 'node']), dict(func='names', params={})]
    n = 3 if tier == 'quick' else 1
    for i in range(0, len(WITH), n):
        out.append(dict(func='annotations', params=dict(which=WITH[i:i + n], ids_too=())))
    for w in WITH:
        out.append(dict(func='annotations', params=dict(which=[w], ids_too=(0,))))
    for w in ('Outer', 'Outer.Inner.eight'):
        out.append(dict(func='annotations', params=dict(which=[w], ids_too=(1,))))
    out.append(dict(func='annotations', params=dict(which=['Outer.one'], ids_too=(0, 1))))
    if tier != 'quick':
        for w in WITH:
            if w in ('Outer', 'Color.darkBlue', 'Outer.three', 'Outer.Inner.eight'):
                out.append(dict(func='annotations', params=dict(which=[w], ids_too=(0, 1))))
        out.append(dict(func='annotations', params=dict(which=['Outer'], ids_too=(1, 2))))
        out.append(dict(func='annotations', params=dict(which=['Color.red', 'Outer.nine'], ids_too=(0,))))
        out.append(dict(func='annotations', params=dict(which=['Outer.grp', 'Outer.grp.four'], ids_too=(0,))))
    return module(out, 'h_reflect')
