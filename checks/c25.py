from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('conversion of all identifiers of letters and digits up to 6 (thorough: 8) characters; names of fields of up to 6 '
          '(thorough: 7) characters with and without conversion, in the message which capnp passes to the compiler; the accessors of generated '
          'structs for 13 names; imports of three files whose names are any of 9 which are equal, or become so, when they are '
          'made identifiers; the names of 2 and 3 files with up to 3 arbitrary characters')
OUTSIDE = 'longer names; names which are different only by the case of letters'
ASSUMPTIONS = ['the message of the schema is the one written by the installed capnp']
SCHEMAS = schema('si', 'import1', 'import2', 'import3')
PRELOAD = ['layout_si', 'si']


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    for n in range(1, 9 if deep else 7):
        out.append(dict(func='convert', params=dict(n=n)))
    for n in range(1, 8 if deep else 7):
        out.append(dict(func='field', params=dict(n=n)))
    out.append(dict(func='generated', params={}))
    for i in range(9):
        out.append(dict(func='imports', params=dict(first=i)))
    for shapes in ([('', 1), ('', 1)], [('x/', 1), ('y/', 1)], [('', 2), ('x/', 2)], [('', 1), ('x/', 1), ('y/', 1)],
                   [('', 5), ('x/', 2)], [('', 2), ('x/', 2), ('y/', 2)]):
        out.append(dict(func='register', params=dict(shapes=shapes)))
    return module(out, 'h_names')
