from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('combinations of two and three sets of all four options with arbitrary values; a schema with annotations on the file, '
          'structs nested up to three levels, groups and fields, in the message which capnp passes to the compiler: '
          'arbitrary values of one option in every set of annotations of a branch together with the ones passed to the '
          'compiler, arbitrary values of all options in pairs of annotations; names, types, version check and reflection '
          'data of the generated modules')
OUTSIDE = 'other schemas; deeper nesting; options of imported files'
ASSUMPTIONS = ['the message of the schema is the one written by the installed capnp']
SCHEMAS = schema('so')
PRELOAD = ['layout_so']
FIELDS = ('version_check', 'convert_case', 'text_type', 'include_reflection_data')


def tasks(tier):
    out = []
    for off in (0, 1):
        out.append(dict(func='combine', params=dict(off=off)))
    for f in FIELDS:
        out.append(dict(func='three', params=dict(field=f)))
    for n in (0, 1):
        out.append(dict(func='short', params=dict(words=n)))
    out.append(dict(func='parsed', params={}))
    branches = (['file', 'Outer', 'Outer.Inner.fieldTwo'], ['file', 'Outer', 'Outer.Inner.Deep', 'Outer.Inner.Deep.fieldTwo'],
                ['file', 'Outer', 'Outer.Other', 'Outer.Other.fieldTwo'], ['file', 'Plain.fieldTwo', 'Outer.fieldTwo'],
                ['Outer', 'Outer.groupOne.fieldTen', 'Outer.Other', 'Outer.Inner.Deep'])
    for b in branches:
        for f in FIELDS:
            out.append(dict(func='precedence', params=dict(which=b, only=[f], base=True)))
    out.append(dict(func='precedence', params=dict(which=['file', 'Outer.fieldTwo'], only=['convert_case', 'text_type'], base=False)))
    out.append(dict(func='precedence', params=dict(which=['Outer', 'Outer.Inner.Deep'], only=list(FIELDS[:3]), base=False)))
    for f in FIELDS:
        out.append(dict(func='generated', params=dict(which=['file'], only=[f], base=True)))
    for f in ('convert_case', 'text_type'):
        out.append(dict(func='generated', params=dict(which=['Outer', 'Outer.Inner.Deep', 'Outer.Other.fieldTwo'], only=[f], base=False)))
    return module(out, 'h_opts')
