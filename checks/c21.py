from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('untyped pointers, direct and through landing pads of one and two words in every relative position of 1..3 segments: '
          'queries for structs of all section sizes, lists of all 8 size tags and all lengths, capabilities, null, and all '
          '30-bit offsets; casts to struct, text, unicode, data and lists of 8 element types (3 elements), of arbitrary '
          'contents, against typed fields of the same message; casts which do not match; in unions')
OUTSIDE = 'malformed pointers; casting a null pointer'
ASSUMPTIONS = []
SCHEMAS = schema('sa')
PRELOAD = ['sa', 'layout_sa']
PLACES = ('direct', 'direct2', 'pad same', 'pad other', 'pad after', 'double', 'double same', 'double root', 'double back')
KINDS = ('t', 'u', 'd', 's', 'v', 'b', 'l1', 'l2', 'l4', 'l8', 'lt', 'ls')


def tasks(tier):
    out = []
    for p in PLACES:
        out.append(dict(func='queries', params=dict(place=p)))
        out.append(dict(func='mismatch', params=dict(place=p)))
        out.append(dict(func='union', params=dict(place=p)))
        for k in KINDS:
            out.append(dict(func='cast', params=dict(kind=k, place=p)))
    out.append(dict(func='offsets', params={}))
    for n in (0, 1, 2):
        out.append(dict(func='null', params=dict(ptrs=n)))
    return module(out, 'h_any')
