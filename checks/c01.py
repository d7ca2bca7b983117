LEVEL = 'model_checking'
BOUNDS = ('every 64-bit pointer word; every in-range value of every field when building; deref from every position '
          'in [-2^40, 2^40]; round_up_to_word for every value in [0, 2^61]: no unrolling is involved, so within the '
          'machine word these are exhaustive')
OUTSIDE = 'field values outside their width (callers only pass decoded or bounded values)'
ASSUMPTIONS = ['long is 64 bits', 'pypytools.cast.as_signed sign-extends']
FUNCS = ['decode', 'deref', 'kind_constants', 'build_struct', 'build_list', 'build_far', 'build_generic',
         'sizes', 'round_up']


def tasks(tier):
    return [dict(module='h_ptr', func=f) for f in FUNCS]
