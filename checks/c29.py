from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('all scalar types with any value (one to four fields at a time, shorter data sections), all combinations of null and '
          'non-null pointers of 5 types, lists of all types with up to 3 items (any contents), nested lists, lists of '
          'structs, unions with any tag and contents (members of all kinds), groups, nested groups, named unions, nullable '
          'and virtual groups')
OUTSIDE = ('AnyPointer and capabilities (shown as ???); text and data (C20); the decimal digits of numbers, which are the '
           'work of repr() of the standard library')
ASSUMPTIONS = ['repr() of an int or float of the standard library denotes its value']
SCHEMAS = schema('sh')
PRELOAD = ['sh', 'layout_sh']
A = 'b i8 u8 i16 u16 i32 u32 i64 u64 f32 f64 en someBool'.split()


def tasks(tier):
    out = []
    deep = tier != 'quick'

    def t(f, **kw):
        out.append(dict(func=f, params=kw))
    for n in A:
        t('scalars', names=[n])
    for g in ('b i8 u16 someBool', 'i32 u64 en', 'u8 i16 u32 i64', 'f32 f64 b'):
        t('scalars', names=g.split())
    for d in range(6):
        t('scalars', names=A if deep else 'i8 u16 i32 u64 someBool'.split(), d=d)
    names = ['theText', 'd', 's', 'li', 'ls']
    for k in range(32):
        t('pointers', present=[n for i, n in enumerate(names) if k >> i & 1])
    for cut in range(5):
        t('pointers', present=names, cut=cut)
    for n in 'v b i8 u8 i16 u16 i32 u32 i64 u64 f32 f64 en s ll ls'.split():
        for k in (0, 1, 2) + ((3, 4) if deep else (3,) if n in ('v', 'b', 'i16', 'll') else ()):
            t('lists', name=n, n=k)
    for n in ('ll', 'ls'):
        t('lists', name=n, n=2, null=True)
    for n in 'v i t s l g nul f'.split():
        t('union', struct='U', member=n)
        t('union', struct='U', member=n, present=False)
    t('union', struct='U', member=None, present=False)
    for n in 's t n'.split():
        t('union', struct='W', member=n)
        t('union', struct='W', member=n, present=False)
    t('union', struct='W', member=None, present=False)
    t('union', struct='W', member=None, d=0)
    t('union', struct='U', member=None, d=0)
    for p in (False, True):
        for g in (['g'], ['uni'], ['nul'], ['flagged'], ['g', 'nul']):
            t('groups', names=g, present=p)
    t('built', x=0, y=0)
    for x in out:
        x['max_paths'] = 60000
    return module(out, 'h_show')
