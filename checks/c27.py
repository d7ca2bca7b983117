from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('constants of every type (Void, Bool, all the integers and floats, enum, Text and Data of 0..9 bytes, structs with '
          'nested text, lists and structs, lists of all these), in the module, in a struct and in a nested struct, with and '
          'without reflection data: every value of the scalars, every contents of the bytes, data sections and items (the '
          'message which capnp gives to the compiler is symbolic there)')
OUTSIDE = ('other lengths and shapes; list constants without reflection data (refused: a documented limit); Text constants under '
           'textType=unicode; constants whose name is a Python keyword; the payload of NaNs; the generated Cython code (the '
           'module is generated in pure Python form and runs on the pure and on the compiled runtime)')
ASSUMPTIONS = ['the message of the schema is the one written by the installed capnp, apart from the values',
               'a literal in generated code denotes the value whose repr it is (replay runs the literal text)']
SCHEMAS = schema('sc', 'sd')
PRELOAD = ['layout_sc', 'layout_sd']
SC = ['lv', 'lb', 'li8', 'li16', 'li32', 'li64', 'lu8', 'lu16', 'lu32', 'lu64', 'lf32', 'lf64', 'le', 'lt', 'ld', 'lp', 'll', 'l0']
SD = ['v', 'b', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64', 'en', 't0', 't1', 't5', 't8', 'd0', 'd1',
      'd9', 'pt', 'pe', 'Outer.oi', 'Outer.of', 'Outer.op', 'Outer.Inner.ot', 'Outer.Inner.ob']


def tasks(tier):
    out = []
    for r in (True, False):
        for w in (['f32'], ['f64'], ['Outer.of']):
            out.append(dict(func='constants', params=dict(schema='sd', which=w, reflection=r)))
        rest = [x for x in SD if x not in ('f32', 'f64', 'Outer.of')]
        for i in range(0, len(rest), 6):
            out.append(dict(func='constants', params=dict(schema='sd', which=rest[i:i + 6], reflection=r)))
        if tier != 'quick':
            for x in rest:
                out.append(dict(func='constants', params=dict(schema='sd', which=[x], reflection=r)))
    for i in range(0, len(SC), 3):
        out.append(dict(func='constants', params=dict(schema='sc', which=SC[i:i + 3], reflection=True)))
    if tier != 'quick':
        for x in SC:
            out.append(dict(func='constants', params=dict(schema='sc', which=[x], reflection=True)))
    return module(out, 'h_const')
