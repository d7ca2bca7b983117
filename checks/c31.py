from checks.common import module
LEVEL = 'model_checking'
BOUNDS = ('every combination of the flags and text types, before and after the arguments; streams of up to 3 messages (4 in the thorough tier) of 1..3 '
          'segments with arbitrary contents, followed by 0..7 arbitrary bytes')
OUTSIDE = 'the schema which is loaded and the compiler which is called (C22, C30); the text of the objects (C29)'
ASSUMPTIONS = ['docopt parses the usage text as documented (it is run, not encoded)']


def tasks(tier):
    out = []
    for order in ('before', 'after'):
        out.append(dict(func='compiles', params=dict(order=order)))
        out.append(dict(func='decodes', params=dict(order=order)))
    shapes = ([], [(0, 1)], [(0, 1), (1, 2)], [(1, 1), (0, 3), (0, 1)])
    if tier != 'quick':
        shapes += ([(2, 1), (0, 2), (1, 3), (0, 1)], [(0, 4)], [(5, 2), (0, 2)])
    for s in shapes:
        for t in range(8):
            out.append(dict(func='stream', params=dict(shapes=s, tail=t)))
    return module(out, 'h_main')
