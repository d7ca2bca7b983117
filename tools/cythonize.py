import json
import os
import sys
from concurrent.futures import ProcessPoolExecutor


def one(args):
    f, gen = args
    from Cython.Compiler import Main, Options, Errors
    from Cython.Build.Dependencies import cythonize
    cythonize([f], language_level='2', quiet=True, include_path=['.'], force=True)


if __name__ == '__main__':
    files = json.loads(sys.argv[1])
    gen = json.loads(sys.argv[2])
    sys.path.insert(0, os.getcwd())
    with ProcessPoolExecutor(8) as ex:
        list(ex.map(one, [(f, False) for f in sorted(files, key=lambda f: -os.path.getsize(f))] + [(g, True) for g in gen]))
