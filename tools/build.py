"""Scratch builds of the code under test (never inside /repo)."""
import json
import os
import re
import shutil
import subprocess
import sys
import threading

from tools import layout

CPY = '/opt/venv/bin/python'
PYPY = '/opt/venv-pypy/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))


class BuildError(Exception):
    pass


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e.update(kw)
    return e


def extension_files(repo):
    """the modules setup.py compiles"""
    with open(os.path.join(repo, 'setup.py')) as f:
        s = f.read()
    return sorted(set(re.findall(r'["\'](capnpy/[\w/]+\.pyx?)["\']', s)))


def copy_tree(repo, dst):
    src = os.path.join(repo, 'capnpy')
    shutil.copytree(src, os.path.join(dst, 'capnpy'),
                    ignore=lambda d, names: [n for n in names if n.endswith(('.so', '.pyc', '.o')) or
                                             n in ('testing', 'benchmarks', '__pycache__') or
                                             (n.endswith('.c') and n != '_hash_cpython.c')])


def asan_env():
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
    return {'LD_PRELOAD': os.path.realpath(lib), 'PYTHONMALLOC': 'malloc',
            'ASAN_OPTIONS': 'detect_leaks=0:redzone=2048:max_redzone=2048:allocator_may_return_null=1:abort_on_error=1'}


class Builder(object):
    """compiles the package and the generated .pyx modules in the background"""

    def __init__(self, repo, work, code_dirs):
        self.repo = repo
        self.work = work
        self.src = os.path.join(work, 'src')
        self.gen_dir = os.path.join(work, 'gen')
        self.code_dirs = code_dirs
        self.threads = {}
        self.errors = {}
        self.cythonized = threading.Event()
        self.cyerror = None
        self.procs = []

    def start(self):
        os.makedirs(self.src)
        os.makedirs(self.gen_dir)
        copy_tree(self.repo, self.src)
        for d in self.code_dirs.get('pyx', []):
            for n in os.listdir(d):
                shutil.copy(os.path.join(d, n), self.gen_dir)
        t = threading.Thread(target=self._cythonize, daemon=True)
        t.start()
        self._start_cc(False)

    def _start_cc(self, asan):
        t = threading.Thread(target=self._cc, args=(asan,), daemon=True)
        self.threads[asan] = t
        t.start()

    def _run(self, cmd, **kw):
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), **kw)
        self.procs.append(p)
        out = p.communicate()[0].decode('utf-8', 'replace')
        return p.returncode, out

    def _cythonize(self):
        try:
            files = extension_files(self.repo)
            gen = [os.path.join(self.gen_dir, n) for n in os.listdir(self.gen_dir) if n.endswith('.pyx')]
            rc, out = self._run([CPY, os.path.join(HERE, 'cythonize.py'), json.dumps(files), json.dumps(gen)],
                                cwd=self.src)
            if rc:
                self.cyerror = out[-3000:]
            self.cfiles = [os.path.join(self.src, os.path.splitext(f)[0] + '.c') for f in files]
            self.cfiles += [os.path.splitext(g)[0] + '.c' for g in gen]
        except Exception as e:
            self.cyerror = repr(e)
        self.cythonized.set()

    def _cc(self, asan):
        self.cythonized.wait()
        if self.cyerror:
            self.errors[asan] = self.cyerror
            return
        out = self.src
        if asan:
            out = self.work + '/asan'
            os.makedirs(out)
            copy_tree(self.src, out)
        cmds = []
        for c in self.cfiles:
            if c.startswith(self.src + '/'):
                rel = os.path.relpath(c, self.src)
                so = os.path.join(out, rel[:-2] + '.so')
            else:
                so = c[:-2] + '.so'
                if asan:
                    so = os.path.join(out, os.path.basename(c)[:-2] + '.so')
            inc = '/usr/include/python3.12'
            cmd = ['gcc', '-shared', '-fPIC', '-w', '-fwrapv', '-O0', '-I', pyinc(), '-I', os.path.join(self.src, 'capnpy'),
                   '-I', self.src, c, '-o', so]
            if asan:
                cmd[1:1] = ['-fsanitize=address', '-g']
            cmds.append(cmd)
        sem = threading.Semaphore(8)
        errs = []

        def one(cmd):
            with sem:
                rc, o = self._run(cmd)
                if rc:
                    errs.append(o[-2000:])
        ts = [threading.Thread(target=one, args=(c,)) for c in cmds]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            self.errors[asan] = errs[0]

    def get(self, asan=False):
        if asan not in self.threads:
            self._start_cc(asan)
        self.threads[asan].join()
        if self.errors.get(asan):
            raise BuildError(self.errors[asan])
        return os.path.join(self.work, 'asan') if asan else self.src

    def stop(self):
        for p in self.procs:
            if p.poll() is None:
                try:
                    p.kill()
                except OSError:
                    pass
        for t in self.threads.values():
            t.join(20)


_pyinc = []


def pyinc():
    if not _pyinc:
        _pyinc.append(subprocess.run([CPY, '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])'],
                                     stdout=subprocess.PIPE, env=env()).stdout.decode().strip())
    return _pyinc[0]


def generate(schemas, work, repo):
    """run the real compiler on (name, text) schemas; returns {'pure': [dir], 'pyx': [dir]}"""
    d = os.path.join(work, 'schemas')
    os.makedirs(d, exist_ok=True)
    for name, text in schemas:
        with open(os.path.join(d, name + '.capnp'), 'w') as f:
            f.write(text)
    res = {}
    for mode in ('pure', 'pyx'):
        out = os.path.join(work, 'gen-' + mode)
        os.makedirs(out, exist_ok=True)
        res[mode] = [out]
    p = subprocess.run([PYPY, os.path.join(HERE, 'gen.py'), repo, d, res['pure'][0], res['pyx'][0],
                        json.dumps([n for n, _ in schemas])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=env(), cwd=d)
    if p.returncode:
        raise BuildError(p.stdout.decode('utf-8', 'replace')[-3000:])
    for name, text in schemas:
        fn = os.path.join(d, name + '.capnp')
        lay = layout.layout(fn, [repo, os.path.dirname(fn)])
        req = layout.request(fn, [repo, os.path.dirname(fn)])
        for mode in res:
            with open(os.path.join(res[mode][0], 'layout_%s.py' % name), 'w') as f:
                f.write('LAYOUT = %r\nREQUEST = %r\n' % (lay, req))
    return res
