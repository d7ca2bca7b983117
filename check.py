#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree.

exit 0: held on everything explored (bounds in the evidence file)
exit 1: VIOLATION, with a replayed counterexample
exit 2: inconclusive (something could not be encoded, a solver or time limit was hit, or a counterexample
        did not reproduce on the real implementation)
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CAPNPY_REPO', '/repo')
VTPY = '/opt/veriftools/pyvenv/bin/python'
PYPY = '/opt/venv-pypy/bin/python'
CPY = '/opt/venv/bin/python'
sys.path.insert(0, VERIF)

from tools import build  # noqa


def load_known():
    fn = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(fn):
        with open(fn) as f:
            return json.load(f)
    return {'known': [], 'fixed': []}


def clean_env(**kw):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON') and k != 'LD_PRELOAD'}
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['CAPNPY_REPO'] = REPO
    env.update(kw)
    return env


class Runner(object):

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.spec = importlib.import_module('checks.' + prop.lower())
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='vsym-')
        self.budget = getattr(self.spec, 'BUDGET', {}).get(tier, 700 if tier == 'quick' else 7200)
        self.builder = None
        self.results = []
        self.traces_ok = 0
        self.notes = []

    # -- symbolic phase -----------------------------------------------------
    def run_symbolic(self, tasks, code_dirs):
        jobs = int(os.environ.get('VSYM_JOBS', os.cpu_count() or 4))
        r, w = os.pipe()
        os.set_inheritable(r, True)
        os.set_inheritable(w, True)
        os.set_blocking(r, False)
        os.write(w, b'x' * jobs)
        procs = []
        for mode in ('pyx', 'pure'):
            ts = []
            for t in tasks:
                if mode in t.get('modes', ('pure', 'pyx')):
                    ts.append({k: v for k, v in t.items() if k != 'modes'})
            if not ts:
                continue
            jobf = os.path.join(self.work, 'job-%s.json' % mode)
            out = os.path.join(self.work, 'res-%s.json' % mode)
            with open(jobf, 'w') as f:
                json.dump({'mode': mode, 'tokens': [r, w], 'deadline': self.t0 + self.budget, 'out': out,
                           'tasks': ts, 'code_dirs': code_dirs.get(mode, []),
                           'preload': getattr(self.spec, 'PRELOAD', [])}, f)
            p = subprocess.Popen([VTPY, '-m', 'symex.worker', jobf], cwd=VERIF, pass_fds=(r, w),
                                 env=clean_env(PYTHONPATH=VERIF))
            procs.append((mode, ts, p, out))
        for mode, ts, p, out in procs:
            p.wait()
            try:
                with open(out) as f:
                    self.results.extend(json.load(f))
            except (OSError, ValueError):
                self.results.extend([{'task': t, 'mode': mode, 'status': 'inconclusive',
                                      'msg': 'symbolic worker failed (exit %s)' % p.returncode} for t in ts])
        os.close(r)
        os.close(w)

    def really(self, rr):
        return 'ImportError' not in rr.get('msg', '') and 'ModuleNotFoundError' not in rr.get('msg', '')

    # -- concrete phase ------------------------------------------------------
    def replay(self, mode, items, asan=False, timeout=240):
        """items: dicts with task, inputs; returns list of results (None = crashed there)"""
        if not items:
            return []
        for n, it in enumerate(items):
            it['n'] = n
        res = [None] * len(items)
        start = 0
        crash = {}
        while start < len(items):
            fd, bf = tempfile.mkstemp(prefix='batch-', suffix='.json', dir=self.work)
            os.close(fd)
            of = bf[:-5] + '.out'
            path = [VERIF]
            env = clean_env()
            if mode == 'pyx':
                d = self.builder.get(asan)
                path += [d] + self.code_dirs.get('pyx_so', [])
                env['CAPNPY_REPO'] = d
                py = CPY
                if asan:
                    env.update(build.asan_env())
            else:
                path += [REPO] + self.code_dirs.get('pure', [])
                py = PYPY
            with open(bf, 'w') as f:
                json.dump({'mode': mode, 'path': path, 'items': items[start:]}, f)
            errf = open(of + '.err', 'w+')
            try:
                p = subprocess.run([py, os.path.join(VERIF, 'symex', 'replay.py'), bf, of], env=env,
                                   cwd=self.work, stdout=errf, stderr=errf, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            errf.seek(0)
            err = errf.read()
            errf.close()
            last = None
            done = start
            if os.path.exists(of):
                for line in open(of):
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if 'begin' in d:
                        last = d['begin']
                    else:
                        res[d['n']] = d
                        done = d['n'] + 1
                        last = None
            if rc == 0 and done == len(items):
                break
            if last is None:
                self.notes.append('replay (%s) failed: rc=%s %s' % (mode, rc, err[-1500:]))
                break
            res[last] = {'status': 'crash', 'msg': 'process died (%s)' % rc, 'err': err[-4000:], 'outs': []}
            start = last + 1
        return res

    def run(self):
        try:
            return self._run()
        finally:
            if self.builder is not None:
                self.builder.stop()
            if not os.environ.get('VSYM_KEEP'):
                shutil.rmtree(self.work, ignore_errors=True)

    def _run(self):
        tasks = self.spec.tasks(self.tier)
        only = os.environ.get('VSYM_ONLY')
        if only:
            tasks = [t for t in tasks if only in t['func']]
        modes = os.environ.get('VSYM_MODES')
        if not modes and not os.path.exists(os.path.join(VERIF, 'symex', 'cyx.py')):
            modes = 'pure'
        if modes:
            for t in tasks:
                t['modes'] = [m for m in t.get('modes', ('pure', 'pyx')) if m in modes.split(',')]
        kn = load_known()
        self.known_ids = {k['id'] for k in kn['known']}
        for t in tasks:
            t['known'] = sorted(self.known_ids)
        need_pyx = any('pyx' in t.get('modes', ('pure', 'pyx')) for t in tasks)
        schemas = getattr(self.spec, 'SCHEMAS', [])
        if schemas and callable(schemas):
            schemas = schemas(self.tier)
        self.code_dirs = {}
        try:
            if schemas:
                self.code_dirs = build.generate(schemas, self.work, REPO)
        except build.BuildError as e:
            return self.finish('inconclusive', 'cannot generate code from the schemas: %s' % e)
        if need_pyx:
            self.builder = build.Builder(REPO, os.path.join(self.work, 'b'), self.code_dirs)
            self.builder.start()
            if schemas:
                self.code_dirs['pyx_so'] = [self.builder.gen_dir]
        self.run_symbolic(tasks, self.code_dirs)
        if os.environ.get('VSYM_VERBOSE'):
            for r in self.results:
                print(r['mode'], r['task']['func'], r['task'].get('params'), r['status'], r.get('msg', ''),
                      'paths=%s q=%s st=%s wall=%s rss=%s' % (r.get('paths'), r.get('queries'), r.get('solver_time'),
                                                       r.get('wall'), r.get('maxrss')))
                if r['status'] != 'ok':
                    print(r.get('trace', '')[-int(os.environ.get('VSYM_TRACE', '2500')):])
                    print(r.get('inputs'))
        # validate the encoding: every sampled path is run on the real implementation
        bad = []
        incon = [r for r in self.results if r['status'] == 'inconclusive']
        viols = [r for r in self.results if r['status'] == 'violation']
        confirmed = []
        try:
            for mode in ('pure', 'pyx'):
                items = []
                for r in self.results:
                    if r['mode'] != mode or r['status'] != 'ok':
                        continue
                    if r['task'].get('noreplay'):
                        continue
                    for s in r.get('samples', ()):
                        items.append({'task': r['task'], 'inputs': s['inputs'], 'outs': s['outs']})
                res = self.replay(mode, items)
                for it, rr in zip(items, res):
                    if rr is None:
                        bad.append((mode, it, {'status': 'not run', 'msg': '; '.join(self.notes)[-1500:]}))
                    elif rr['status'] != 'ok':
                        if rr['status'] in ('failed', 'crash') and self.really(rr):
                            # a concrete execution of the real code which breaks the property
                            confirmed.append({'mode': mode, 'task': it['task'], 'inputs': it['inputs'],
                                              'msg': rr['msg'], 'replay': rr})
                        bad.append((mode, it, rr))
                    elif rr['outs'] != it['outs']:
                        bad.append((mode, it, {'status': 'mismatch', 'msg': 'real %r, encoding %r' %
                                               (rr['outs'], it['outs'])}))
                    else:
                        self.traces_ok += 1
            unrep = []
            for mode in ('pure', 'pyx'):
                vs = [r for r in viols if r['mode'] == mode]
                left = []
                for asan in (False, True):
                    rrs = self.replay(mode, [{'task': r['task'], 'inputs': r['inputs']} for r in vs], asan=asan)
                    left = []
                    for r, rr in zip(vs, rrs):
                        if rr is not None and rr['status'] in ('failed', 'crash'):
                            confirmed.append({'mode': mode, 'task': r['task'], 'inputs': r['inputs'],
                                              'msg': r['msg'], 'replay': rr, 'trace': r.get('trace')})
                        else:
                            r['replay'] = rr
                            left.append(r)
                    # memory errors show up only under the address sanitizer
                    vs = [r for r in left if r.get('memory')] if mode == 'pyx' and not asan else []
                    unrep += [r for r in left if r not in vs]
        except build.BuildError as e:
            return self.finish('inconclusive', 'cannot build the compiled implementation: %s' % e)
        if confirmed:
            return self.finish('violation', confirmed=confirmed)
        if unrep:
            r = unrep[0]
            return self.finish('inconclusive', 'counterexample did not reproduce on the real code (%s %s %s): %s '
                               'inputs=%s replay=%s\n%s' % (r['mode'], r['task']['func'], r['task'].get('params'), r['msg'],
                                                        str(r['inputs'])[:1500], r['replay'], r.get('trace')))
        if incon:
            return self.finish('inconclusive', '\n'.join(
                '%s %s %s: %s\n%s' % (r['mode'], r['task']['func'], r['task'].get('params'), r['msg'],
                                      r.get('trace', '')[-1500:]) for r in incon[:5]))
        if bad:
            mode, it, rr = bad[0]
            return self.finish('inconclusive', '%d sampled paths behave differently on the real code; first: %s %s %s '
                               'inputs=%s: %s' % (len(bad), mode, it['task']['func'], it['task'].get('params'),
                                                  str(it['inputs'])[:1500], rr))
        return self.finish('ok')

    def finish(self, status, msg='', confirmed=()):
        wall = time.time() - self.t0
        rs = self.results
        tot = lambda k: sum(r.get(k) or 0 for r in rs)
        known_hits = sorted({k for r in rs for k in (r.get('reached') or {}) if k.startswith('KNOWN:')})
        funcs = sorted({f for r in rs for f in r.get('funcs', ())})
        samples = []
        for r in rs[:400]:
            for s in (r.get('samples') or ())[:1]:
                samples.append({'mode': r['mode'], 'harness': r['task']['func'], 'params': r['task'].get('params'),
                                'inputs': _short(s['inputs']), 'outcome': _short(s['outs'])})
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': getattr(self.spec, 'LEVEL', 'model_checking'), 'wall_s': round(wall, 2),
            'coverage': {
                'states': tot('paths'), 'transitions': tot('decisions'),
                'traces_validated_against_impl': self.traces_ok, 'samples': samples[:12],
                'queries_discharged': tot('queries'), 'assertions': tot('asserts'),
                'solver_time_s': round(tot('solver_time'), 2), 'infeasible_paths': tot('infeasible'),
                'functions_encoded': funcs,
                'tasks': [{'mode': r['mode'], 'harness': r['task']['func'], 'params': r['task'].get('params'),
                           'status': r['status'], 'paths': r.get('paths'), 'queries': r.get('queries'),
                           'reached': r.get('reached')} for r in rs],
                'bounds': getattr(self.spec, 'BOUNDS', ''),
                'outside': getattr(self.spec, 'OUTSIDE', ''),
                'meaning': 'states = feasible paths explored exhaustively within the bounds; transitions = branch '
                           'decisions settled by z3; traces_validated_against_impl = solver models of explored paths '
                           're-run on the real PyPy / compiled implementation with identical outcome',
            },
            'assumptions': getattr(self.spec, 'ASSUMPTIONS', []),
            'result': status, 'message': msg[:4000],
        }
        rc = 0
        if status == 'violation':
            rc = 1
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            ev['violations'] = []
            seen = set()
            for n, c in enumerate(confirmed):
                fn = os.path.join(d, '%s-%d.json' % (self.prop, n))
                with open(fn, 'w') as f:
                    json.dump(c, f, indent=1)
                ev['violations'].append({'replay': fn, 'message': c['msg']})
                if n < 5:
                    print('%s: %s %s %s: %s' % (self.prop, c['mode'], c['task']['func'], c['task'].get('params'), c['msg']))
                    print('  inputs: %s' % str(c['inputs'])[:1000])
                    print('  replay: %s %s' % (c['replay'].get('status'), str(c['replay'].get('msg'))[:300]))
                    if c['mode'] not in seen:
                        print('VIOLATION property=%s replay=%s' % (self.prop, fn))
                        seen.add(c['mode'])
        elif status == 'inconclusive':
            rc = 2
            print('%s: INCONCLUSIVE\n%s' % (self.prop, msg))
        kn = load_known()
        for k in kn['known']:
            if 'KNOWN:' + k['id'] in known_hits and k['property'] == self.prop:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %s  paths=%d queries=%d solver=%.1fs replayed=%d functions=%d wall=%.1fs' % (
            self.prop, {'ok': 'HELD', 'violation': 'VIOLATED', 'inconclusive': 'INCONCLUSIVE'}[status], tot('paths'),
            tot('queries'), tot('solver_time'), self.traces_ok, len(funcs), wall))
        return rc


def _short(x):
    s = json.dumps(x)
    return x if len(s) < 600 else s[:600] + '...'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    sys.exit(Runner(a.prop, a.tier).run())


if __name__ == '__main__':
    main()
