"""Runs a list of tasks (harness, parameters) symbolically, one forked child per task."""
import gc
import importlib
import json
import os
import resource
import select
import sys
import time
import traceback


def run_task(task, mode, deadline):
    """in the child: explore, return a JSON-able result"""
    from symex import core, ctx as ctxmod, loader
    t0 = time.time()
    funcs = set()
    mon = sys.monitoring
    mon.use_tool_id(3, 'symex')

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(loader.REPO) or fn.startswith('cyx:') or fn.startswith('gen:'):
            funcs.add((fn, code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)

    mod = importlib.import_module('harness.' + task['module'])
    fn = getattr(mod, task['func'])
    lim = task.get('time', 300)
    eng = core.Engine(name=task['func'], max_paths=task.get('max_paths', 100000),
                      timeout_ms=task.get('query_ms', 60000), deadline=min(deadline, t0 + lim),
                      logic=task.get('logic', 'QF_BV'))
    eng.want_samples = task.get('samples', 3)
    res = {'task': task, 'mode': mode}
    params = task.get('params', {})

    def once():
        c = ctxmod.SymCtx(eng, mode, params, task.get('known', ()))
        try:
            fn(c, **params)
        except Exception as e:
            tb = traceback.format_exc()
            msg = 'unexpected exception %s: %s' % (type(e).__name__, safe(e))
            eng.last_tb = tb
            eng._fail(msg)
    try:
        eng.explore(once)
        res['status'] = 'ok'
    except core.Violation as v:
        res['status'] = 'violation'
        res['msg'] = v.msg
        res['memory'] = isinstance(v, _memv()) or v.msg.startswith('memory:')
        res['inputs'] = v.model
        res['trace'] = getattr(eng, 'last_tb', None) or ''.join(traceback.format_tb(v.__traceback__)[-12:])
    except (core.Unsupported, core.Inconclusive) as e:
        res['status'] = 'inconclusive'
        res['msg'] = '%s: %s' % (type(e).__name__, e)
        res['trace'] = ''.join(traceback.format_tb(e.__traceback__)[-12:])
    except RecursionError as e:
        res['status'] = 'inconclusive'
        res['msg'] = 'RecursionError in the engine'
        res['trace'] = ''.join(traceback.format_tb(e.__traceback__)[-12:])
    except BaseException as e:
        res['status'] = 'inconclusive'
        res['msg'] = 'engine error: %r' % (e,)
        res['trace'] = traceback.format_exc()[-3000:]
    missing = [r for r in task.get('reach', ()) if r not in eng.reached]
    if res['status'] == 'ok' and missing:
        res['status'] = 'inconclusive'
        res['msg'] = 'vacuous: never reached %s' % missing
    if res['status'] == 'ok' and eng.paths == 0:
        res['status'] = 'inconclusive'
        res['msg'] = 'vacuous: no feasible path'
    if res['status'] == 'ok' and eng.asserts == 0:
        res['status'] = 'inconclusive'
        res['msg'] = 'vacuous: no assertion'
    res.update(paths=eng.paths, decisions=eng.decisions, queries=eng.queries, asserts=eng.asserts,
               solver_time=round(eng.solver_time, 3), wall=round(time.time() - t0, 3),
               samples=eng.samples, reached=eng.reached, infeasible=eng.infeasible,
               funcs=sorted('%s:%s' % f for f in funcs),
               maxrss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024)
    return res


def _memv():
    from symex import data
    return data.MemViolation


def safe(e):
    try:
        return str(e)[:300]
    except BaseException:
        return '?'


def main():
    job = json.load(open(sys.argv[1]))
    tok_r, tok_w = job['tokens']
    mode = job['mode']
    deadline = job['deadline']
    out = job['out']
    from symex import loader
    loader.setup('cyx' if mode == 'pyx' else 'pure', job.get('code_dirs', ()))
    t0 = time.time()
    try:
        import capnpy  # noqa
        for m in job.get('preload', ()):
            importlib.import_module(m)
    except BaseException:
        err = traceback.format_exc()
        with open(out, 'w') as f:
            json.dump([{'task': t, 'mode': mode, 'status': 'inconclusive',
                        'msg': 'cannot load the code under test: ' + err.strip().splitlines()[-1],
                        'trace': err[-3000:]} for t in job['tasks']], f)
        return
    load_time = time.time() - t0
    gc.collect()
    gc.freeze()
    results = []
    running = {}
    queue = list(enumerate(job['tasks']))

    def reap(block):
        while running:
            rl, _, _ = select.select(list(running), [], [], 0.2 if block else 0)
            if not rl:
                if not block:
                    return
                continue
            for fd in rl:
                data = os.read(fd, 1 << 20)
                if data:
                    running[fd][2].append(data)
                    continue
                pid, task, chunks = running.pop(fd)
                os.close(fd)
                _, st = os.waitpid(pid, 0)
                os.write(tok_w, b'x')
                try:
                    r = json.loads(b''.join(chunks))
                except ValueError:
                    r = {'task': task, 'mode': mode, 'status': 'inconclusive',
                         'msg': 'worker died (status %d)' % st}
                r['load_time'] = load_time
                results.append(r)
            return

    for n, task in queue:
        while True:
            fds = [tok_r] + list(running)
            rl, _, _ = select.select(fds, [], [], 1.0)
            if tok_r in rl:
                try:
                    if os.read(tok_r, 1):
                        break
                except BlockingIOError:
                    pass
            reap(False)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                res = run_task(task, mode, deadline)
                blob = json.dumps(res).encode()
            except BaseException:
                blob = json.dumps({'task': task, 'mode': mode, 'status': 'inconclusive',
                                   'msg': 'worker error', 'trace': traceback.format_exc()[-3000:]}).encode()
            while blob:
                k = os.write(w, blob)
                blob = blob[k:]
            os._exit(0)
        os.close(w)
        running[r] = (pid, task, [])
        reap(False)
    while running:
        reap(True)
    with open(out, 'w') as f:
        json.dump(results, f)


if __name__ == '__main__':
    main()
