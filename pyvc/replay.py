"""Concrete runner (executed by /opt/venv/bin/python on the real polog).

  replay.py search  PROP SCENARIO N SEED BUDGET HINTSFILE   -> JSON lines of failures, last line a summary
  replay.py file    REPLAYFILE                               -> re-runs a recorded counterexample
"""
import importlib
import json
import os
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from pyvc.common import SCENARIOS          # noqa: E402
from pyvc.conc import ConcApi, Skip, literals    # noqa: E402


def one(scn, hints, seed, lits, timeout):
    """Runs one case in a forked child; returns dict."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            api = ConcApi(hints, seed, lits)
            res = {'status': 'ok'}
            try:
                scn.func(api)
                if api.failures:
                    res = {'status': 'failed', 'labels': sorted(set(api.failures))}
            except Skip as e:
                res = {'status': 'skip', 'why': str(e)}
            except BaseException as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                inner = tb[-1].filename if tb else ''
                if inner.startswith(os.path.join(os.path.abspath(REPO), 'polog') + os.sep) and os.sep + 'tests' + os.sep not in inner:
                    api.failures.append('a call the contract relies on failed: %s: %s' % (type(e).__name__, str(e)[:200]))
                res = {'status': 'error', 'why': '%s: %s' % (type(e).__name__, str(e)[:300]), 'tb': traceback.format_exc()[-1500:]}
            if api.failures and res['status'] != 'skip':
                res = {'status': 'failed', 'labels': sorted(set(api.failures))}
            res['inputs'] = api.used
            res['checked'] = api.checked
            data = json.dumps(res, default=str).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        finally:
            try:
                if api.data.get('fs') is not None:
                    api.data['fs'].remove_all()
            finally:
                os._exit(code)
    os.close(w)
    buf = b''
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {'status': 'hang', 'labels': ['the case does not terminate'], 'inputs': dict(hints or {}), 'checked': 0}
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            chunk = os.read(r, 65536)
            if not chunk:
                break
            buf += chunk
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        return {'status': 'error', 'why': 'child died', 'inputs': {}, 'checked': 0}
    return json.loads(buf)


def find(prop, name):
    importlib.import_module('specs.' + prop.lower())
    importlib.import_module('specs.histories')
    importlib.import_module('specs.frame')
    for s in SCENARIOS[prop]:
        if s.name == name:
            return s
    raise SystemExit('no such scenario')


def main():
    mode = sys.argv[1]
    if mode == 'file':
        rec = json.load(open(sys.argv[2]))
        import polog  # noqa: F401
        s = find(rec['property'], rec['scenario'])
        res = one(s, rec.get('inputs') or {}, rec.get('seed', 0), literals(REPO), 60)
        print(json.dumps(res, indent=1, default=str))
        sys.exit(1 if res['status'] in ('failed', 'hang') else 0)
    prop, name, n, seed, budget, hintsfile = sys.argv[2:8]
    n, seed, budget = int(n), int(seed), float(budget)
    import polog
    if not os.path.abspath(polog.__file__).startswith(os.path.abspath(REPO)):
        raise SystemExit('polog imported from %s' % polog.__file__)
    s = find(prop, name)
    lits = literals(REPO)
    hints = json.load(open(hintsfile)) if hintsfile != '-' else []
    t0 = time.time()
    stats = {'cases': 0, 'ok': 0, 'skip': 0, 'failed': 0, 'error': 0, 'hang': 0, 'checked': 0}
    distinct = set()
    samples = []
    todo = [(h, seed) for h in hints]
    # a hint with part of it forgotten is also tried
    k = 0
    import random
    rng = random.Random(seed)
    errors = []
    timeout = float(s.opts.get('case_timeout', 20))
    while time.time() - t0 < budget and stats['cases'] < n + len(todo):
        if k < len(todo):
            h, sd = todo[k]
        elif hints and rng.random() < 0.5:
            h = {a: b for a, b in rng.choice(hints).items() if rng.random() < 0.7}
            sd = seed * 1000003 + k
        else:
            h, sd = {}, seed * 1000003 + k
        k += 1
        res = one(s, h, sd, lits, timeout)
        stats['cases'] += 1
        stats[res['status']] += 1
        stats['checked'] += res.get('checked', 0)
        if res['status'] == 'ok' and res.get('checked'):
            key = json.dumps(res['inputs'], sort_keys=True, default=str)
            if key not in distinct:
                distinct.add(key)
                if len(samples) < 2:
                    samples.append(res['inputs'])
        if res['status'] in ('failed', 'hang'):
            print(json.dumps({'fail': res, 'seed': sd}, default=str))
            break
        if res['status'] == 'error':
            errors.append(res)
            if len(errors) > 20:
                break
    stats['distinct'] = len(distinct)
    stats['samples'] = samples
    stats['errors'] = errors[:2]
    print(json.dumps({'summary': stats}, default=str))


if __name__ == '__main__':
    main()
