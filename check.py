#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]     decides one property of /repo's current working tree.

For every contract scenario of the property: generate the obligations from /repo's current source, discharge them
with z3; failed obligations are replayed on the real code.  See DESIGN.md."""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def _quiet():
    if getattr(_quiet, 'done', False):
        return
    _quiet.done = True
    sys.unraisablehook = lambda *a: None
    sys.excepthook = lambda *a: None
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)


def _run(s, tier, mode, left, plans, bound, roots=None, slice_s=None, slice_paths=None):
    from pyvc import core, world
    opts = {'max_depth': 3000, 'bound': bound, 'keep_smt': 8 if tier == 'thorough' else 1}
    opts.update(s.opts)
    if tier == 'thorough' and 'thorough_bound' in s.opts:
        opts['bound'] = s.opts['thorough_bound']
    opts['plans'] = plans
    st = core.explore(s.func, world.make_world, mode, left, opts, roots=roots, slice_s=slice_s, slice_paths=slice_paths)
    return {'mode': mode, 'paths': st.paths, 'obligations': {k: list(v) for k, v in st.obligations.items()}, 'solver_s': st.solver_s,
            'solver_calls': st.solver_calls, 'unsupported': st.unsupported, 'bounded': sorted(st.bounded), 'timeout': st.timeout, 'unknown': st.unknown,
            'cuts': st.cuts, 'covers': st.covers, 'functions': sorted(st.functions), 'trivial': st.trivial, 'smt': st.smt,
            'failures': [(l, t, h, soft, tr) for l, t, h, soft, tr in st.failures], 'replan': bool(opts.get('replan')), 'left': st.left}


def merge(a, b):
    for k in ('paths', 'solver_s', 'solver_calls', 'unknown', 'trivial'):
        a[k] += b[k]
    for k, v in b['obligations'].items():
        o = a['obligations'].setdefault(k, [0, 0])
        o[0] += v[0]
        o[1] += v[1]
    for k in ('unsupported', 'cuts', 'covers'):
        for n, v in b[k].items():
            a[k][n] = a[k].get(n, 0) + v if isinstance(v, int) else v
    a['bounded'] = sorted(set(a['bounded']) | set(b['bounded']))
    a['functions'] = sorted(set(a['functions']) | set(b['functions']))
    a['failures'] = (a['failures'] + b['failures'])[:200]
    a['smt'] = (a['smt'] + b['smt'])[:8]
    a['timeout'] = a['timeout'] or b['timeout']
    a['replan'] = a['replan'] or b['replan']


def symbolic(job):
    """One slice of the exploration of one contract; `left` holds the unexplored prefixes."""
    prop, name, tier, budget, roots, t_begin = job
    from pyvc.common import SCENARIOS
    importlib.import_module('specs.' + prop.lower())
    importlib.import_module('specs.histories')
    importlib.import_module('specs.frame')
    s = [x for x in SCENARIOS[prop] if x.name == name][0]
    _quiet()
    out = {'name': name, 'runs': []}
    t0 = time.time()
    bound = 3 if tier == 'quick' else 4
    if roots is not None:
        r = _run(s, tier, 'cut', max(2, budget - (time.time() - t_begin)), {}, bound, roots=roots, slice_s=6)
        out['runs'].append(r)
        out['wall'] = time.time() - t0
        return out
    plans = {}
    r = None
    for attempt in range(6):
        r = _run(s, tier, 'cut', max(5, budget - (time.time() - t0)), plans, bound, slice_paths=30)
        if not r['replan'] or any(not f[3] for f in r['failures']):
            break
    weak = any(f[3] for f in r['failures']) or (r['cuts'] and (r['unsupported'] or r['replan']))
    hard = any(not f[3] for f in r['failures'])
    out['runs'].append(r)
    if weak or (hard and r['cuts']):
        # the loop invariant is not inductive for this source: decide with unrolled loops (bounded), and say so
        r2 = _run(s, tier, 'unroll', max(10, budget - (time.time() - t0)), {}, bound)
        r2['bounded'] = sorted(set(r2['bounded']) | {'loops unrolled: invariant not established for this source'})
        out['runs'].append(r2)
    out['wall'] = time.time() - t0
    return out


def concrete(prop, name, n, seed, budget, hints=None):
    hf = '-'
    tmp = None
    if hints:
        fd, tmp = tempfile.mkstemp(suffix='.json')
        with os.fdopen(fd, 'w') as f:
            json.dump(hints, f, default=str)
        hf = tmp
    scratch = tempfile.mkdtemp(prefix='pyvc_')
    env = dict(os.environ, VERIF_REPO=REPO, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYVC_SCRATCH=scratch)
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'pyvc', 'replay.py'), 'search', prop, name, str(n), str(seed), str(budget), hf],
                           cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 120)
        fail, summary = None, None
        for line in p.stdout.decode('utf-8', 'replace').splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if 'fail' in d:
                fail = d
            if 'summary' in d:
                summary = d['summary']
        if summary is None:
            return None, {'cases': 0, 'crash': p.stderr.decode('utf-8', 'replace')[-1500:]}
        return fail, summary
    except subprocess.TimeoutExpired:
        return None, {'cases': 0, 'crash': 'timeout'}
    finally:
        if tmp:
            os.unlink(tmp)
        subprocess.run(['rm', '-rf', '--', scratch])


def joined(a, b):
    """The results of two parts of one run-time search."""
    if a is None or a[1].get('crash'):
        return b
    if b[1].get('crash'):
        return a
    st = dict(a[1])
    for k, v in b[1].items():
        st[k] = (st[k] + v) if isinstance(v, (int, list)) and k in st else v
    st['samples'] = st.get('samples', [])[:2]
    return a[0] or b[0], st


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from pyvc.common import SCENARIOS
    mod = importlib.import_module('specs.' + prop.lower())
    importlib.import_module('specs.histories')
    importlib.import_module('specs.frame')
    scns = [s for s in SCENARIOS[prop] if not a.only or a.only in s.name]
    from specs.shapes import SHAPES
    shapes = dict(SHAPES.get(prop, {}))
    for s in SCENARIOS[prop]:
        if s.doc.startswith('BOUNDED'):
            shapes.setdefault(s.name, s.doc)
    stale = set(shapes) - {s.name for s in SCENARIOS[prop]}
    if stale:
        raise SystemExit('specs/shapes.py names unknown contracts: %s' % sorted(stale))
    known = json.load(open(os.path.join(HERE, 'known_findings.json'))) if os.path.exists(os.path.join(HERE, 'known_findings.json')) else {'findings': []}
    sym_budget = 100 if tier == 'quick' else 900
    conc_n, conc_budget = (150, 8) if tier == 'quick' else (3000, 120)

    sym, conc = {}, {}
    ctx = mp.get_context('spawn')
    with cf.ProcessPoolExecutor(max_workers=a.jobs, mp_context=ctx) as pool, cf.ThreadPoolExecutor(max_workers=a.jobs) as tp:
        futs = {}
        for s in scns:
            if s.mode in ('both', 'symbolic'):
                futs[pool.submit(symbolic, (prop, s.name, tier, s.opts.get('budget', sym_budget), None, 0))] = ('s', s)
            if s.mode in ('both', 'concrete'):
                n = s.opts.get('cases', conc_n)
                b = s.opts.get('conc_budget', conc_budget)
                if tier == 'thorough':
                    n, b = n * 10, b * 8
                procs = min(s.opts.get('procs', 1), a.jobs)
                for j in range(procs):
                    futs[tp.submit(concrete, prop, s.name, -(-n // procs), seed + 7919 * j, b)] = ('c', s)
        began = {}
        stop = set()
        while futs:
            done, _ = cf.wait(list(futs), return_when=cf.FIRST_COMPLETED)
            for f in done:
                kind, s = futs.pop(f)
                try:
                    res = f.result()
                except Exception as e:
                    if kind == 's':
                        r = sym.setdefault(s.name, {'name': s.name, 'runs': [], 'wall': 0})
                        r['crash'] = '%s: %s' % (type(e).__name__, e)
                    else:
                        conc.setdefault(s.name, (None, {'cases': 0, 'crash': str(e)}))
                    continue
                if kind == 'c':
                    conc[s.name] = joined(conc.get(s.name), res)
                    continue
                if s.name not in sym:
                    sym[s.name] = res
                    began[s.name] = time.time() - res['wall']
                else:
                    merge(sym[s.name]['runs'][-1], res['runs'][0])
                    sym[s.name]['wall'] = time.time() - began[s.name]
                left = res['runs'][-1]['left']
                if any(not x[3] for x in res['runs'][-1]['failures']):
                    stop.add(s.name)
                if left and s.name not in stop:
                    budget = s.opts.get('budget', sym_budget)
                    if time.time() - began[s.name] > budget:
                        sym[s.name]['runs'][-1]['timeout'] = True
                        continue
                    k = min(len(left), a.jobs)
                    for i in range(k):
                        futs[pool.submit(symbolic, (prop, s.name, tier, budget, left[i::k], began[s.name]))] = ('s', s)

    violations = []
    notes = []
    proved = bounded = undecided = 0
    total = disch = solver_calls = unb_total = 0
    by_contract = {}
    solver_s = 0.0
    labels = {}
    funcs = set()
    bounds = []
    unsupported = {}
    conc_total = conc_distinct = conc_checked = 0
    samples = []
    crash = None
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)

    def record(s, what, rec):
        path = os.path.join(HERE, 'evidence', 'replay', '%s-%s.json' % (prop, s.name))
        rec = dict(rec, property=prop, scenario=s.name, contract=s.doc, targets=s.targets, replay_cmd='%s %s file %s' % (PY, os.path.join(HERE, 'pyvc', 'replay.py'), path))
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, default=str)
        violations.append((s, what, path, rec.get('found', False)))

    for s in scns:
        cfail, csum = conc.get(s.name, (None, {}))
        conc_total += csum.get('cases', 0)
        conc_distinct += csum.get('distinct', 0)
        conc_checked += csum.get('checked', 0)
        for x in csum.get('samples', [])[:1]:
            if len(samples) < 6:
                samples.append({'contract': s.name, 'inputs': x})
        if csum.get('crash'):
            crash = 'concrete run of %s: %s' % (s.name, csum['crash'])
        if csum.get('error'):
            notes.append('concrete run of %s: %d harness errors: %s' % (s.name, csum['error'], csum.get('errors')))
        status = None
        hard, smt_fail = [], None
        if s.name in sym:
            r = sym[s.name]
            if r.get('crash'):
                notes.append('symbolic run of %s crashed: %s' % (s.name, r['crash']))
                unsupported['engine crash'] = 1
            final = r['runs'][-1] if r['runs'] else None
            for run in r['runs']:
                solver_s += run['solver_s']
                solver_calls += run['solver_calls']
                funcs.update(run['functions'])
            if final is not None:
                # failures of a cut run count only if the unrolled run confirms them, or if there is no unrolled run
                hard = [f for f in final['failures'] if not f[3]]
                if not hard and len(r['runs']) > 1:
                    first_hard = [f for f in r['runs'][0]['failures'] if not f[3]]
                    hard_hints = first_hard
                else:
                    hard_hints = []
                for k, v in final['obligations'].items():
                    labels.setdefault('%s / %s' % (s.name, k), [0, 0])
                    labels['%s / %s' % (s.name, k)][0] += v[0]
                    labels['%s / %s' % (s.name, k)][1] += v[1]
                    total += v[0]
                    disch += v[1]
                for k in final['unsupported']:
                    unsupported['%s: %s' % (s.name, k)] = final['unsupported'][k]
                for b in final['bounded']:
                    bounds.append('%s: %s' % (s.name, b))
                if hard:
                    status = 'failed'
                elif final['unsupported'] or final['timeout'] or final['unknown']:
                    status = 'undecided'
                    if final['timeout']:
                        unsupported['%s: time limit after %d paths' % (s.name, final['paths'])] = 1
                elif final['bounded']:
                    status = 'bounded'
                elif not final['obligations']:
                    status = 'undecided'
                    unsupported['%s: no obligation generated' % s.name] = 1
                elif s.name in shapes:
                    status = 'bounded'
                    bounds.append('%s: %s' % (s.name, shapes[s.name]))
                else:
                    status = 'proved'
                    unb_total += sum(v[0] for v in final['obligations'].values())
                if not hard and (hard_hints or status == 'undecided') and s.mode == 'both' and not cfail:
                    fail2, sum2 = concrete(prop, s.name, 600 if tier == 'quick' else 6000, seed + 1, 25 if tier == 'quick' else 200, [f[2] for f in hard_hints][:20])
                    conc_total += sum2.get('cases', 0)
                    conc_distinct += sum2.get('distinct', 0)
                    if fail2:
                        cfail = fail2
            else:
                status = 'undecided'
        else:
            status = 'concrete'
            bounds.append('%s: run time only, %d cases; %s' % (s.name, csum.get('cases', 0), s.doc))
        by_contract[s.name] = {'proved': 'proved for all inputs', 'bounded': 'all obligations discharged, up to the stated bound', 'undecided': 'not decided by proof; run-time evaluation only',
                               'concrete': 'bounded stand-in: run-time evaluation only', 'failed': 'FAILED'}[status]
        if hard:
            fail, sm = (cfail, csum) if cfail else (None, None)
            if not fail and s.mode == 'both':
                fail, sm = concrete(prop, s.name, 800, seed + 7, 40, [f[2] for f in hard][:20])
            rec = {'obligation': hard[0][0], 'term': hard[0][1], 'trail': hard[0][4], 'model_inputs': hard[0][2], 'back_end': 'z3 (sat)', 'other_failed_obligations': sorted({f[0] for f in hard})}
            if fail:
                rec.update(found=True, inputs=fail['fail'].get('inputs'), labels=fail['fail'].get('labels'), seed=fail['seed'])
            record(s, hard[0][0], rec)
        elif cfail:
            record(s, ', '.join(cfail['fail'].get('labels', [])), {'found': True, 'inputs': cfail['fail'].get('inputs'), 'labels': cfail['fail'].get('labels'), 'seed': cfail['seed'], 'obligation': 'run-time evaluation of the contract on the real code'})
        if status == 'proved':
            proved += 1
        elif status == 'bounded':
            bounded += 1
        elif status == 'undecided':
            undecided += 1
        if a.v:
            r = sym.get(s.name, {})
            fr = r['runs'][-1] if r.get('runs') else {}
            print('%-44s %-9s paths %-5s obl %-5s wall %.1f  conc %s/%s %s' % (s.name, status, fr.get('paths'), sum(v[0] for v in fr.get('obligations', {}).values()), r.get('wall', 0), csum.get('ok'), csum.get('cases'), 'CFAIL' if cfail else ''))

    # ------------------------------------------------------------------ evidence
    trusted = list(getattr(mod, 'TRUSTED', [])) + [
        'the PyVC transformation and proxies (pyvc/*.py) and CPython executing them',
        'trusted stubs of standard modules in pyvc/stubs.py (threading, time, datetime, json, inspect, logging, queue, atexit)',
        'z3 (cvc5 cross-check of exported obligations in the thorough tier)']
    targets = sorted({t for s in scns for t in s.targets})
    reached = {f.split(':')[0] + ':' + f.split(':')[1] for f in funcs}
    coverage = {
        'obligations': total, 'discharged': disch,
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
        'trusted_base': trusted,
        'back_end': 'z3 %s' % __import__('z3').get_version_string(), 'solver_calls': solver_calls, 'solver_seconds': round(solver_s, 2),
        'obligations_of_unbounded_contracts': unb_total, 'contract_status': by_contract,
        'contracts': len(scns), 'contracts_proved_unbounded': proved, 'contracts_decided_up_to_a_bound': bounded, 'contracts_undecided_bounded_standin_only': undecided,
        'contracts_run_time_only': len([s for s in scns if s.mode == 'concrete']),
        'bounds': sorted(set(bounds)), 'outside_reach': unsupported,
        'functions_under_contract': targets,
        'functions_executed_symbolically': sorted(f for f in reached),
        'obligation_labels': {k: v for k, v in sorted(labels.items())},
        'evaluations': conc_total, 'distinct_nontrivial': conc_distinct,
        'rule': 'run-time evaluation of the same contracts on the real code with seeded random inputs; a case counts if its precondition held, at least one obligation was evaluated and its inputs are new',
        'samples': samples, 'notes': notes,
    }
    if tier == 'thorough':
        coverage['cvc5_cross_check'] = cross_check(sym)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': coverage,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    for k in known['findings']:
        if k.get('property') == prop and k.get('status') != 'fixed':
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if a.v:
        for k, v in unsupported.items():
            print('  outside reach:', k, v)
        for b in sorted(set(bounds)):
            print('  bounded:', b)
        for n in notes:
            print('  note:', n)
    if violations:
        for s, what, path, found in violations:
            print('contract %s: %s' % (s.name, what))
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
        sys.exit(1)
    if crash and not total:
        print('ERROR: %s' % crash)
        sys.exit(2)
    if total == 0 and conc_checked == 0:
        print('ERROR: zero obligations')
        sys.exit(2)
    print('%s: %d contracts, %d proved for all inputs, %d proved up to a stated bound, %d undecided (run time only); %d/%d obligations discharged; %d run-time cases; %.1f s'
          % (prop, len(scns), proved, bounded, undecided, disch, total, conc_total, time.time() - t0))
    sys.exit(0)


def cross_check(sym):
    n = ok = bad = 0
    for r in sym.values():
        for run in r.get('runs', [])[-1:]:
            for label, smt in run.get('smt', []):
                n += 1
                try:
                    p = subprocess.run(['cvc5', '--lang', 'smt2', '--strings-exp', '--tlimit=10000', '-'], input=smt.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
                    o = p.stdout.decode().strip().splitlines()
                    if o and o[-1] == 'unsat':
                        ok += 1
                    elif o and o[-1] == 'sat':
                        bad += 1
                except Exception:
                    pass
    return {'obligations_exported': n, 'cvc5_unsat': ok, 'cvc5_sat': bad}


if __name__ == '__main__':
    main()
