#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] : decide one property.

exit 0  every obligation discharged by the solver (known findings excepted); harnesses that the encoding cannot decide
        (at most half of them, none on the unchanged tree) are printed as NOT DECIDED
exit 1  a counterexample was found by the solver and reproduced on the real code
exit 2  error / no answer
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import math
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.path.realpath(sys.executable) != os.path.realpath(PY) or not os.environ.get('VERIF_REEXEC'):
    if os.path.exists(PY):
        os.environ['VERIF_REEXEC'] = '1'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.execv(PY, [PY, '-B', os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop]


def matches(kf, harness, name):
    return any(harness == s['harness'] and (name == s['check'] or name.startswith(s['check'] + '[')) for s in kf['sites'])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop
    budget = 800 if a.tier == 'quick' else 3300
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        rc = run(a, prop, seed, budget, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def sub(cmd, env, timeout, stop=None):
    p = subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    end = time.time() + timeout
    while True:
        try:
            so, se = p.communicate(timeout=1. if stop is not None else timeout)
            return p.returncode, so, se
        except subprocess.TimeoutExpired:
            if time.time() < end and not (stop is not None and stop.is_set()):
                continue
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.communicate()
            return 'stopped' if stop is not None and stop.is_set() else 'timeout', '', ''


def run(a, prop, seed, budget, scratch, t0):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', NUMBA_CACHE_DIR=os.path.join(scratch, 'numba'), MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
               VERIF_SEED=str(seed), TMPDIR=scratch, PYTHONHASHSEED='0', OMP_NUM_THREADS='1')
    env.pop('VERIF_REEXEC', None)
    worker = [PY, '-B', '-m', 'symx.worker']
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    pm = importlib.import_module('props.' + prop.lower())
    hs = [h for h in pm.HARNESSES if a.tier == 'thorough' or h.tier == 'quick']
    if a.only:
        hs = [h for h in hs if h.name == a.only or h.name.startswith(a.only)]
    hs = sorted(hs, key=lambda h: -h.weight)
    errors = []
    results = {}
    stop = threading.Event()
    kfs = known_findings(prop)

    def one(h):
        if stop.is_set():
            return h, None, 'harness %s: not run, a violation was found before' % h.name
        out = os.path.join(scratch, 'r_%s.json' % h.name)
        left = budget - (time.time() - t0) - 60
        lim = min(h.timeout or (float(os.environ.get("VERIF_CAP", 500)) if a.tier == 'quick' else 2400), max(left, 5))
        e = dict(env, VERIF_HARNESS_S=str(max(5, lim - 30)))
        rc, so, se = sub(worker + ['sym', prop, h.name, a.tier, out], e, lim, stop)
        if rc != 'stopped' and os.path.exists(out):
            r = json.load(open(out))
            early(h, r)
            return h, r, None
        if stop.is_set():
            return h, None, 'harness %s: stopped, a violation was found' % h.name
        return h, None, 'harness %s: worker ended with %s\n%s' % (h.name, rc, se[-3000:])

    def hit_of(h, f, r):
        if r['status'] == 'raised' and (f['kind'] == 'exception' or h.exc == 'violation' or h.div == 'check'):
            return 'raised ' + r['error'].split('\n')[0]
        if r['failed']:
            return '; '.join('%s: %s' % tuple(x) for x in r['failed'][:4])
        return None

    def early(h, r):
        """a confirmed violation ends the run: the verdict cannot change any more"""
        js = [(f, m) for f in r['failures'] for m in f['models'] if not any(matches(k, h.name, f['name']) for k in kfs)][:12]
        if not js or stop.is_set():
            return
        jf, of = os.path.join(scratch, 'early_%s.json' % h.name), os.path.join(scratch, 'earlyrep_%s.json' % h.name)
        json.dump([dict(harness=h.name, inputs=m) for f, m in js], open(jf, 'w'))
        sub(worker + ['con', prop, jf, of], env, 200, stop)
        if os.path.exists(of):
            for (f, m), x in zip(js, json.load(open(of))):
                if x and hit_of(h, f, x):
                    stop.set()

    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for h, r, err in ex.map(one, hs):
            if err:
                errors.append(err)
            else:
                results[h.name] = r
                if a.v:
                    print('%-36s paths=%d ok=%d obl=%d/%d fail=%d inc=%d q=%d %.1fs %s' % (
                        h.name, r['paths'], r['okpaths'], r['stats']['discharged'], r['stats']['obligations'],
                        len(r['failures']), len(r['inconclusive']), r['stats']['queries'], r['wall_s'],
                        {k: [v[0], round(v[1], 1)] for k, v in r['stats']['by'].items()}), flush=True)

    # ---- replay on the real code
    jobs, meta = [], []
    for n, r in results.items():
        for f in r['failures']:
            for m in f['models']:
                jobs.append(dict(harness=n, inputs=m))
                meta.append(('fail', n, f))
            jobs.append(dict(harness=n, random=60, choices=f['choices']))
            meta.append(('probe', n, f))
        for s in r['samples']:
            jobs.append(dict(harness=n, inputs=s['inputs']))
            meta.append(('sample', n, s))
        if not r['samples'] and r['okpaths']:
            jobs.append(dict(harness=n, random=200, want_ok=1))
            meta.append(('witness', n, None))
    reps = []
    if jobs:
        chunks = [list(range(i, len(jobs), a.jobs)) for i in range(min(a.jobs, len(jobs)))]

        def rep(ix):
            jf = os.path.join(scratch, 'jobs_%d.json' % ix[0])
            of = os.path.join(scratch, 'rep_%d.json' % ix[0])
            json.dump([jobs[i] for i in ix], open(jf, 'w'))
            rc, so, se = sub(worker + ['con', prop, jf, of], env, 400)
            if not os.path.exists(of):
                return ix, None, 'replay worker ended with %s\n%s' % (rc, se[-3000:])
            return ix, json.load(open(of)), None
        reps = [None] * len(jobs)
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            for ix, rr, err in ex.map(rep, chunks):
                if err:
                    errors.append(err)
                else:
                    for i, x in zip(ix, rr):
                        reps[i] = x
    hmap = {h.name: h for h in hs}
    confirmed = {}
    validated, witness = 0, {}
    mismatches = []
    for j, (kind, n, obj), r in zip(jobs, meta, reps or []):
        if r is None:
            continue
        if kind in ('fail', 'probe'):
            hit = hit_of(hmap[n], obj, r)
            if hit:
                cands = [x[0] for x in r['failed']] or [obj['name']]
                confirmed.setdefault((n, obj['name']), dict(harness=n, check=obj['name'], inputs=r['inputs'], shows=hit,
                                                            failed=cands, by='solver model' if kind == 'fail' else
                                                            'concrete probe after the solver could not discharge the obligation'))
        elif kind == 'sample':
            if r['status'] == 'ok':
                bad = []
                for k, v in obj['obs'].items():
                    c = r['obs'].get(k)
                    if v is None or c is None:
                        continue
                    if not (abs(v - c) <= 1e-6 * (1 + max(abs(v), abs(c)))) and not (math.isnan(v) or math.isnan(c)):
                        bad.append('%s: encoding %r, code %r' % (k, v, c))
                if bad:
                    mismatches.append((n, bad[:3], r['inputs']))
                else:
                    validated += 1
                    witness[n] = witness.get(n, 0) + 1
        elif kind == 'witness' and r['status'] == 'ok':
            witness[n] = witness.get(n, 0) + 1
    # a model whose replay left the symbolic path (float rounding at a branch) still shows reachability
    for n, r in results.items():
        if r['okpaths'] == 0 and not r['failures']:
            errors.append('harness %s: no path reaches its assertions (vacuous)' % n)
        elif n not in witness and not r['failures']:
            errors.append('harness %s: no reachability witness' % n)
    for n, bad, inp in mismatches:
        errors.append('harness %s: encoding and code disagree: %s at %s' % (n, bad, inp))

    # ---- verdict
    printed, viol = set(), []
    unresolved = []
    for n, r in results.items():
        for x in r['inconclusive']:
            errors.append('harness %s: %s' % (n, x))
        for f in r['failures']:
            c = confirmed.get((n, f['name']))
            kf = next((k for k in kfs if matches(k, n, f['name'])), None)
            if kf:
                if c and all(any(matches(k, n, x) for k in kfs) for x in c['failed'] if x):
                    if kf['id'] not in printed:
                        printed.add(kf['id'])
                        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
                    continue
                if c:
                    viol.append(c)
                    continue
                # listed but not reproduced: stays unresolved
            if c:
                viol.append(c)
            else:
                unresolved.append('harness %s: obligation %s not discharged (%s), no counterexample reproduced%s' % (
                    n, f['name'], 'solver says sat' if f['sat'] else 'solver gave up', ('\n' + f['exc'][-1500:]) if f['exc'] else ''))
    stats = dict(obligations=0, discharged=0, trivial=0, queries=0, solver_s=0.0)
    by, funcs = {}, set()
    paths = dec = fq = 0
    for r in results.values():
        for k in stats:
            stats[k] += r['stats'][k]
        for k, v in r['stats']['by'].items():
            b = by.setdefault(k, [0, 0.0])
            b[0] += v[0]
            b[1] += v[1]
        funcs |= set(r['functions'])
        paths += r['paths']
        dec += r['decisions']
        fq += r['feas_queries']
        stats['solver_s'] += r['feas_s']
    wall = time.time() - t0
    ev = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking',
              wall_s=round(wall, 2), violations=len(viol),
              assumptions=list(getattr(pm, 'ASSUMPTIONS', [])) + [
                  'exact real arithmetic: IEEE rounding, overflow and NaN are outside the encoding',
                  'numba is transparent: the Python bodies of the kernels are what is encoded',
                  'divisors that the harness does not check are assumed non-zero'],
              coverage=dict(states=paths, transitions=dec, traces_validated_against_impl=validated,
                            samples=[dict(harness=n, inputs=r['samples'][0]['inputs'], observed=r['samples'][0]['obs'])
                                     for n, r in results.items() if r['samples']][:3] or [dict(note='no sample')],
                            explanation='states = symbolic paths executed to the end or cut; transitions = symbolic decisions taken; '
                                        'traces = solver models of a path replayed on the unmodified code with equal observed values',
                            obligations=stats['obligations'], discharged=stats['discharged'], discharged_syntactically=stats['trivial'],
                            solver_queries=stats['queries'] + fq, path_feasibility_queries=fq, solver_seconds=round(stats['solver_s'], 2),
                            by_solver={k: dict(queries=v[0], seconds=round(v[1], 2)) for k, v in by.items()},
                            functions_encoded=sorted(funcs), bounds={n: r['bounds'] for n, r in results.items()},
                            harnesses=[dict(name=n, paths=r['paths'], reached=r['okpaths'], obligations=r['stats']['obligations'],
                                            discharged=r['stats']['discharged'], witnesses=witness.get(n, 0), wall_s=round(r['wall_s'], 2))
                                       for n, r in results.items()],
                            counterexamples_replayed=len(confirmed), unresolved=unresolved + errors,
                            known_findings=sorted(printed)))
    if not a.only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    if viol:
        rp = os.path.join(HERE, 'evidence', 'replay_%s.json' % prop)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(dict(property=prop, how='python3 check.py --replay: run props.%s harness concretely on these inputs' % prop.lower(),
                       violations=viol), open(rp, 'w'), indent=1)
        for c in viol[:6]:
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            print('  harness %s, obligation %s: %s' % (c['harness'], c['check'], c['shows'][:600]))
            print('  inputs %s' % json.dumps(c["inputs"])[:400])
        for e in unresolved + errors:
            print('note: ' + e)
        return 1
    print('%s: %d/%d obligations discharged, %d paths, %d queries, solver %.1fs, %d traces validated, wall %.1fs' % (
        prop, stats['discharged'], stats['obligations'], paths, stats['queries'] + fq, stats['solver_s'], validated, wall))
    if unresolved or errors:
        for e in unresolved + errors:
            print('NOT DECIDED: ' + e)
        # what was explored held; with less than half of the harnesses decided the run is no answer
        bad = {e.split()[1].rstrip(':') for e in unresolved + errors if e.startswith('harness ')}
        return 0 if 2 * len(bad) <= len(hs) and len(bad) < len(hs) and all(e.startswith('harness ') for e in errors) else 2
    return 0


if __name__ == '__main__':
    main()
