"""worker.py sym PROP HARNESS TIER OUT   |   worker.py con PROP JOBS OUT"""
import importlib
import json
import os
import random
import resource
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    mode, prop = sys.argv[1], sys.argv[2]
    from symx import load
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jit = mode == 'jit'
    load.prepare(jit=jit)
    if not jit:
        sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    else:
        sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    lim = int(float(os.environ.get('VERIF_MEM_GB', '8')) * (1 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    sys.setrecursionlimit(20000)
    import warnings
    warnings.simplefilter('ignore')
    mods = load.modules()
    for m in mods:
        f = os.path.realpath(m.__file__)
        if not f.startswith(os.path.realpath(load.REPO) + os.sep):
            raise SystemExit('pipedream_solver not loaded from %s: %s' % (load.REPO, f))
    if mode == 'sym':
        from symx import npshim, core
        pm = importlib.import_module('props.' + prop.lower())
        from symx.harness import SymRun
        h = {x.name: x for x in pm.HARNESSES}[sys.argv[3]]
        tier, out = sys.argv[4], sys.argv[5]
        deadline = time.time() + float(os.environ.get('VERIF_HARNESS_S', '600'))
        npshim.enable(mods)
        t0 = time.time()
        r = SymRun(h, tier, seed, deadline).execute()
        r['wall_s'] = time.time() - t0
        json.dump(r, open(out, 'w'))
    else:
        pm = importlib.import_module('props.' + prop.lower())
        from symx.harness import run_concrete
        hs = {x.name: x for x in pm.HARNESSES}
        jobs = json.load(open(sys.argv[3]))
        res = []
        for j in jobs:
            h = hs[j['harness']]
            if j.get('random'):
                rng = random.Random(seed)
                got = None
                t0 = time.time()
                for _ in range(j['random']):
                    base = {k: v for k, v in (j.get('choices') or {}).items()}
                    r = run_concrete(h, base, rng)
                    if r['failed'] or (r['status'] == 'raised' and h.exc != 'ignore'):
                        got = r
                        break
                    if j.get('want_ok') and r['status'] == 'ok':
                        got = r
                        break
                    if time.time() - t0 > 20:
                        break
                res.append(got or r)
            else:
                res.append(run_concrete(h, j['inputs']))
        json.dump(res, open(sys.argv[4], 'w'))


if __name__ == '__main__':
    main()
