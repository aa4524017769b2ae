"""C19 forcing"""
from .sim import *

HARNESSES = [Harness('sample_%s_%d' % (m, n), sampled, dict(n=n, method=m)) for m in ('linear', 'nearest') for n in (1, 2, 4)] + [
    Harness('forcing_%s%s' % (m, '_renumbered' if p else ''), forced, dict(method=m, perm=p)) for m in ('linear', 'nearest') for p in (False, True)] + [
    Harness('some_inputs', forced, dict(method='linear', given=('H_bc',), perm=True)),
    Harness('given_for_the_step', forced, dict(method='linear', given=('Q_in', 'H_bc'), override=('Q_in', 'Q_Ik'))),
    Harness('two_steps', forced, dict(method='linear', given=('Q_in',), steps=2)), Harness('start', start)]
