"""C07 limits of heads and depths"""
from .rest import *
P4 = ((0, 1), (1, 2), (2, 3))
HARNESSES = [Harness('heads_%s%s%s' % ('banded' if b else 'full', '_bc' if c else '', '' if l else '_nolimit'), head_limits, dict(M=4, pairs=P4, bc=c, banded=b, limit=l))
             for b in (False, True) for c in ((), (1, 3)) for l in (True, False)] + [
    Harness('depths_%s_%s_%s' % (me, '_'.join(map(str, nk)), int(l)), depth_limits, dict(nks=nk, pairs=((0, 1), (1, 2))[:len(nk)], M=len(nk) + 1, method=me, limit=l))
    for me in ('b', 'f') for nk in ((3,), (2, 3), (1, 2)) for l in (True, False)] + [
    Harness('depths_lsq', depth_limits, dict(nks=(2, 3), pairs=((0, 1), (1, 2)), M=3, method='lsq'))]
HARNESSES += [Harness('step_' + k, limited_step, dict(scn=k, dq=dq), linear=True, weight=2, bounds='one step after a fixed warm-up; inflow within a box')
              for k, dq in (('dry', (2., 2.4, .1)), ('dry_f', (2., 2.4, .1)), ('full', (.8, .8, .8)), ('controls', (.8, .3, .5, .5)), ('banded', (1.2, .6, .6, .8, .3)))]
