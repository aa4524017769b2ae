"""C26 data assimilation of concentrations"""
from .quality import *

HARNESSES = [Harness('update_%s_%s' % (k, ('independent', 'correlated')[c]), run, dict(fn=kalman, scn=k, corr=c), linear=True, weight=2)
             for k in ('chain', 'react', 'loop', 'boundary', 'controls', 'banded') for c in (0, 1)] + [
    Harness('clipped', run, dict(fn=kalman, scn='chain', corr=1, box=(1., 10.), zbox=(0., 10.)), linear=True, weight=2)]

HARNESSES += [Harness('update_parallel', run, dict(fn=kalman, scn='parallel', corr=1, obs=3), linear=True, weight=2)]
HARNESSES += [Harness('repeated_%s' % k, run, dict(fn=kalman, scn=k, corr=c, steps=2, obs=o, box=b, zbox=b), linear=True, weight=3)
              for k, c, o, b in (('chain', 0, 2, (3., 8.)), ('react', 1, 0, (4., 7.)), ('boundary', 1, 2, (4., 6.)), ('banded', 0, 4, (4., 7.)))]
HARNESSES += [Harness('artificial_%s' % k, run, dict(fn=kalman, scn=k, mode=1, obs=o, steps=st, box=b, zbox=b), linear=True, weight=2)
              for k, o, st, b in (('chain', 1, 1, (3., 8.)), ('loop', 2, 1, (3., 8.)), ('react', 0, 2, (4., 7.)), ('boundary', 1, 2, (4., 6.)))]
HARNESSES += [Harness('transition_%s' % k, run, dict(fn=kalman, scn=k, mode=0, obs=0, steps=st, box=b), linear=True, weight=2)
              for k, st, b in (('chain', 1, (3., 8.)), ('controls', 1, (3., 8.)), ('react', 2, (4., 7.)), ('boundary', 2, (4., 6.)))]
