"""C24 transport of dissolved matter"""
from .quality import *

HARNESSES = [Harness('laws_' + k, run, dict(fn=laws, scn=k), linear=True, weight=2) for k in SCN if k not in ('capped', 'advection') and k[:3] != 'in_'] + [
    Harness('limits_' + nm, run, dict(fn=laws, scn='capped', few=few, box=box), linear=True, weight=2)
    for nm, few, box in (('high', False, (7., 9.)), ('low', False, (0., .5)), ('within', False, (2., 5.)), ('inflow', 40., (3., 3.5)), ('clean', .01, (3., 3.5)))]
