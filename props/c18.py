"""C18 saved states"""
from .sim import *

HARNESSES = [Harness('reload_%s' % k, reload, dict(scn=k), linear=True, weight=2) for k in SCN] + [
    Harness('reload_3_%s' % k, reload, dict(scn=k, steps=3), linear=True) for k in ('offsets', 'controls', 'loop')] + [
    Harness('reload_mobile%d' % n, reload_mobile, dict(steps=n), linear=True) for n in (1, 3)]
