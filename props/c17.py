"""C17 time accounting and fixed-point iteration"""
from .sim import *

HARNESSES = [Harness('iterate%d_%s' % (n, k), iterated, dict(scn=k, n=n), linear=True, weight=2) for k in SCN for n in (1,)] + [
    Harness('clock_%s_%d' % (k, n), clock, dict(scn=k, num_iter=n), linear=True) for k, n in (('chain', 1), ('chain', 4), ('loop', 3), ('controls', 3))] + [
    Harness('clock_default', clock, dict(scn='chain', num_iter=2, default=True), linear=True)]
