"""C25 concentrations stay in range"""
from .quality import *

HARNESSES = [Harness('range_' + k, run, dict(fn=bounded, scn='in_' + k), linear=True, weight=2) for k in ('chain', 'reverse', 'loop', 'boundary', 'offsets', 'iterated', 'banded')]
HARNESSES.append(Harness('advection_only', run, dict(fn=uniform, scn='in_advection'), linear=True))
