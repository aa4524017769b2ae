"""C09 weirs"""
from .controls import *
HARNESSES = [Harness('flow', weir_flow, dict(n=1)), Harness('closed', weir_flow, dict(n=1, closed=True))] + [
    Harness('flow_two_%d' % f, weir_flow, dict(n=2, fix=f)) for f in (0, 1)] + [
    Harness('step_' + s, control_step, dict(scn=s, kind='w'), linear=True) for s in ('controls', 'permuted')]
