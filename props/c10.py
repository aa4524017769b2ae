"""C10 pumps"""
from .controls import *
HARNESSES = [Harness('flow_c%s' % c, pump_flow, dict(c=c, n=1)) for c in (None, 1, 2)] + [
    Harness('flow_two_%d' % f, pump_flow, dict(c=2, fix=f)) for f in (0, 1)] + [Harness('stopped', pump_flow, dict(closed=True, c=2))] + [
    Harness('step_' + s, control_step, dict(scn=s, kind='p'), linear=True) for s in ('controls', 'permuted')]
