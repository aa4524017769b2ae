"""C29 arguments of a step"""
from .given import *

ALL_U = ('u_o', 'u_w', 'u_p')
HARNESSES = [Harness('omitted_%s_%s' % (k, '_'.join(w)), omitted, dict(scn=k, which=w, **kw), linear=True) for k, w, kw in (
    ('chain', ('Q_in',), {}), ('chain', ('Q_0Ik',), {}), ('chain', ('dt',), {}), ('loop', ('H_bc',), {}), ('controls', ('u_o',), {}),
    ('controls', ('u_w',), {}), ('controls', ('u_p',), {}), ('chain', ('Q_0Ik',), dict(num_iter=2, alone=True)), ('controls', ALL_U, {}), ('banded', ('banded',), {}), ('banded', ('u_o', 'u_w', 'Q_in'), {}),
    ('controls', ALL_U + ('Q_0Ik', 'H_bc', 'dt'), {}))] + [
    Harness('left_alone_' + k, left_alone, dict(scn=k, **kw), linear=True) for k, kw in (('chain', {}), ('controls', {}), ('loop', {}), ('banded', dict()))] + [
    Harness('apart_' + k, apart, dict(scn=k), linear=True) for k in ('chain', 'controls', 'tables', 'transects', 'banded', 'shapes', 'uneven')] + [
    Harness('spun_' + n, spun, kw, linear=True) for n, kw in (('plain', dict(scn='chain')), ('given', dict(scn='chain', n=1, given=('Q_in', 'Q_0Ik'))),
                                                              ('counters', dict(scn='controls', reset=False)), ('moving', dict(scn=None, move=True)))]
