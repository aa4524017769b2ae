"""C20 adaptive step size"""
from .sim import *

HARNESSES = [Harness('steps_%d_%d_norm%d' % (s, r, n), adaptive, dict(subdivisions=s, retries=r, norm=n)) for s, r, n in
             ((1, 0, 2), (2, 0, 2), (3, 0, 1), (2, 0, 0), (2, 0, -1), (2, 1, 2), (2, 2, -1), (3, 3, -1), (2, 4, 1))] + [
    Harness('default_dt', adaptive, dict(subdivisions=2, retries=1, norm=-1, given=False)), Harness('tolerance', adaptive, dict(subdivisions=2, retries=3, norm=-1, tol=5.)),
    Harness('smallest', adaptive, dict(subdivisions=2, retries=5, norm=-1, min_dt=3.)), Harness('few', few),
    Harness('elementary', elementary), Harness('elementary_own', elementary, dict(own=True)), Harness('filter_own', filtered, dict(coeffs=FILTERS['h0211'], own=True))] + [
    Harness('filter_' + k, filtered, dict(coeffs=v)) for k, v in FILTERS.items()]
