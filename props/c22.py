"""C22 infiltration"""
from .soil import *

HARNESSES = [Harness('%s_%s' % (k, 's' if s else 'u'), step, dict(kind=k, sat=(s,)), weight=3) for k in 'nc' for s in (False, True)] + [
    Harness('%s_elements_%d' % (k, a), pair, dict(kind=k, rain=r, sat=tuple(x == 's' for x in s))) for k in 'nc' for a, (r, s) in enumerate((
        (('dry', 'heavy', 'heavy'), 'uuu'), (('heavy', 'weak', 'ponded'), 'uuu'), (('heavy', 'dry', 'heavy'), 'sus'), (('dry', 'ponded', 'heavy'), 'usu')))] + [
    Harness('constants_%s' % k, constants, dict(kind=k)) for k in 'nc']
