"""Root finding in one variable (nutils)."""
from .common import *


class Fun:
    """an arbitrary function with an arbitrary derivative: every evaluation returns an unknown value"""
    def __init__(self, V, df=True):
        self.V, self.pts, self.calls = V, [], 0

    def at(self, x):
        V = self.V
        for p in self.pts:
            if p[0] is x or (V.branch(p[0] == x) if V.symbolic() else abs(p[0] - x) < 1e-9):
                return p
        n = len(self.pts)
        p = (x, V.real('f_%d' % n, box=(-3, 3)), V.real('df_%d' % n, box=(-3, 3)))
        self.pts.append(p)
        return p

    def f(self, x, args):
        self.V.check('extra arguments', args == (7,))
        self.calls += 1
        self.last = self.at(x)
        return self.last[1]

    def df(self, x, args):
        return self.at(x)[2]


def between(V, x, a, b):
    return V.or_(V.and_(a <= x, x <= b), V.and_(b <= x, x <= a))


def bracketed(V, n=2, side=0):
    from pipedream_solver import nutils
    lb, ub = V.real('lb', box=(-2, 0)), V.real('ub', box=(0, 2))
    V.assume(lb < ub)
    x0 = V.real('x0', box=(-3, 3))
    atol = V.real('atol', pos=True, box=(.1, 1.))
    F = Fun(V)
    fl, fu = F.at(lb)[1], F.at(ub)[1]
    V.assume(V.and_(fl < 0, fu >= 0) if side == 0 else V.and_(fl >= 0, fu < 0))
    try:
        r = nutils.bounded_newton_raphson(F.f, F.df, x0, lb, ub, (7,), max_iter=n, atol=atol)
    except ValueError:
        V.check('gives up only after the allowed number of iterations', F.calls > n)
        return
    for i, p in enumerate(F.pts):
        V.check('point %d in the bracket' % i, V.and_(lb <= p[0], p[0] <= ub))
    V.check('root in the bracket', V.and_(lb <= r, r <= ub))
    ways = []
    for i, p in enumerate(F.pts):
        # a Newton correction smaller than the tolerance
        c = V.abs(p[1]) < atol * V.abs(p[2])
        ways.append(V.and_(c, (r - p[0]) * p[2] == -p[1]))
        for q in F.pts[:i]:
            # the middle of a sign change narrower than twice the tolerance
            ways.append(V.and_(V.or_(V.and_(p[1] < 0, q[1] >= 0), V.and_(p[1] >= 0, q[1] < 0)), V.abs(p[0] - q[0]) < 2 * atol,
                               between(V, r, p[0], q[0])))
    V.check('within the tolerance of a root', V.or_(*ways))
    V.observe('root', r)


def plain(V, n=3):
    from pipedream_solver import nutils
    x0 = V.real('x0', box=(-3, 3))
    atol, rtol = V.real('atol', pos=True, box=(.1, 1.)), V.real('rtol', lo=0., box=(0., .5))
    F = Fun(V)
    try:
        r = nutils.newton_raphson(F.f, F.df, x0, (7,), max_iter=n, atol=atol, rtol=rtol)
    except ValueError:
        V.check('gives up only at a flat spot or after the allowed number of iterations',
                V.or_(F.last[2] == 0, F.calls >= n))
        return
    p = F.last
    root = V.and_(p[1] == 0, r == p[0])
    small = V.and_(V.abs(p[1]) <= (atol + rtol * V.abs(p[0])) * V.abs(p[2]), (r - p[0]) * p[2] == -p[1])
    V.check('within the tolerance of a root', V.or_(root, small))
    V.check('starts at the given point', F.pts[0][0] == x0)
    V.observe('root', r)
