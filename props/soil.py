"""Infiltration into soil elements (Green-Ampt)."""
import sys
import types
from .common import *


def near(V, a, b):
    return a == b if V.symbolic() else abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def soil_table(n=2):
    return pd().DataFrame(dict(psi_f=[.2, .1, .3][:n], Ks=[1e-6, 2e-6, 4e-6][:n], theta_s=[.4, .5, .45][:n], theta_i=[.1, .2, .15][:n], A_s=[100., 50., 20.][:n]))


def root_stub(V, loose=False):
    """in place of the iterative root finders: any root (in the bracket, or the bracket's end when infiltration capacity exceeds it)"""
    def numeric(f, lo, hi):
        import scipy.optimize
        a, b = f(lo), f(hi)
        if a > 0 and b >= 0:
            return hi
        return scipy.optimize.brentq(f, lo, hi, xtol=1e-14)

    def fresh(f, args, lb, ub):
        from symx.core import lift, R
        flat = [lift(a) for a in np.asarray(args, dtype=object).ravel()]
        pack = isinstance(args, tuple)

        def ev(e):
            vals = [float(e(a)) for a in flat]
            g = (lambda x: float(f(x, *vals))) if pack else (lambda x: float(f(x, np.array(vals))))
            lo = 1e-9
            hi = float(e(lift(ub))) if ub is not None else 1.
            while ub is None and g(hi) > 0:
                hi *= 2
            return numeric(g, lo, hi)
        if not loose:
            return V.c.fresh('root', ev)
        # the same problem has the same root
        import z3
        key = tuple(str(z3.simplify(a.e)) for a in flat) + (None if ub is None else str(z3.simplify(lift(ub).e)),)
        if key not in memo:
            memo[key] = V.c.fresh('root', ev)
        return memo[key]

    memo = {}

    def bounded(f, df, x0, x_lb, x_ub, args, **k):
        r = fresh(f, args, x_lb, x_ub)
        c = V.c
        c.define(x_lb <= r)
        c.define(r <= x_ub)
        g, gu = f(r, args), f(x_ub, args)
        c.define(V.or_(g == 0, V.and_(r == x_ub, gu > 0)))
        return r

    def free(f, x0, fprime=None, args=(), **k):
        d = fprime(x0, *args)
        if V.branch(d == 0) and V.branch(V.not_(f(x0, *args) == 0)):
            raise RuntimeError('Derivative was zero')
        r = fresh(f, args, None, None)
        V.c.define(r >= 0)
        V.c.define(f(r, *args) == 0)
        return r

    def unbounded(f, df, x0, args, **k):
        r = fresh(f, args, None, None)
        V.c.define(r >= 0)
        V.c.define(f(r, args) == 0)
        return r
    return bounded, free, unbounded


class patched:
    def __init__(self, V, loose=False):
        self.V, self.undo, self.loose = V, [], loose

    def put(self, o, k, v):
        if hasattr(o, k):
            self.undo.append((o, k, getattr(o, k)))
            setattr(o, k, v)

    def __enter__(self):
        if not self.V.symbolic():
            return
        from pipedream_solver import nutils, ninfiltration, infiltration
        b, f, u = root_stub(self.V, self.loose)
        for m in (nutils, ninfiltration, infiltration):
            self.put(m, 'bounded_newton_raphson', b)
            self.put(m, 'newton_raphson', u)
            if hasattr(m, 'scipy'):
                self.put(m, 'scipy', types.SimpleNamespace(optimize=types.SimpleNamespace(newton=f)))

    def __exit__(self, *a):
        for o, k, v in self.undo:
            setattr(o, k, v)


def make(V, kind, n):
    from pipedream_solver import infiltration, ninfiltration
    return (ninfiltration.nGreenAmpt if kind == 'n' else infiltration.GreenAmpt)(soil_table(n))


def step(V, kind='n', sat=(False,), wet=None):
    """one step from any state"""
    n = len(sat)
    m = make(V, kind, n)
    for k, lim in (('psi_f', (.5, 2.)), ('Ks', (.2, 2.)), ('A_s', (1., 3.)), ('Lu', (.5, 3.)), ('kr', (.01, .2)), ('Tr', (2., 8.)), ('theta_dmax', (.2, .6))):
        setattr(m, k, V.reals(k, n, pos=True, box=lim))
    m.theta_d = V.reals('theta_d', n, pos=True, box=(.1, .6))
    m.theta_du = V.reals('theta_du', n, lo=0., box=(0., .6))
    for j in range(n):
        V.assume(m.theta_d[j] <= m.theta_dmax[j])
        V.assume(m.theta_du[j] <= m.theta_dmax[j])
    m.d = V.reals('d', n, lo=0., box=(0., 1.))
    m.F = V.reals('F', n, lo=0., box=(0., 3.))
    m.f = V.reals('f_prev', n, lo=0., box=(0., 3.))
    m.T = V.reals('T', n, box=(-3., 8.))
    for j in range(n):
        m.is_saturated[j] = sat[j]
        if sat[j]:
            # a soil saturates only after water went in
            V.assume(m.F[j] > 0)
    i = V.reals('i', n, lo=0., box=(0., 4.))
    if wet is not None:
        for j in range(n):
            if not wet[j]:
                V.assume(i[j] == 0, m.d[j] == 0)
    dt = V.real('dt', pos=True, box=(.1, 2.))
    m.iter_count, m.t = 7, V.real('t', box=(0., 5.))
    old = {k: [x for x in getattr(m, k)] for k in ('d', 'F', 'T', 'theta_du', 'theta_d', 'Ks', 'psi_f', 'Lu', 'kr', 'Tr', 'theta_dmax', 'A_s')}
    t = m.t
    with patched(V):
        m.step(dt, i)
    V.check_eq('time', m.t, t + dt)
    V.check('number of steps', m.iter_count == 8)
    for j in range(n):
        o = {k: v[j] for k, v in old.items()}
        ia = i[j] + o['d'] / dt
        S = o['psi_f'] * o['theta_d']
        dF, fj = m.F[j] - o['F'], m.f[j]
        V.check_le('rate not negative[%d]' % j, 0., fj)
        V.check_le('no more than is available[%d]' % j, fj * dt, ia * dt)
        V.check_le('cumulative infiltration not negative[%d]' % j, 0., m.F[j])
        V.check_le('deficit of the upper layer not negative[%d]' % j, 0., m.theta_du[j])
        V.check_le('deficit of the upper layer at most the largest one[%d]' % j, m.theta_du[j], o['theta_dmax'])
        V.check_eq('water either infiltrates or stays ponded[%d]' % j, m.d[j], o['d'] + (i[j] - fj) * dt)
        V.check_eq('runoff[%d]' % j, m.Q[j], V.max(i[j] - fj, 0.) * o['A_s'])
        clip = (lambda x: V.min(V.max(x, 0.), o['theta_dmax']))

        def soaked():
            V.check_eq('rate times step is the increase[%d]' % j, fj * dt, dF)
            V.check_eq('deficit of the upper layer[%d]' % j, m.theta_du[j], clip(o['theta_du'] - dF / o['Lu']))
            V.check_eq('deficit at the front[%d]' % j, m.theta_d[j], o['theta_d'])

        def law(F1, sub, name):
            """Green-Ampt over the ponded part of the step, from F1, unless the water does not suffice"""
            lg = V.fn('log', m.F[j] + S) - V.fn('log', F1 + S)
            top = o['F'] + ia * dt
            V.check('Green-Ampt law %s[%d]' % (name, j), V.or_(near(V, m.F[j] - F1, o['Ks'] * sub + S * lg),
                                                             V.and_(near(V, m.F[j], top), top - F1 <= o['Ks'] * sub + S * (V.fn('log', top + S) - V.fn('log', F1 + S)) + (0 if V.symbolic() else 1e-7))))

        if sat[j]:
            soaked()
            law(o['F'], dt, 'of a saturated soil')
            V.check_eq('recovery time[%d]' % j, m.T[j], o['Tr'])
        elif V.branch(ia == 0):
            V.check_eq('dry: rate[%d]' % j, fj, 0.)
            V.check_eq('recovery time runs[%d]' % j, m.T[j], o['T'] - dt)
            r = o['kr'] * o['theta_dmax'] * dt
            V.check_eq('recovery of the upper layer[%d]' % j, m.theta_du[j], clip(o['theta_du'] + r))
            if V.branch(o['T'] - dt <= 0):
                V.check_eq('new event: cumulative infiltration[%d]' % j, m.F[j], 0.)
                V.check_eq('new event: deficit[%d]' % j, m.theta_d[j], m.theta_du[j])
            else:
                V.check_eq('recovery of cumulative infiltration[%d]' % j, m.F[j], V.max(o['F'] - r * o['Lu'], 0.))
                V.check_eq('deficit at the front[%d]' % j, m.theta_d[j], o['theta_d'])
        elif V.branch(ia <= o['Ks']):
            V.check_eq('weak rain infiltrates[%d]' % j, fj, ia)
            V.check_eq('recovery time runs[%d]' % j, m.T[j], o['T'] - dt)
            soaked()
        else:
            V.check_eq('recovery time[%d]' % j, m.T[j], o['Tr'])
            soaked()
            Fs = o['Ks'] * S / (ia - o['Ks'])
            if V.branch(o['F'] >= Fs):
                law(o['F'], dt, 'of a soil that was saturated before')
            elif V.branch(o['F'] + ia * dt < Fs):
                V.check_eq('rain before saturation infiltrates[%d]' % j, fj, ia)
            else:
                law(Fs, dt - (Fs - o['F']) / ia, 'after saturation')
        V.observe('F%d' % j, m.F[j])


REGIMES = dict(dry=(0., 0.), weak=(.25, .125), ponded=(0., 2.), heavy=(3., .5))


def pair(V, kind='n', rain=('dry', 'heavy', 'heavy'), sat=(False, False, False)):
    """elements do not influence one another: each does what it does alone"""
    n = len(rain)
    m = make(V, kind, n)
    par = dict(psi_f=(.5, .75, 1.), Ks=(1., .75, 1.25), A_s=(1., 2., 3.), Lu=(1., 1.5, 2.), kr=(.125, .0625, .03125), Tr=(4., 5., 6.), theta_dmax=(.5, .375, .25), theta_d=(.25, .125, .1875))
    par = {k: V.vec([V.const(x) for x in v[:n]]) for k, v in par.items()}
    par['theta_du'] = V.reals('theta_du', n, lo=0., box=(0., .25))
    par['F'] = V.reals('F', n, lo=0., box=(0., 1.))
    par['T'] = V.reals('T', n, box=(-3., 8.))
    par['f'] = V.reals('f_prev', n, lo=0., box=(0., 3.))
    par['d'] = V.vec([V.const(REGIMES[r][1]) for r in rain])
    i = V.vec([V.const(REGIMES[r][0]) for r in rain])
    dt = V.const(.5)
    ones = []
    for j in range(n):
        V.assume(par['theta_du'][j] <= par['theta_dmax'][j])
        if sat[j]:
            V.assume(par['F'][j] > 0)
        ones.append(make(V, kind, 1))
    with patched(V, loose=True):
        for j in range(n):
            for k, v in par.items():
                setattr(ones[j], k, V.vec([v[j]]))
            ones[j].is_saturated[0] = sat[j]
            ones[j].step(dt, V.vec([i[j]]))
        for k, v in par.items():
            setattr(m, k, V.vec([v[j] for j in range(n)]))
        for j in range(n):
            m.is_saturated[j] = sat[j]
        m.step(dt, i)
    for j in range(n):
        for k in ('F', 'f', 'theta_du', 'theta_d', 'T', 'd', 'Q'):
            V.check_eq('%s[%d]' % (k, j), getattr(m, k)[j], getattr(ones[j], k)[0])
        V.check('saturated or not[%d]' % j, bool(m.is_saturated[j]) == bool(ones[j].is_saturated[0]))
        V.observe('F%d' % j, m.F[j])


def constants(V, kind='n', n=2):
    """parameters of a new model"""
    from pipedream_solver import infiltration, ninfiltration
    C = ninfiltration.nGreenAmpt if kind == 'n' else infiltration.GreenAmpt
    t = soil_table(n)
    cols = {}
    for k, lim in (('psi_f', (.05, .4)), ('Ks', (1e-7, 1e-4)), ('theta_s', (.3, .5)), ('theta_i', (.05, .3)), ('A_s', (1., 100.))):
        cols[k] = V.reals(k, n, pos=True, box=lim)
    m = C(Table(cols, n))
    for j in range(n):
        for k in cols:
            V.check_eq('%s[%d]' % (k, j), getattr(m, k)[j], cols[k][j])
        for k in ('theta_d', 'theta_du', 'theta_dmax'):
            V.check_eq('%s[%d]' % (k, j), getattr(m, k)[j], cols['theta_s'][j] - cols['theta_i'][j])
        for k in ('d', 'F', 'f', 'T'):
            V.check_eq('%s[%d]' % (k, j), getattr(m, k)[j], 0.)
        V.check('not saturated[%d]' % j, not bool(m.is_saturated[j]))
        # Lu [in] = 4 sqrt(Ks [in/h]), kr [1/h] = sqrt(Ks)/75, Tr [h] = 4.5/sqrt(Ks)   (Huber et al.)
        x = V.sqrt(cols['Ks'][j] * 3600. / .0254)
        for k, v in (('Lu', 4. * x * .0254), ('kr', x / 75. / 3600.), ('Tr', 4.5 / x * 3600.)):
            a = getattr(m, k)[j]
            V.check('%s[%d]' % (k, j), V.and_(a >= v * .999, a <= v * 1.001))
        V.observe('Lu%d' % j, m.Lu[j])


class Col:
    def __init__(self, v):
        self.values = v


class Table:
    """the soil table as the constructor reads it"""
    def __init__(self, cols, n):
        self.cols, self.n = cols, n
        self.columns = list(cols)

    def __len__(self):
        return self.n

    def __getitem__(self, k):
        return Col(self.cols[k])
