"""Whole time steps: the real step() is executed on a warmed-up network with symbolic forcing; the
resulting heads, depths and flows must satisfy the discretised conservation laws, whose coefficients
are recomputed here from the state before the step with independent formulas."""
from .common import *
from . import geom

G = 9.81


class Scn:
    """scenario: network, warm-up forcing, options"""

    def __init__(self, key, M, pairs, nk=3, nks=None, sj=None, sl=None, Q=0.3, warm=6, dt=5., H_bc=None, u=None, steps_kw=None, internal_dx=50., friction_methods=None, vary=None, **kw):
        self.key, self.M, self.pairs, self.nk, self.nks = key, M, list(pairs), nk, nks
        self.sj, self.sl, self.Q, self.warm, self.dt, self.kw = sj or {}, sl or {}, Q, warm, dt, kw
        self.H_bc = H_bc
        self.idx, self.fms, self.vary = internal_dx, friction_methods, vary
        self.u = u or {}
        self.steps_kw = steps_kw or {}

    def model(self):
        def make(warm=self.warm):
            m = copy.deepcopy(superlink_model('raw_' + self.key, self.M, self.pairs, nk=self.nk, nks=self.nks, sj=self.sj, sl=self.sl, idx=self.idx, fms=self.fms, vary=self.vary, **self.kw))
            q = np.array(self.Q if not np.isscalar(self.Q) else [self.Q] * self.M, dtype=float)
            nI = len(m._I)
            for s in range(warm):
                f = 1. + 0.2 * np.sin(1.7 * s + np.arange(self.M))
                m.step(H_bc=None if self.H_bc is None else np.array(self.H_bc, dtype=float), Q_in=q * f,
                       Q_0Ik=0.01 * np.cos(np.arange(nI) + s), dt=self.dt, **{k: np.array(v, dtype=float) for k, v in self.u.items()})
            for nm in ('H_j', '_h_Ik', '_Q_ik', '_Q_uk', '_Q_dk'):
                if not np.isfinite(getattr(m, nm)).all():
                    if warm == 0:
                        raise ArithmeticError('initial state is not finite: ' + nm)
                    return make(warm - 1)
            return m
        return build('e2e_%s %r' % (self.key, sorted(self.__dict__.items())), make)


def fl(x):
    x = getattr(x, 'f', x)
    return float(x)


def fa(a):
    return np.array([fl(v) for v in np.asarray(a, dtype=object).ravel()], dtype=float)


def inputs(V, s, m, dq=0.05, dqi=0.01, dh=0.05):
    Qin = V.vec([V.real('Qin_%d' % j, lo=q - dq, hi=q + dq) for j, q in enumerate([s.Q] * s.M if np.isscalar(s.Q) else s.Q)])
    q0 = V.reals('qI', len(m._I), lo=-dqi, hi=dqi)
    Hbc = None
    if s.H_bc is not None:
        Hbc = V.vec([V.real('Hbc_%d' % j, lo=h - dh, hi=h + dh) for j, h in enumerate(s.H_bc)])
    return Qin, q0, Hbc


class Pre:
    """float copies of the state before the step, and the coefficients of the scheme at that state"""

    def __init__(self, m, s, tr=None):
        m = View(m)
        n, K = len(m._ik), m.NK
        self.H, self.h, self.Q = fa(m.H_j), fa(m._h_Ik), fa(m._Q_ik)
        self.Qu, self.Qd = fa(m._Q_uk), fa(m._Q_dk)
        # values at the start of the time step; in a repeated step (fixed-point iteration) these are older
        self.Hp, self.hp, self.Qp, self.Qup, self.Qdp = self.H, self.h, self.Q, self.Qu, self.Qd
        shape = [str(x) for x in m._shape_ik]
        g = np.array([fa(getattr(m, '_g%d_ik' % i)) for i in range(1, 8)]).T
        self.dx, zI = fa(m._dx_ik), fa(m._z_inv_Ik)
        self.A, self.R, self.B, self.So = [np.zeros(n) for _ in range(4)]
        self.I = [int(x) for x in m._Ik]
        for i in range(n):
            I = self.I[i]
            self.A[i], self.R[i], self.B[i] = section_of(m, i, shape[i], (self.h[I] + self.h[I + 1]) / 2, g[i], s)
            self.So[i] = (zI[I] - zI[I + 1]) / self.dx[i]
        self.zu, self.zd = fa(m._z_inv_uk), fa(m._z_inv_dk)
        self.zI, self.n = zI, fa(m._n_ik)
        self.xu, self.xd = fa(m._dx_uk), fa(m._dx_dk)
        self.Au, self.Ad, self.Ru, self.Rd, self.Bu, self.Bd = [np.zeros(K) for _ in range(6)]
        tu, td = fa(m._theta_uk), fa(m._theta_dk)
        for k in range(K):
            i1, iN = int(m._i_1k[k]), int(m._i_1k[k] + m.nk[k] - 1)
            I1, IN = int(m._I_1k[k]), int(m._I_1k[k] + m.nk[k])
            ju, jd = int(m._J_uk[k]), int(m._J_dk[k])
            yu = (self.h[I1] + tu[k] * (self.H[ju] - self.zu[k])) / 2
            yd = (self.h[IN] + td[k] * (self.H[jd] - self.zd[k])) / 2
            self.Au[k], self.Ru[k], self.Bu[k] = section_of(m, i1, shape[i1], yu, g[i1], s)
            self.Ad[k], self.Rd[k], self.Bd[k] = section_of(m, iN, shape[iN], yd, g[iN], s)
        self.tu = np.array([1. if self.H[int(m._J_uk[k])] >= self.zu[k] else 0. for k in range(K)])
        self.td = np.array([1. if self.H[int(m._J_dk[k])] >= self.zd[k] else 0. for k in range(K)])
        self.u = self.Q / np.where(self.A > 0, self.A, 1.) * (self.A > 0)
        self.sg = np.ones(n)
        if m.inertial_damping:
            for i in range(n):
                fr = abs(self.u[i]) / np.sqrt(G * self.A[i] / self.B[i])
                self.sg[i] = 1. if fr < .5 else (0. if fr > 1 else 2 * (1 - fr))


def section_of(m, i, shape, y, g, s):
    if shape == 'irregular':
        t = s.kw['transects'][m.link_transect[i]]
        return transect_tables(t, y)
    return geom.full(shape, y, g)


def transect_tables(t, y):
    """area, radius, width of a surveyed section, tabulated at evenly spaced stages"""
    w = np.linspace(0., t['y'].max(), t.get('sample_points', 100))
    rows = [polygon(t['x'], t['y'], wi) for wi in w]
    A, P, B = [np.array(c) for c in zip(*rows)]
    R = np.where(P > 0, A / np.where(P > 0, P, 1.), 0.)
    return np.interp(y, w, A), np.interp(y, w, R), np.interp(y, w, B)


def polygon(x, y, w):
    A = P = B = 0.
    for x0, x1, y0, y1 in zip(x[:-1], x[1:], y[:-1], y[1:]):
        lo, hi = min(y0, y1), max(y0, y1)
        if w < lo:
            continue
        f = 1. if w >= hi else (w - lo) / (hi - lo)     # wetted share of this piece of the bed
        b = f * (x1 - x0)
        B += b
        P += np.hypot(b, f * (hi - lo))
        A += b * (w - lo) / 2 if w < hi else b * ((w - lo) + (w - hi)) / 2
    return A, P, B


def step(V, s, extra=None, iterate=0, **kw):
    m = clone(V, s.model())
    p = Pre(m, s)
    if iterate:
        # the time step is repeated from its own result, as in fixed-point iteration
        old = p
        m = copy.deepcopy(s.model())
        with npshim.native():
            for it in range(iterate):
                m.step(H_bc=None if s.H_bc is None else np.array(s.H_bc, dtype=float), Q_in=np.array(s.Q if not np.isscalar(s.Q) else [s.Q] * s.M) * 1.5,
                       Q_0Ik=np.full(len(m._I), 0.004), dt=s.dt, first_iter=it == 0, **{k: np.array(v, dtype=float) for k, v in s.u.items()})
                m.t -= s.dt
        m = clone(V, m)
        p = Pre(m, s)
        p.Hp, p.hp, p.Qp, p.Qup, p.Qdp = old.H, old.h, old.Q, old.Qu, old.Qd
        kw['first_iter'] = False
    Qin, q0, Hbc = inputs(V, s, m)
    us = {k: V.arr(np.array(v, dtype=float)) for k, v in s.u.items()}
    if s.steps_kw:
        kw = dict(s.steps_kw, **kw)
    m.step(H_bc=Hbc, Q_in=Qin, Q_0Ik=q0, dt=s.dt, **us, **kw)
    return m, p, Qin, q0, Hbc


def fric(Q, dx, A, R, n, method=0):
    if method == 0:      # Chezy-Manning
        return G * n ** 2 * abs(Q) * dx / A / R ** (4 / 3)
    if method == 1:      # Hazen-Williams: Sf = 1.354 (V / C)^1.85 / R^1.1655
        return 1.354 * G * abs(Q) ** 0.85 * dx / A ** 0.85 / n ** 1.85 / R ** 1.1655
    # Darcy-Weisbach with Swamee-Jain friction factor: Sf = f V^2 / (8 g R)
    if Q == 0:
        return 0.
    Re = abs(Q) / A * 4 * R / 1.0034e-6
    f = 0.25 / np.log10(n / (3.7 * 4 * R) + 5.74 / Re ** 0.9) ** 2
    return 0.01274 * G * f * abs(Q) * dx / (A * R)


def laws(V, s, what, tol=1e-6, after=None, **kw):
    """what: subset of 'momentum', 'continuity', 'ends', 'balance', 'bc'"""
    m, p, Qin, q0, Hbc = step(V, s, **kw)
    if after:
        after(m, p, Qin, q0, Hbc)
    real, m = m, View(m)
    dt = s.dt
    h, Q, Qu, Qd, H = m._h_Ik, m._Q_ik, m._Q_uk, m._Q_dk, m.H_j
    As = fa(m._A_SIk)
    C, Ac, ctrl = fa(m._C_ik), fa(m._A_c_ik), m._ctrl
    for k in range(m.NK):
        i1, N = int(m._i_1k[k]), int(m.nk[k])
        I1 = int(m._I_1k[k])
        ju, jd = int(m._J_uk[k]), int(m._J_dk[k])
        for j in range(N):
            i, I = i1 + j, I1 + j
            if 'momentum' in what:
                dx, u = p.dx, p.u
                uu = u[i] if j == 0 else (dx[i] * u[i - 1] + dx[i - 1] * u[i]) / (dx[i] + dx[i - 1])
                ud = u[i] if j == N - 1 else (dx[i] * u[i + 1] + dx[i + 1] * u[i]) / (dx[i] + dx[i + 1])
                a, c = -max(uu, 0.) * p.sg[i], -max(-ud, 0.) * p.sg[i]
                loc = C[i] * p.A[i] * abs(p.Q[i]) / Ac[i] ** 2 if ctrl[i] else 0.
                b = dx[i] / dt * p.sg[i] + fric(p.Q[i], dx[i], p.A[i], p.R[i], p.n[i], int(m._Sf_method_ik[i])) + loc - a - c
                src = p.Qp[i] * dx[i] / dt * p.sg[i] + G * p.A[i] * p.So[i] * dx[i]
                Qm = Qu[k] if j == 0 else Q[i - 1]
                Qp = Qd[k] if j == N - 1 else Q[i + 1]
                V.check_eq('momentum of link[%d]' % i, a * Qm + b * Q[i] + c * Qp, src + G * p.A[i] * (h[I] - h[I + 1]), near=tol * 100)
        for j in range(N + 1):
            I = I1 + j
            if 'continuity' in what:
                left = p.Bu[k] * p.xu[k] if j == 0 else p.B[i1 + j - 1] * p.dx[i1 + j - 1]
                right = p.Bd[k] * p.xd[k] if j == N else p.B[i1 + j] * p.dx[i1 + j]
                S = (left + right) / 2 + As[I]
                qa = Qu[k] if j == 0 else Q[i1 + j - 1]
                qb = Qd[k] if j == N else Q[i1 + j]
                if (j == 0 and p.tu[k] == 0. or j == N and p.td[k] == 0.) and V.branch(h[I] <= m.min_depth):
                    continue
                V.check_eq('continuity at junction[%d]' % I, S * (h[I] - p.hp[I]), (qa - qb + q0[I]) * dt, near=tol * dt)
        if 'ends' in what:
            for tag, jx, q, hx, z, A, R, x, th, Cb, sgn, qp, qs, So, n, fm in (
                    ('upstream', ju, Qu[k], h[I1], p.zu[k], p.Au[k], p.Ru[k], p.xu[k], p.tu[k], fl(m._C_uk[k]), -1., p.Qu[k], p.Qup[k],
                     (p.zu[k] - p.zI[I1]) / p.xu[k] if p.xu[k] > 0 else 0., p.n[i1], int(m._Sf_method_ik[i1])),
                    ('downstream', jd, Qd[k], h[I1 + N], p.zd[k], p.Ad[k], p.Rd[k], p.xd[k], p.td[k], fl(m._C_dk[k]), 1., p.Qd[k], p.Qdp[k],
                     (p.zI[I1 + N] - p.zd[k]) / p.xd[k] if p.xd[k] > 0 else 0., p.n[i1 + N - 1], int(m._Sf_method_ik[i1 + N - 1]))):
                rhs = th * (H[jx] - z) + sgn * Cb * abs(qp) * q / (2 * G * A * A)
                if m._bc_method == 'b':
                    rhs = rhs + sgn * (x / dt * (q - qs) / (G * A) + (fric(qp, x, A, R, n, fm) * q / (G * A) if R > 0 else 0.) - x * So)
                if th == 0. and V.branch(rhs < m.min_depth):
                    rhs = m.min_depth               # a disconnected end is cut back to the minimum depth
                V.check_eq('%s end depth[%d]' % (tag, k), hx, rhs, near=tol)
    if 'balance' in what or 'bc' in what:
        z = fa(m._z_inv_j)
        bc = [bool(b) for b in m.bc]
        for j in range(m.M):
            if bc[j]:
                if 'bc' in what:
                    V.check_eq('prescribed head[%d]' % j, H[j], Hbc[j], near=tol)
                continue
            if 'balance' not in what:
                continue
            d = max(p.H[j] - z[j], fl(m.min_depth))
            if m.storage_kind[j] == 'tabular':
                t = s.kw['storages'][m.storage_table[j]]
                A = float(np.interp(d, t['h'], t['A']))
            else:
                A = fl(m._storage_a[j]) * d ** fl(m._storage_b[j]) + fl(m._storage_c[j])
            net = Qin[j]
            for k in range(m.NK):
                if int(m._J_uk[k]) == j:
                    net = net - Qu[k]
                    A = A + p.tu[k] * p.xu[k] * p.Bu[k] / 2
                if int(m._J_dk[k]) == j:
                    net = net + Qd[k]
                    A = A + p.td[k] * p.xd[k] * p.Bd[k] / 2
            for nm, n in (('o', m.n_o), ('w', m.n_w), ('p', m.n_p)):
                for i in range(n):
                    a, b = int(getattr(m, '_J_u' + nm)[i]), int(getattr(m, '_J_d' + nm)[i])
                    if j in (a, b):
                        q = getattr(m, '_alpha_' + nm)[i] * H[a] + getattr(m, '_beta_' + nm)[i] * H[b] + getattr(m, '_chi_' + nm)[i]
                        net = net - q if j == a else net + q
            V.check_eq('volume balance[%d]' % j, A * (H[j] - p.Hp[j]), net * dt, near=tol * dt)
    V.observe('H0', H[0])
    V.observe('Q0', Q[0])
    return real


ALL = ('momentum', 'continuity', 'ends', 'balance', 'bc')
T3 = ((0, 1), (1, 2))
LOOP = ((0, 1), (0, 2), (1, 3), (2, 3))
STO = dict(a=[3., 0., 5., 0.], b=[0.5, 0., 1., 0.], c=[12., 15., 10., 30.])


def sto(M):
    return {k: v[:M] for k, v in STO.items()}


TR = {'t2': dict(x=np.array([0., 1., 3., 4.]), y=np.array([3., 0., 0., 3.])),
      't1': dict(x=np.array([0., 2., 2.5, 5.]), y=np.array([4., 0.5, 0., 4.]), sample_points=40)}
TB = {'b': dict(h=np.array([0., 1., 2., 3.]), A=np.array([10., 20., 40., 41.])), 'a': dict(h=np.array([0., 3.]), A=np.array([5., 8.]))}
SCN = {
    'chain': Scn('chain', 3, T3, nk=3, sj=dict(h0=0.9, **sto(3))),
    'chain_f': Scn('chain_f', 3, T3, nk=3, sj=dict(h0=0.9, **sto(3)), method='f'),
    'chain_lsq': Scn('chain_lsq', 3, ((0, 1), (2, 1)), nks=[4, 3], sj=dict(h0=0.9, **sto(3)), method='lsq'),
    'single_links': Scn('single', 3, T3, nk=1, sj=dict(h0=0.9, **sto(3)), sl=dict(dx_uk=5., dx_dk=5., A_s=2.)),
    'banded': Scn('banded', 5, ((0, 3), (3, 1), (1, 4), (4, 2), (0, 1)), nk=2, sj=dict(h0=0.9, a=1., b=1., c=[10., 12., 14., 16., 18.], z=[2.3, 1.5, .5, 1.9, 1.]),
                   auto_permute=True, orifices=dict(pairs=[(3, 4)]), weirs=dict(pairs=[(1, 2)]), u=dict(u_o=[0.5], u_w=[1.]),
                   Q=[.1, .3, .2, .6, 1.5]),
    'damping': Scn('damping', 3, T3, nks=[3, 2], sj=dict(h0=0.6, z=[5., 2.5, 0.], **sto(3)), inertial_damping=True, Q=0.8,
                   sl=dict(n=0.012), internal_dx=60.),
    'losses': Scn('losses', 3, ((0, 1), (0, 2), (2, 1)), nk=3, sj=dict(h0=0.9, **sto(3)), sl=dict(ctrl=[True, False, True], C=[0.7, 3., 1.2],
                  A_c=[0.8, 0.5, 1.5], A_s=[4., 0.5, 1.])),
    'friction': Scn('friction', 3, ((0, 1), (1, 2), (0, 2)), nks=[3, 2, 2], sj=dict(h0=0.9, **sto(3)), friction_methods=['hw', 'dw', 'cm'],
                    sl=dict(n=[120., 0.002, 0.02], dx_uk=[5., 8., 3.], dx_dk=[6., 2., 7.]), bc_method='b'),
    'transects': Scn('transects', 3, T3, nk=2, sj=dict(h0=0.9, **sto(3)), transects=TR, sl=dict(shape='irregular', transect=['t1', 't2'], dx_uk=4., dx_dk=9.)),
    'tables': Scn('tables', 4, T3 + ((1, 3),), nk=2, sj=dict(h0=0.9, storage=['tabular', 'functional', 'tabular', 'tabular'], table=['b', None, 'a', 'b'], **sto(4)), storages=TB),
    'loop': Scn('loop', 4, LOOP, nks=[2, 3, 1, 4], sj=dict(h0=1.2, z=[2., 1.7, 1.6, 1.0], bc=(3,), **sto(4)), H_bc=[0., 0., 0., 2.3],
                sl=dict(shape=['rect_open', 'trapezoidal', 'triangular', 'circular'], g1=[5., 5., 5., 4.], g2=[2., 1.5, 1.2, 0.001],
                        g3=[0., 0.7, 0., 0.], in_off=[0.1, 0., 0.05, 0.], C_uk=[1., 0.5, 0.2, 0.7], C_dk=[2., 1.2, 0.4, 0.9])),
    'shapes': Scn('shapes', 4, LOOP, nk=2, sj=dict(h0=1.2, z=[2., 1.7, 1.6, 1.0], bc=(0, 3), **sto(4)), H_bc=[3.2, 0., 0., 2.3],
                  sl=dict(shape=['rect_closed', 'wide', 'floodplain', 'circular'], g1=[.9, 5., 5., 0.8], g2=[2., 3., .3, 0.002],
                          g3=[0.02, 0., .5, 0.], g4=[0., 0., 2., 0.], g5=[0., 0., .5, 0.], g6=[0., 0., 1., 0.], g7=[0., 0., 1.1, 0.],
                          dx_uk=[4., 6., 8., 3.], dx_dk=[2., 1., 5., 7.])),
    'reaches': Scn('reaches', 3, T3, nk=2, sj=dict(h0=0.9, **sto(3)), bc_method='b',
                   sl=dict(dx_uk=[20., 15.], dx_dk=[10., 25.], shape='trapezoidal', g1=5., g2=2., g3=0.5)),
    'reaches_reverse': Scn('reaches_rev', 3, T3, nk=2, sj=dict(h0=[0.7, 1.3, 2.4], **sto(3)), bc_method='b',
                   sl=dict(dx_uk=[20., 15.], dx_dk=[10., 25.], shape='trapezoidal', g1=5., g2=2., g3=0.5), Q=[0.1, 0.5, 1.5]),
    'offsets': Scn('offsets', 3, ((0, 1), (2, 1)), nk=2, sj=dict(z=[2., 0., 2.5], h0=[1., 0.6, 1.1], **sto(3)),
                   sl=dict(in_off=[0.1, 0.2], out_off=[1.2, 1.5], dx_uk=[12., 5.], dx_dk=[3., 8.])),
    # the downstream superjunction has fallen below one end during the last step of the warm-up
    'flip': Scn('flip', 3, ((0, 1), (2, 1)), nk=2, sj=dict(z=[2., 0., 2.5], h0=[1., 1.4, 1.1], a=[0.] * 3, b=0., c=[10.] * 3),
                sl=dict(in_off=[0.1, 0.2], out_off=[.9, .8], dx_uk=[12., 5.], dx_dk=[3., 8.]), Q=[.1, -1.45, .1], warm=1),
    'parallel': Scn('parallel', 3, ((0, 1), (0, 1), (2, 1), (0, 2), (0, 2)), nks=[2, 3, 1, 2, 1], sj=dict(h0=[1.3, 1., 1.1], z=[2., 1., 1.4], **sto(3)),
                    sl=dict(g2=[2., 1., 1.5, .8, 1.2], in_off=[0., .1, 0., .05, 0.], C_uk=[.2, .4, 0., .1, 0.]), orifices=dict(pairs=[(0, 1), (0, 1), (1, 2)]),
                    weirs=dict(pairs=[(0, 2), (0, 2)]), Q=[1.2, .3, .4], u=dict(u_o=[.4, .8, .6], u_w=[1., .6])),
    # everything that may differ from link to link within a superlink, and surveyed next to regular sections
    'uneven': Scn('uneven', 3, T3, nks=[3, 4], sj=dict(h0=0.9, z=[2., 1., 0.], **sto(3)), transects=TR, sl=dict(dx_uk=4., dx_dk=6.),
                  vary=(dict(dx=[40., 60., 50., 30., 45., 55., 70.], n=[.03, 130., .025, .035, .002, .028, .04], friction_method=['cm', 'hw', 'cm', 'cm', 'dw', 'cm', 'cm'],
                             shape=['irregular', 'rect_open', 'circular', 'trapezoidal', 'irregular', 'rect_closed', 'irregular'], transect=['t1', '', '', '', 't2', '', 't1'],
                             g1=[5., 5., 4., 5., 5., 3., 5.], g2=[2., 2.5, .001, 1.5, 2., 2., 2.], g3=[0., 0., 0., .6, 0., .002, 0.],
                             C=[0., .8, .5, 1.2, 0., .6, .9], A_c=[0., .7, .4, .9, 0., .5, 1.], ctrl=[False, True, True, True, False, False, True]),
                        dict(z_inv=[2., 1.7, 1.25, 1., 1., .8, .55, .2, 0.], A_s=[1., .5, 2., 0., .8, 3., 0., 1.5, .2], h_0=[.9, .8, 1., .9, .7, .8, .9, 1., .8]))),
    'controls': Scn('controls', 4, T3 + ((2, 3),), nk=2, sj=dict(h0=[1.5, 1.2, 1., .8], z=[3., 2.5, 2., 1.5], bc=(3,), **sto(4)), H_bc=[0., 0., 0., 2.2],
                    orifices=dict(pairs=[(0, 2), (2, 1), (1, 3)]), weirs=dict(pairs=[(1, 2), (2, 1)]), pumps=dict(pairs=[(2, 0)]), Q=[1.8, .8, 1.2, 0.],
                    u=dict(u_o=[0.5, 1., 0.7], u_w=[1., 0.5], u_p=[0.4])),
}


def e2e(V, scn, what=ALL, **kw):
    return laws(V, SCN[scn], what, **kw)


def runs(*what, only=None, skip=()):
    return [Harness('step_' + k, e2e, dict(scn=k, what=what), linear=True, weight=2,
                    bounds='one step after a fixed warm-up; forcing within a box; network ' + k)
            for k in SCN if (only is None or k in only) and k not in skip]
