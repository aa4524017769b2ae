"""Still water stays still; heads and depths stay within their limits."""
from .common import *
from .hydro import idx


def rest(V, key, M, pairs, nk=2, nks=None, sj=None, sl=None, lo=1., hi=2., dt=None, level=None, inflow=False, banded=None, num_iter=1, controls=None, levels=None, **kw):
    """a basin with one water level and no flow, whose level is any number in [lo, hi] above the datum"""
    m = clone(V, superlink_model('rest_' + key, M, pairs, nk=nk, nks=nks, sj=dict(sj or {}), sl=dict(sl or {}), **kw))
    H = V.const(V.choice('level', levels)) if levels else V.real('level', lo=lo, hi=hi)
    dt = V.real('dt', pos=True, box=(1, 30)) if dt is None else dt
    m.H_j = V.vec([H] * m.M)
    m._h_Ik = V.vec([H - z for z in m._z_inv_Ik])
    for q in ('_Q_ik', '_Q_uk', '_Q_dk', '_Qo', '_Qw'):
        if hasattr(m, q):
            setattr(m, q, V.vec([V.const(0.)] * len(getattr(m, q))))
    m._theta_uk, m._theta_dk = V.vec([V.const(1.)] * m.NK), V.vec([V.const(1.)] * m.NK)
    us = {}
    if controls:
        us = {k: V.reals(k, n, lo=0., hi=1.) for k, n in controls.items()}
    V.expect_solution([H] * m.M, 'system')
    step = dict(H_bc=V.vec([H] * m.M), dt=dt, **us)
    if inflow:
        step.update(Q_in=V.vec([V.const(0.)] * m.M), Q_0Ik=V.vec([V.const(0.)] * len(m._I)))
    if num_iter > 1:
        step["num_iter"] = num_iter
    m.step(banded=banded, **step) if banded is not None else m.step(**step)
    V.expect_solution(None, '')
    for j in range(m.M):
        V.check_eq('head[%d]' % j, m.H_j[j], H)
    for k in range(m.NK):
        V.check_eq('flow at the upstream end[%d]' % k, m._Q_uk[k], 0.)
        V.check_eq('flow at the downstream end[%d]' % k, m._Q_dk[k], 0.)
    for i in range(len(m._ik)):
        V.check_eq('flow[%d]' % i, m._Q_ik[i], 0.)
    for I in range(len(m._I)):
        V.check_eq('depth[%d]' % I, m._h_Ik[I], H - m._z_inv_Ik[I])
    for kind, n in (('o', m.n_o), ('w', m.n_w)):
        for i in range(n):
            V.check_eq('flow of control %s[%d]' % (kind, i), getattr(m, '_Q' + kind)[i], 0.)
    V.observe('H', m.H_j[0])


def head_limits(V, M=3, pairs=((0, 1), (1, 2)), bc=(), banded=False, limit=True):
    """whatever the system of equations returns, heads stay between invert and maximum depth"""
    m = clone(V, superlink_model('lim%s%s%s%s' % (M, pairs, bc, limit), M, list(pairs), nk=2, sj=dict(bc=bc, max_depth=[4.] * M if limit else None), auto_permute=False))
    m._z_inv_j = V.reals('z', M, box=(-2, 2))
    if limit:
        m.max_depth = V.reals('max_depth', M, lo=0., box=(0, 3))
    m.A = m.A * 0.
    a = V.reals('diag', M, pos=True, box=(1, 3))
    for j in range(M):
        m.A[j, j] = a[j]
    m.b = V.reals('b', M, box=(-10, 10))
    (m.solve_banded_matrix if banded else m.solve_sparse_matrix)()
    for j in range(M):
        V.check_le('head above the invert[%d]' % j, m._z_inv_j[j], m.H_j[j])
        x = V.max(m.b[j] / a[j], m._z_inv_j[j])
        if limit:
            V.check_le('head below the maximum[%d]' % j, m.H_j[j], m._z_inv_j[j] + m.max_depth[j])
            x = V.min(x, m._z_inv_j[j] + m.max_depth[j])
        V.check_eq('head only cut back at the limits[%d]' % j, m.H_j[j], x)


def depth_limits(V, nks=(3,), pairs=((0, 1),), M=2, method='b', limit=True):
    """whatever the recurrences return, depths stay within their limits and flows are those of the limited depths"""
    m = clone(V, superlink_model('dlim%s%s%s%s' % (M, pairs, nks, limit), M, list(pairs), nks=list(nks), **(dict(sl=dict(max_depth=9.)) if limit else {})))
    N, n, K = len(m._I), len(m._ik), m.NK
    m.min_depth = V.real('min_depth', lo=0., box=(0., 0.1))
    top = None
    if limit:
        m.max_depth_k = top = V.reals('max_depth_k', K, box=(.5, 2.))
        for k in range(K):
            V.assume(top[k] >= m.min_depth)
    X, Y, Z = V.reals('X', N, box=(0.5, 4)), V.reals('Y', N, box=(-4, 4)), V.reals('Z', N, box=(-4, 4))
    U, W, Vr = V.reals('U', N, box=(-4, 4)), V.reals('W', N, box=(-4, 4)), V.reals('Vr', N, box=(-4, 4))
    m._X_Ik, m._Y_Ik, m._Z_Ik, m._U_Ik, m._V_Ik, m._W_Ik = X, Y, Z, U, Vr, W
    m._h_uk, m._h_dk = V.reals('hu', K, box=(-1, 3)), V.reals('hd', K, box=(-1, 3))
    m._h_Ik, m._Q_ik = V.reals('h_old', N), V.reals('Q_old', n)
    hu, hd = list(m._h_uk), list(m._h_dk)
    {'b': m.solve_internals_backwards, 'f': m.solve_internals_forwards, 'lsq': m.solve_internals_lsq}[method]()
    for k, i1, iN, I1, IN in idx(m):
        for I in range(I1, IN + 1):
            V.check_le('depth not below the minimum[%d]' % I, m.min_depth, m._h_Ik[I])
            if limit and method != 'lsq' and I1 < I < IN:
                V.check_le('depth not above the maximum[%d]' % I, m._h_Ik[I], top[k])
        V.check_eq('depth at the upstream end[%d]' % k, m._h_Ik[I1], V.max(hu[k], m.min_depth))
        V.check_eq('depth at the downstream end[%d]' % k, m._h_Ik[IN], V.max(hd[k], m.min_depth))
        if method == 'lsq':
            continue
        for i in range(iN, i1, -1):
            I = I1 + i - i1
            hn = hd[k] if I + 1 == IN else m._h_Ik[I + 1]
            q = U[I] * hn + Vr[I] + W[I] * hu[k]
            V.check_eq('flow of the limited depths[%d]' % i, m._Q_ik[i], q)
            if V.branch(V.not_(X[I] == 0)):
                h = V.max((q - Y[I] - Z[I] * hd[k]) / X[I], m.min_depth)
                if limit:
                    h = V.min(h, top[k])
                V.check_eq('depth only cut back at the limits[%d]' % I, m._h_Ik[I], h)


def limited_step(V, scn, dq, methods=('b',)):
    """a whole step in which superjunctions fall dry or fill up: heads are the solution of the equations, cut back to the limits, and so are depths"""
    from . import e2e
    s = LIM[scn]
    m = clone(V, s.model())
    Q = [s.Q] * s.M if np.isscalar(s.Q) else s.Q
    Qin = V.vec([V.real('Qin_%d' % j, lo=q - d, hi=q + d) for j, (q, d) in enumerate(zip(Q, dq))])
    us = {k: V.arr(np.array(v, dtype=float)) for k, v in s.u.items()}
    H0 = [e2e.fl(x) for x in m.H_j]
    m.step(H_bc=None if s.H_bc is None else V.arr(np.array(s.H_bc, dtype=float)), Q_in=Qin, Q_0Ik=V.arr(np.zeros(len(m._I))), dt=s.dt, **us)
    M = s.M
    w = View(m)
    z = e2e.fa(w._z_inv_j)
    top = np.array(s.sj.get('max_depth', [np.inf] * M), dtype=float)
    if s.kw.get('auto_permute'):
        top = top[np.array(m.permutations)]
    A = np.array([[e2e.fl(x) for x in r] for r in np.asarray(m.A)])
    for X in (m.O, m.W, m.P):
        if np.shape(X) == A.shape:
            A = A + np.array([[e2e.fl(x) for x in r] for r in np.asarray(X)])
    inv = np.linalg.inv(A)
    low = 0
    for j in range(M):
        raw = sum(float(inv[j, i]) * m.b[i] for i in range(M))
        V.check_le('head above the invert[%d]' % j, z[j] - 1e-9, m.H_j[j])
        x = z[j] if V.branch(raw <= z[j]) else raw
        if np.isfinite(top[j]):
            V.check_le('head below the maximum[%d]' % j, m.H_j[j], z[j] + top[j] + 1e-9)
            if V.branch(x >= z[j] + top[j]):
                x = z[j] + top[j]
        V.check_eq('head only cut back at the limits[%d]' % j, m.H_j[j], x, near=1e-6)
    kmax = s.sl.get('max_depth')
    for k, i1, iN, I1, IN in idx(m):
        for I in range(I1, IN + 1):
            V.check_le('depth not below the minimum[%d]' % I, w.min_depth, m._h_Ik[I])
            if kmax is not None and I1 < I < IN:
                V.check_le('depth not above the maximum[%d]' % I, m._h_Ik[I], kmax[k])
    V.observe('H0', m.H_j[0])
    V.observe('h0', m._h_Ik[1])


def _lim():
    from .e2e import Scn, T3, LOOP, sto
    P4 = ((0, 1), (1, 2), (2, 3))
    return {
        'dry': Scn('l_dry', 3, T3, nk=2, sj=dict(z=[1., .5, 0.], h0=[.5, .3, .6], a=0., b=0., c=[10., 8., 12.]), Q=[-2.2, -2.6, .1], warm=1),
        'full': Scn('l_full', 3, T3, nk=3, sj=dict(h0=1.2, max_depth=[.75, .695, 1.03], **sto(3)), sl=dict(max_depth=[.66, .64], dx_uk=5., dx_dk=6.), Q=[1.5, 1.2, 1.4], warm=4),
        'controls': Scn('l_ctrl', 4, P4, nk=2, sj=dict(h0=[1., .3, .8, .5], max_depth=[.93, 1.6, .55, .75], a=0., b=0., c=[10., 9., 11., 8.]), orifices=dict(pairs=[(0, 2), (3, 1)]),
                        weirs=dict(pairs=[(1, 3)]), pumps=dict(pairs=[(1, 0)]), u=dict(u_o=[.5, .8], u_w=[.7], u_p=[.6]), Q=[1.2, -.1, .5, .2], warm=2),
        'banded': Scn('l_band', 5, ((0, 3), (3, 1), (1, 4), (4, 2), (0, 1)), nk=2, sj=dict(h0=.9, a=[0.] * 5, b=0., c=[10., 12., 14., 16., 18.], z=[2.3, 1.5, .5, 1.9, 1.],
                      max_depth=[.4, 1.1, 1.05, .66, .63]), sl=dict(max_depth=[1., 1.1, 1.2, 1.05, .6]), auto_permute=True, Q=[1.4, .8, -2.6, 1.2, 1.5], warm=3),
        'dry_f': Scn('l_dryf', 3, T3, nk=3, sj=dict(z=[1., .5, 0.], h0=[.5, .3, .6], a=0., b=0., c=[10., 8., 12.]), sl=dict(max_depth=[.4, .39]), Q=[-2.2, -2.6, .1], warm=1, method='f'),
    }


class _Lazy(dict):
    def __missing__(self, k):
        self.update(_lim())
        return self[k]


LIM = _Lazy()
