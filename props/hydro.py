"""Hydraulic solver: manufactured-solution harnesses over nSuperLink's public methods.

A one-step solution (h*, Q*, H*) is chosen arbitrarily, the sources are defined so that it
solves the discrete equations, and the code's recurrences / matrix / back-substitution must
reproduce it - for every coefficient value.
"""
from .common import *

G = 9.81


def idx(m):
    """(k, first link, last link, first junction, last junction) of each superlink"""
    return [(k, int(m._i_1k[k]), int(m._i_1k[k] + m.nk[k] - 1), int(m._I_1k[k]), int(m._I_1k[k] + m.nk[k]))
            for k in range(m.NK)]


class Star:
    """arbitrary coefficients and a solution of the discrete superlink equations"""

    def __init__(self, V, m, forward=True):
        n, N, K = len(m._ik), len(m._I), m.NK
        self.A = V.reals('A', n, pos=True)
        self.a = V.reals('a', n, hi=0., box=(-2, 0))
        self.c = V.reals('c', n, hi=0., box=(-2, 0))
        self.b = V.reals('b', n, pos=True, box=(5, 20))
        self.E = V.reals('E', N, pos=True)
        self.h = V.reals('hs', N, box=(0.2, 1.5))
        self.Q = V.reals('Qs', n, box=(-3, 3))
        D = [None] * N
        P = [None] * n
        Qu, Qd = [None] * K, [None] * K
        E, h, Q, A = self.E, self.h, self.Q, self.A
        for k, i1, iN, I1, IN in idx(m):
            D[I1] = V.real('D_%d' % I1, box=(-3, 3))
            D[IN] = V.real('D_%d' % IN, box=(-3, 3))
            for j in range(1, iN - i1 + 1):
                D[I1 + j] = E[I1 + j] * h[I1 + j] + Q[i1 + j] - Q[i1 + j - 1]
            Qu[k] = Q[i1] + E[I1] * h[I1] - D[I1]
            Qd[k] = Q[iN] - E[IN] * h[IN] + D[IN]
            for i in range(i1, iN + 1):
                I = I1 + i - i1
                Qm = Qu[k] if i == i1 else Q[i - 1]
                Qp = Qd[k] if i == iN else Q[i + 1]
                P[i] = self.a[i] * Qm + self.b[i] * Q[i] + self.c[i] * Qp - G * A[i] * (h[I] - h[I + 1])
        self.D, self.P, self.Qu, self.Qd = V.vec(D), V.vec(P), V.vec(Qu), V.vec(Qd)

    def install(self, m):
        m._A_ik, m._a_ik, m._b_ik, m._c_ik, m._P_ik = self.A, self.a, self.b, self.c, self.P
        m._E_Ik, m._D_Ik = self.E, self.D


def recurrences(V, M, pairs, nks, end_method='b', key=None, fwd=True, bwd=True):
    """forward/backward recurrence relations hold between neighbouring depths and flows"""
    m = clone(V, superlink_model(key or 'rec%s%s%s' % (M, pairs, nks), M, pairs, nks=nks, end_method=end_method))
    s = Star(V, m)
    s.install(m)
    m.forward_recurrence()
    m.backward_recurrence()
    h, Q = s.h, s.Q
    for k, i1, iN, I1, IN in idx(m):
        if fwd:
            gen = []
            for i in range(i1, iN + 1):
                I = I1 + i - i1
                V.check_eq('forward[link %d]' % i, m._U_Ik[I] * h[I + 1] + m._V_Ik[I] + m._W_Ik[I] * h[I1], Q[i], gen=gen)
                if V.symbolic():
                    u, w = V.fresh('u'), V.fresh('w')
                    gen = [(m._V_Ik[I], Q[i] - u * h[I + 1] - w * h[I1]), (m._U_Ik[I], u), (m._W_Ik[I], w)]
        if bwd:
            gen = []
            for i in range(iN, i1 - 1, -1):
                I = I1 + i - i1
                V.check_eq('backward[link %d]' % i, m._X_Ik[I] * h[I] + m._Y_Ik[I] + m._Z_Ik[I] * h[IN], Q[i], gen=gen)
                if V.symbolic():
                    x, z = V.fresh('x'), V.fresh('z')
                    gen = [(m._Y_Ik[I], Q[i] - x * h[I] - z * h[IN]), (m._X_Ik[I], x), (m._Z_Ik[I], z)]


def end_flows(V, M=2, pairs=((0, 1),), nks=(2,), end_method='b', checks=('flow', 'depth')):
    """superlink flow coefficients, boundary flows and boundary depths solve the end equations"""
    m = clone(V, superlink_model('ends%s%s%s%s' % (M, pairs, nks, end_method), M, list(pairs), nks=list(nks), end_method=end_method))
    K, N = m.NK, len(m._I)
    real = lambda nm, n, **k: V.reals(nm, n, **k)
    m._X_Ik, m._Y_Ik, m._Z_Ik = real('X', N), real('Y', N), real('Z', N)
    m._U_Ik, m._V_Ik, m._W_Ik = real('U', N), real('Vr', N), real('W', N)
    m._E_Ik, m._D_Ik = real('E', N), real('D', N)
    hu, hd = real('hu', K), real('hd', K)
    H = real('H', m.M)
    m._kappa_uk, m._kappa_dk = real('ku', K), real('kd', K)
    m._lambda_uk, m._lambda_dk = real('lu', K), real('ld', K)
    mu_u, mu_d, Qu, Qd = [], [], [], []
    for k, i1, iN, I1, IN in idx(m):
        INm = IN - 1
        o = 0 if end_method == 'o' else 1
        qu = (m._X_Ik[I1] + o * m._E_Ik[I1]) * hu[k] + m._Y_Ik[I1] - o * m._D_Ik[I1] + m._Z_Ik[I1] * hd[k]
        qd = m._W_Ik[INm] * hu[k] + m._V_Ik[INm] + o * m._D_Ik[IN] + (m._U_Ik[INm] - o * m._E_Ik[IN]) * hd[k]
        ju, jd = int(m._J_uk[k]), int(m._J_dk[k])
        mu_u.append(hu[k] - m._kappa_uk[k] * qu - m._lambda_uk[k] * H[ju])
        mu_d.append(hd[k] - m._kappa_dk[k] * qd - m._lambda_dk[k] * H[jd])
        Qu.append(qu)
        Qd.append(qd)
    m._mu_uk, m._mu_dk = V.vec(mu_u), V.vec(mu_d)
    m.superlink_flow_coefficients()
    m.H_j = H
    m.solve_superlink_flows()
    if 'flow' in checks:
        for k in range(K):
            V.check_eq('upstream flow[%d]' % k, m._Q_uk[k], Qu[k])
            V.check_eq('downstream flow[%d]' % k, m._Q_dk[k], Qd[k])
    if 'depth' in checks:
        m._Q_uk, m._Q_dk = V.vec(Qu), V.vec(Qd)
        m.solve_superlink_depths()
        for k in range(K):
            V.check_eq('upstream depth[%d]' % k, m._h_uk[k], hu[k])
            V.check_eq('downstream depth[%d]' % k, m._h_dk[k], hd[k])


def internals_solve(V, nks=(3,), pairs=((0, 1),), M=2, method='b', bounds_only=False):
    """back-substitution returns the depths and flows of the recurrence relations"""
    m = clone(V, superlink_model('int%s%s%s' % (M, pairs, nks), M, list(pairs), nks=list(nks)))
    n, N, K = len(m._ik), len(m._I), m.NK
    m.min_depth = V.real('min_depth', lo=0., box=(0., 0.01))
    m.max_depth_k = V.reals('max_depth_k', K, box=(2., 5.))
    h, Q = V.reals('hs', N, box=(0.2, 1.5)), V.reals('Qs', n, box=(-3, 3))
    m._X_Ik, m._Z_Ik = V.reals('X', N, box=(0.5, 4)), V.reals('Z', N, box=(-4, -0.5))
    m._U_Ik, m._W_Ik = V.reals('U', N, box=(-4, -0.5)), V.reals('W', N, box=(0.5, 4))
    Y, Vr = [V.const(0.)] * N, [V.const(0.)] * N
    for k, i1, iN, I1, IN in idx(m):
        for i in range(i1, iN + 1):
            I = I1 + i - i1
            Y[I] = Q[i] - m._X_Ik[I] * h[I] - m._Z_Ik[I] * h[IN]
            Vr[I] = Q[i] - m._U_Ik[I] * h[I + 1] - m._W_Ik[I] * h[I1]
        for I in range(I1, IN + 1):
            V.assume(h[I] >= m.min_depth)
            V.assume(h[I] <= m.max_depth_k[k])
    m._Y_Ik, m._V_Ik = V.vec(Y), V.vec(Vr)
    m._h_uk = V.vec([h[I1] for k, i1, iN, I1, IN in idx(m)])
    m._h_dk = V.vec([h[IN] for k, i1, iN, I1, IN in idx(m)])
    m._h_Ik, m._Q_ik = V.reals('h_old', N), V.reals('Q_old', n)
    if method == 'lsq':
        for k, i1, iN, I1, IN in idx(m):
            for I in range(I1, IN):
                V.assume(m._X_Ik[I] >= 0.1, m._U_Ik[I] <= -0.1)
        V.expect_solution([[h[I] for I in range(I1 + 1, IN)] for k, i1, iN, I1, IN in idx(m)], 'least-squares system')
    {'b': m.solve_internals_backwards, 'f': m.solve_internals_forwards, 'lsq': m.solve_internals_lsq}[method]()
    for I in range(N):
        V.check_eq('depth[%d]' % I, m._h_Ik[I], h[I])
    for i in range(n):
        V.check_eq('flow[%d]' % i, m._Q_ik[i], Q[i])


# ------------------------------------------------------------------ coefficients
def set_state(m, **kw):
    m.states = dict(m.states)
    for k, v in kw.items():
        m.states[k] = v


def link_momentum(V, nks=(2, 1), pairs=((0, 1), (1, 2)), M=3, ctrl=False, damping=False, sf=0, dtarg=True):
    """velocities and momentum coefficients of every link"""
    m = clone(V, superlink_model('lm%s%s%s%s%s' % (M, pairs, nks, ctrl, damping), M, list(pairs), nks=list(nks),
                                 inertial_damping=damping))
    n = len(m._ik)
    A, R, dx, nn = V.reals('A', n, pos=True), V.reals('R', n, pos=True), V.reals('dx', n, pos=True), V.reals('n', n, pos=True, box=(0.01, 0.1))
    Q, Qp, So = V.reals('Q', n), V.reals('Qprev', n), V.reals('So', n, box=(-0.1, 0.1))
    C, Ac = V.reals('C', n, lo=0.), V.reals('Ac', n, pos=True)
    sg = V.reals('sigma', n, lo=0., hi=1.)
    dt = V.real('dt', pos=True)
    m._A_ik, m._R_ik, m._dx_ik, m._n_ik, m._Q_ik, m._S_o_ik = A, R, dx, nn, Q, So
    m._C_ik, m._A_c_ik, m._sigma_ik = C, Ac, sg
    set_state(m, Q_ik=Qp)
    ct = np.array([ctrl and (i % 2 == 0) for i in range(n)])
    m._ctrl = ct
    m._Sf_method_ik = np.array([sf] * n, dtype=np.int64)
    m.node_velocities()
    if dtarg:
        m.link_coeffs(_dt=dt)
    else:
        m._dt = dt
        m.link_coeffs()
    u = [Q[i] / A[i] for i in range(n)]
    for k, i1, iN, I1, IN in idx(m):
        for i in range(i1, iN + 1):
            # distance-weighted velocity at the two ends of the link
            uu = u[i] if i == i1 else (dx[i] * u[i - 1] + dx[i - 1] * u[i]) / (dx[i] + dx[i - 1])
            ud = u[i] if i == iN else (dx[i] * u[i + 1] + dx[i + 1] * u[i]) / (dx[i] + dx[i + 1])
            a = -V.max(uu, V.const(0.)) * sg[i]
            c = -V.max(-ud, V.const(0.)) * sg[i]
            V.check_eq('upwind inflow momentum[%d]' % i, m._a_ik[i], a)
            V.check_eq('upwind outflow momentum[%d]' % i, m._c_ik[i], c)
            fr = friction(V, sf, Q[i], dx[i], A[i], R[i], nn[i])
            loc = C[i] * A[i] * V.abs(Q[i]) / Ac[i] ** 2 if ct[i] else 0.
            V.check_eq('inertia, friction and losses[%d]' % i, m._b_ik[i] + m._a_ik[i] + m._c_ik[i], dx[i] / dt * sg[i] + fr + loc)
            V.check_eq('momentum source[%d]' % i, m._P_ik[i], Qp[i] * dx[i] / dt * sg[i] + G * A[i] * So[i] * dx[i])
            V.observe('b%d' % i, m._b_ik[i])


def friction(V, sf, Q, dx, A, R, n):
    if sf == 0:
        return G * n ** 2 * V.abs(Q) * dx / A / V.pow(R, 4 / 3)
    if sf == 1:
        return 1.354 * G * V.pow(V.abs(Q), 0.85) * dx / V.pow(A, 0.85) / V.pow(n, 1.85) / V.pow(R, 1.1655)
    raise KeyError(sf)


def node_continuity(V, nks=(3, 1), pairs=((0, 1), (1, 2)), M=3, inflow=True, dtarg=True):
    """storage and source coefficients of every internal junction"""
    m = clone(V, superlink_model('nc%s%s%s' % (M, pairs, nks), M, list(pairs), nks=list(nks)))
    n, N, K = len(m._ik), len(m._I), m.NK
    B, dx, As = V.reals('B', n, lo=0.), V.reals('dx', n, pos=True), V.reals('As', N, lo=0.)
    Bu, Bd, xu, xd = V.reals('Bu', K, lo=0.), V.reals('Bd', K, lo=0.), V.reals('xu', K, lo=0.), V.reals('xd', K, lo=0.)
    hp, hc, dt, q = V.reals('hprev', N), V.reals('hcur', N), V.real('dt', pos=True), V.reals('qin', N)
    m._B_ik, m._dx_ik, m._A_SIk, m._B_uk, m._B_dk, m._dx_uk, m._dx_dk = B, dx, As, Bu, Bd, xu, xd
    m._h_Ik = hc
    set_state(m, h_Ik=hp)
    if dtarg:
        m.node_coeffs(_Q_0Ik=q if inflow else None, _dt=dt)
    else:
        m._dt = dt
        m.node_coeffs(_Q_0Ik=q if inflow else None)
    for k, i1, iN, I1, IN in idx(m):
        for I in range(I1, IN + 1):
            left = Bu[k] * xu[k] if I == I1 else B[i1 + I - I1 - 1] * dx[i1 + I - I1 - 1]
            right = Bd[k] * xd[k] if I == IN else B[i1 + I - I1] * dx[i1 + I - I1]
            S = left / 2 + right / 2 + As[I]
            V.check_eq('storage of junction[%d]' % I, m._E_Ik[I] * dt, S)
            V.check_eq('source of junction[%d]' % I, m._D_Ik[I] * dt, S * hp[I] + (q[I] * dt if inflow else 0.))
            V.observe('E%d' % I, m._E_Ik[I])


def end_heads(V, method='z', K=2, dtarg=True):
    """head relation between a superjunction and the end of a superlink"""
    pairs = [(0, 1), (1, 2)][:K]
    M = K + 1
    m = clone(V, superlink_model('eh%s%s' % (method, K), M, pairs, nk=2, bc_method=method))
    H, zu, zd = V.reals('H', M), V.reals('zu', K), V.reals('zd', K)
    Au, Ad, Ru, Rd = [V.reals(x, K, pos=True) for x in ('Au', 'Ad', 'Ru', 'Rd')]
    nu, nd = V.reals('nu', K, pos=True, box=(0.01, 0.1)), V.reals('nd', K, pos=True, box=(0.01, 0.1))
    xu, xd, su, sd = V.reals('xu', K, lo=0.), V.reals('xd', K, lo=0.), V.reals('su', K, box=(-.1, .1)), V.reals('sd', K, box=(-.1, .1))
    Cu, Cd = V.reals('Cu', K, lo=0.), V.reals('Cd', K, lo=0.)
    Qu, Qd, Qup, Qdp = [V.reals(x, K) for x in ('Qu', 'Qd', 'Qup', 'Qdp')]
    qu, qd, dt = V.reals('qu', K), V.reals('qd', K), V.real('dt', pos=True)
    m.H_j, m._z_inv_uk, m._z_inv_dk, m._A_uk, m._A_dk, m._R_uk, m._R_dk = H, zu, zd, Au, Ad, Ru, Rd
    m._n_uk, m._n_dk, m._dx_uk, m._dx_dk, m._S_o_uk, m._S_o_dk, m._C_uk, m._C_dk = nu, nd, xu, xd, su, sd, Cu, Cd
    m._Q_uk, m._Q_dk = Qu, Qd
    m._theta_uk, m._theta_dk = V.reals('tu', K), V.reals('td', K)
    set_state(m, Q_uk=Qup, Q_dk=Qdp)
    if dtarg:
        m.superlink_upstream_head_coefficients(_dt=dt)
        m.superlink_downstream_head_coefficients(_dt=dt)
    else:
        m._dt = dt
        m.superlink_upstream_head_coefficients()
        m.superlink_downstream_head_coefficients()
    for k in range(K):
        ju, jd = int(m._J_uk[k]), int(m._J_dk[k])
        # depth at the end = (head above the end invert, if any) -/+ losses and inertia over the end reach
        up = V.where(H[ju] >= zu[k], H[ju] - zu[k], V.const(0.)) - Cu[k] * V.abs(Qu[k]) * qu[k] / (2 * G * Au[k] ** 2)
        dn = V.where(H[jd] >= zd[k], H[jd] - zd[k], V.const(0.)) + Cd[k] * V.abs(Qd[k]) * qd[k] / (2 * G * Ad[k] ** 2)
        if method == 'b':
            up = up - xu[k] / dt * (qu[k] - Qup[k]) / (G * Au[k]) - friction(V, 0, Qu[k], xu[k], Au[k], Ru[k], nu[k]) * qu[k] / (G * Au[k]) + xu[k] * su[k]
            dn = dn + xd[k] / dt * (qd[k] - Qdp[k]) / (G * Ad[k]) + friction(V, 0, Qd[k], xd[k], Ad[k], Rd[k], nd[k]) * qd[k] / (G * Ad[k]) - xd[k] * sd[k]
        V.check_eq('upstream end depth[%d]' % k, m._kappa_uk[k] * qu[k] + m._lambda_uk[k] * H[ju] + m._mu_uk[k], up)
        V.check_eq('downstream end depth[%d]' % k, m._kappa_dk[k] * qd[k] + m._lambda_dk[k] * H[jd] + m._mu_dk[k], dn)
        V.check('upstream connection[%d]' % k, V.where(H[ju] >= zu[k], m._theta_uk[k] == 1, m._theta_uk[k] == 0))
        V.check('downstream connection[%d]' % k, V.where(H[jd] >= zd[k], m._theta_dk[k] == 1, m._theta_dk[k] == 0))


# ------------------------------------------------------------------ superjunction balance
def balance(V, M=3, pairs=((0, 1), (1, 2)), bc=(), orifices=None, weirs=None, pumps=None, banded=False, inflow=True, dtarg=True,
            again=False, max_depth=None, sj=None, auto_permute=False):
    """the assembled system has the heads of the superjunction volume balance as its solution"""
    kw = {}
    for nm, v in (('orifices', orifices), ('weirs', weirs), ('pumps', pumps)):
        if v:
            kw[nm] = dict(pairs=list(v))
    m = clone(V, superlink_model('bal%s%s%s%s%s%s%s' % (M, pairs, bc, orifices, weirs, pumps, auto_permute), M, list(pairs), nk=2,
                                 sj=dict(bc=bc, **(sj or {})), auto_permute=auto_permute, **kw))
    K = m.NK
    dt = V.real('dt', pos=True)

    def coeffs(tag, **k):
        m._alpha_uk, m._alpha_dk = V.reals('au' + tag, K, **k), V.reals('ad' + tag, K, **k)
        m._beta_uk, m._beta_dk = V.reals('bu' + tag, K, **k), V.reals('bd' + tag, K, **k)
        m._chi_uk, m._chi_dk = V.reals('cu' + tag, K, **k), V.reals('cd' + tag, K, **k)
        for nm, n in (('o', m.n_o), ('w', m.n_w), ('p', m.n_p)):
            if n:
                for c in ('alpha', 'beta', 'chi'):
                    setattr(m, '_%s_%s' % (c, nm), V.reals(c + nm + tag, n, **k))
    m._dx_uk, m._dx_dk, m._B_uk, m._B_dk = [V.reals(x, K, lo=0.) for x in ('xu', 'xd', 'Bu', 'Bd')]
    m._theta_uk, m._theta_dk = [V.reals(x, K, lo=0., hi=1.) for x in ('tu', 'td')]
    m._A_sj = V.reals('Asj', M, lo=0., box=(20, 60))
    Hp, Hs = V.reals('Hprev', M), V.reals('Hstar', M)
    zj = V.reals('zinv', M, box=(-9, -6))
    m._z_inv_j = zj
    md = V.reals('max_depth', M, pos=True, box=(1, 30)) if max_depth else m.max_depth
    m.max_depth = md
    set_state(m, H_j=Hp)
    m.H_j = V.reals('Hiter', M)
    if again:
        coeffs('_old', box=(-1, 1))
        m.sparse_matrix_equations(H_bc=V.reals('Hbc_old', M), _Q_0j=V.reals('Qin_old', M), _dt=dt)
    coeffs('', box=(-1, 1))
    net = [V.const(0.)] * M
    flows = []
    for k in range(K):
        ju, jd = int(m._J_uk[k]), int(m._J_dk[k])
        qu = m._alpha_uk[k] * Hs[ju] + m._beta_uk[k] * Hs[jd] + m._chi_uk[k]
        qd = m._alpha_dk[k] * Hs[ju] + m._beta_dk[k] * Hs[jd] + m._chi_dk[k]
        net[ju] = net[ju] - qu
        net[jd] = net[jd] + qd
        # water stored over half of the end reach when the superjunction is connected
        net[ju] = net[ju] - m._theta_uk[k] * m._dx_uk[k] * m._B_uk[k] / 2 * (Hs[ju] - Hp[ju]) / dt
        net[jd] = net[jd] - m._theta_dk[k] * m._dx_dk[k] * m._B_dk[k] / 2 * (Hs[jd] - Hp[jd]) / dt
        flows.append((qu, qd))
    for nm, n in (('o', m.n_o), ('w', m.n_w), ('p', m.n_p)):
        for i in range(n):
            ju, jd = int(getattr(m, '_J_u' + nm)[i]), int(getattr(m, '_J_d' + nm)[i])
            q = getattr(m, '_alpha_' + nm)[i] * Hs[ju] + getattr(m, '_beta_' + nm)[i] * Hs[jd] + getattr(m, '_chi_' + nm)[i]
            net[ju] = net[ju] - q
            net[jd] = net[jd] + q
    isbc = [bool(x) for x in m.bc]
    Qin, Hbc = [], []
    for j in range(M):
        Qin.append((m._A_sj[j] * (Hs[j] - Hp[j]) / dt - net[j]) if not isbc[j] else V.real('Qin_%d' % j))
        Hbc.append(Hs[j] if isbc[j] else V.real('Hbc_%d' % j))
    if not inflow:
        # no external inflow: the old head is what balances
        raise NotImplementedError
    if dtarg:
        m.sparse_matrix_equations(H_bc=V.vec(Hbc), _Q_0j=V.vec(Qin), _dt=dt)
    else:
        m._dt = dt
        m.sparse_matrix_equations(H_bc=V.vec(Hbc), _Q_0j=V.vec(Qin))
    V.expect_solution(list(Hs), 'system')
    (m.solve_banded_matrix if banded else m.solve_sparse_matrix)()
    V.expect_solution(None, '')
    for j in range(M):
        e = V.max(Hs[j], zj[j])
        if max_depth:
            e = V.min(e, zj[j] + md[j])
        V.check_eq('head[%d]' % j, m.H_j[j], e)
    # reported boundary flows are those of the balance
    m.H_j = Hs
    m.solve_superlink_flows()
    for k in range(K):
        V.check_eq('outflow of upstream superjunction[%d]' % k, m._Q_uk[k], flows[k][0])
        V.check_eq('inflow of downstream superjunction[%d]' % k, m._Q_dk[k], flows[k][1])
