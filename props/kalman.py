"""Data assimilation."""
from .sim import *


def mat(rows):
    return [list(r) for r in rows]


def mul(A, B):
    return [[sum((a[k] * B[k][j] for k in range(1, len(B))), a[0] * B[0][j]) for j in range(len(B[0]))] for a in A]


def tr(A):
    return [list(c) for c in zip(*A)]


def add(A, B, s=1.):
    return [[x + s * y for x, y in zip(r, q)] for r, q in zip(A, B)]


def put(V, A):
    o = V.arr(np.zeros((len(A), len(A[0]))))
    for i, r in enumerate(A):
        for j, v in enumerate(r):
            o[i, j] = v
    return o


def inv(A):
    if len(A) == 1:
        return [[1 / A[0][0]]]
    (a, b), (c, d) = A
    t = a * d - b * c
    return [[d / t, -b / t], [-c / t, a / t]]


def posterior(Z, P, A1, A2, b, H, C, Q, R):
    """textbook update: prediction, innovation, gain"""
    F = mul(inv(A1), A2)
    x = mul(inv(A1), [[v] for v in b])
    Pm = add(mul(mul(F, P), tr(F)), mul(mul(C, Q), tr(C)))
    S = add(mul(mul(H, Pm), tr(H)), R)
    K = mul(mul(Pm, tr(H)), inv(S))
    xp = add(x, mul(K, add([[z] for z in Z], mul(H, x), -1.)))
    Pp = add(Pm, mul(mul(K, H), Pm), -1.)
    return mul(A1, xp), Pp, S


def sym_mat(V, name, n, diag=False):
    """positive definite by diagonal dominance"""
    o = [[V.const(0.)] * n for _ in range(n)]
    for i in range(n):
        o[i][i] = V.real('%s_%d' % (name, i), lo=1., hi=4.)
        for j in range(i):
            if not diag:
                o[i][j] = o[j][i] = V.real('%s_%d%d' % (name, i, j), lo=-.5, hi=.5)
    return o


def update(V, M=2, obs=1, SR=False, free=('Z', 'P', 'b'), a=2):
    from pipedream_solver import nutils
    f = nutils._square_root_kalman_semi_implicit if SR else nutils._kalman_semi_implicit

    def c(x):
        return [[V.const(v) for v in r] for r in x]
    A1 = c([[4., -1.], [-.5, 2.]] if M == 2 else [[4.]])
    A2 = c([[2., 0.], [0., .5]] if M == 2 else [[2.]])
    if 'A' in free:
        A1 = [[V.real('A1_%d%d' % (i, j), lo=3. if i == j else -1., hi=5. if i == j else 1.) for j in range(M)] for i in range(M)]
        A2 = [[V.real('A2_%d' % i, pos=True, box=(1, 3)) if i == j else V.const(0.) for j in range(M)] for i in range(M)]
    H = c(([[1., .5]] if obs == 1 else [[1., .5], [0., 1.]]) if M == 2 else [[1.]])
    C = c(([[1., 0.], [.5, 2.]] if a == 2 else [[1.], [.5]]) if M == 2 else [[.5]])
    a = len(C[0])
    P = sym_mat(V, 'P', M) if 'P' in free else c([[4., 1.], [1., 2.]][:M])
    Q = sym_mat(V, 'Q', a) if 'Q' in free else c([[2., .5], [.5, 1.]] if a == 2 else [[2.]])
    R = sym_mat(V, 'R', obs) if 'R' in free else c([[.5, .25], [.25, 1.]] if obs == 2 else [[.5]])
    P = [r[:M] for r in P]
    near = None if 'P' in free or 'Q' in free else 1e-8
    lim = dict(lo=-10., hi=10.) if near else dict(box=(-3, 3))
    Z, b = V.reals('Z', obs, **lim), V.reals('b', M, **lim)
    if 'H' in free:
        H = [[V.real('H_%d%d' % (i, j), box=(-2, 2)) for j in range(M)] for i in range(obs)]
    out = f(Z, put(V, P), put(V, A1), put(V, A2), b, put(V, H), put(V, C), put(V, Q), put(V, R))
    V.check('three results', len(out) == 3)
    bh, Pp, S = posterior(list(Z), P, A1, A2, list(b), H, C, Q, R)
    for i in range(M):
        V.check_eq('right-hand side of the corrected state[%d]' % i, out[0][i], bh[i][0], near=near)
        for j in range(M):
            V.check_eq('error covariance[%d,%d]' % (i, j), out[1][i, j], Pp[i][j], near=near)
    for i in range(obs):
        for j in range(obs):
            V.check_eq('innovation covariance[%d,%d]' % (i, j), out[2][i, j], S[i][j], near=near)


def nums(A):
    return [[fl(v) for v in r] for r in np.asarray(A, dtype=object)]


def assimilate(V, scn, seen=(0,), SR=False, own=True):
    """correcting the heads of a step with observations"""
    from pipedream_solver.simulation import Simulation
    s = SCN[scn]

    def after(m, p, Qin, q0, Hbc):
        M = m.M
        Hs = np.zeros((len(seen), M))
        for i, j in enumerate(seen):
            Hs[i, j] = 1.
        Qc, Rc, P0 = np.diag([1. + .5 * j for j in range(M)]), .25 * np.eye(len(seen)), .5 * np.eye(M) + .125
        Cc = np.diag([1., .5] * 3)[:M, :M]
        t, n = m.t, m.iter_count
        prior = [v for v in m.H_j]
        A1 = nums(m.A)
        for k in 'OWP':
            if getattr(m, 'n_' + k.lower()):
                A1 = add(A1, nums(getattr(m, k)))
        bc = [bool(b) for b in m.bc]
        As = fa(m._A_sj)
        A2 = np.diag([0. if bc[j] else As[j] / s.dt for j in range(M)])
        Z = V.vec([V.real('Z_%d' % i, lo=fl(p.H[j]) - .05, hi=fl(p.H[j]) + .05) for i, j in enumerate(seen)])
        with npshim.native():
            F = np.linalg.inv(np.array(A1)) @ A2
            Pm = F @ P0 @ F.T + Cc @ Qc @ Cc.T
            S = Hs @ Pm @ Hs.T + Rc
            K = Pm @ Hs.T @ np.linalg.inv(S)
            Pp = Pm - K @ Hs @ Pm
        us = {k: V.arr(np.array(v, dtype=float)) for k, v in s.u.items()}
        if own:
            sim = Simulation(m, Qcov=V.arr(Qc), Rcov=V.arr(Rc), C=V.arr(Cc), H=V.arr(Hs), Pxx=V.arr(P0), dt=s.dt)
            sim.kalman_filter(Z, SR=SR, **us)
        else:
            sim = Simulation(m)
            sim.kalman_filter(Z, H=V.arr(Hs), C=V.arr(Cc), Qcov=V.arr(Qc), Rcov=V.arr(Rc), P_x_k_k=V.arr(P0), dt=s.dt, SR=SR, **us)
        V.check_eq('time', m.t, t)
        V.check('number of steps', m.iter_count == n)
        for j in range(M):
            x = prior[j]
            for i, q in enumerate(seen):
                x = x + float(K[j, i]) * (Z[i] - prior[q])
            V.check_eq('corrected head[%d]' % j, m.H_j[j], x, near=1e-6)
            for i in range(M):
                V.check_eq('error covariance[%d,%d]' % (i, j), sim.P_x_k_k[i, j], float(Pp[i, j]), near=1e-6)
        for i in range(len(seen)):
            for j in range(len(seen)):
                V.check_eq('innovation covariance[%d,%d]' % (i, j), sim.P_zz[i, j], float(S[i, j]), near=1e-6)
    laws(V, s, ('momentum', 'continuity', 'ends'), after=after)


def state_space(V, scn):
    """the linear system that is handed out reproduces the step"""
    s = SCN[scn]

    def after(m, p, Qin, q0, Hbc):
        A1, A2, D, H1, H0, Q = m.state_space_system(_dt=s.dt)
        B1, B2, b = m._semi_implicit_system(_dt=s.dt)
        bc = [bool(x) for x in m.bc]
        for i in range(m.M):
            lhs = sum((A1[i, j] * H1[j] for j in range(1, m.M)), A1[i, 0] * H1[0])
            V.check_eq('head after the step[%d]' % i, H1[i], m.H_j[i])
            V.check_eq('head before the step[%d]' % i, H0[i], float(p.H[i]), near=1e-9)
            for j in range(m.M):
                V.check_eq('left matrices agree[%d,%d]' % (i, j), A1[i, j], B1[i, j])
                V.check_eq('right matrices agree[%d,%d]' % (i, j), A2[i, j], B2[i, j])
            V.check_eq('right-hand side[%d]' % i, lhs, b[i], near=1e-6)
            if bc[i]:
                V.check_eq('prescribed head[%d]' % i, lhs, Hbc[i], near=1e-6)
                continue
            V.check_eq('inflow[%d]' % i, Q[i], Qin[i])
            rhs = sum((A2[i, j] * H0[j] for j in range(1, m.M)), A2[i, 0] * H0[0]) + D[i] + Qin[i]
            V.check_eq('head system[%d]' % i, lhs, rhs, near=1e-6)
    laws(V, s, (), after=after)


def forms(V, what, how):
    """covariances and matrices given as number, vector, matrix or not at all"""
    from pipedream_solver.simulation import Simulation
    m = clone(V, superlink_model('kform', 3, T3, nk=1))
    M = 3
    q = V.reals('q', M, lo=.5, hi=4.)
    if how == 'none':
        arg, want = None, [[0.] * M for _ in range(M)] if what in ('Qcov', 'Rcov') else [[1. if i == j else 0. for j in range(M)] for i in range(M)]
    elif how == 'number':
        arg, want = q[0], [[q[0] if i == j else 0. for j in range(M)] for i in range(M)]
    elif how == 'vector':
        arg, want = q, [[q[i] if i == j else 0. for j in range(M)] for i in range(M)]
    else:
        want = [[q[i] + (0. if i == j else 1.) * q[j] for j in range(M)] for i in range(M)]
        arg = put(V, want)
    kw = {what: arg}
    qc = put(V, [[2., .5, 0.], [.5, 1., 0.], [0., 0., 3.]])
    if what == 'C':
        kw['Qcov'] = qc
    sim = Simulation(m, **kw)
    for i in range(M):
        for j in range(M):
            V.check_eq('%s[%d,%d]' % (what, i, j), getattr(sim, what)[i, j], want[i][j])
    if what in ('Qcov', 'C'):
        w = want if what == 'Qcov' else mul(mul(want, [[2., .5, 0.], [.5, 1., 0.], [0., 0., 3.]]), tr(want))
        for i in range(M):
            for j in range(M):
                V.check_eq('first error covariance[%d,%d]' % (i, j), sim.P_x_k_k[i, j], w[i][j])
