"""Water quality: one step of advection, diffusion and reaction on a concrete flow field, arbitrary concentrations."""
from .common import *
from . import geom
from .e2e import Scn, T3, LOOP, sto, fl, fa


def wq_tables(s, m, K=0., D=0.1, Kj=None, bc=(), Du=None, Dd=None, c0=1., links=False):
    P = pd()
    col = lambda v, n: list(v) if isinstance(v, (list, tuple, np.ndarray)) else [v] * n
    sj = P.DataFrame(dict(K=col(K if Kj is None else Kj, m.M), c_0=col(c0, m.M), bc=[j in bc for j in range(m.M)]))
    d = dict(K=col(K, m.NK), D=col(D, m.NK), c_0=col(c0, m.NK), KF_obs_point=[1] * m.NK, KF_process_sigma=[.2] * m.NK, KF_measure_sigma=[.3] * m.NK)
    if Du is not None:
        d['D_uk'], d['D_dk'] = col(Du, m.NK), col(Dd, m.NK)
    out = dict(superjunction_params=sj, superlink_params=P.DataFrame(d))
    if links:
        n, N = len(m._ik), len(m._I)
        out['link_params'] = P.DataFrame(dict(K=[1e-3 * (i + 1) for i in range(n)], D=[.1 + .02 * i for i in range(n)], c_0=[1. + i for i in range(n)]))
        out['junction_params'] = P.DataFrame(dict(K=[2e-3 * (i + 1) for i in range(N)], D=[.1] * N, c_0=[.5 + i for i in range(N)]))
    return out


class WQ:
    """scenario: flow field and water quality tables"""
    def __init__(self, scn, c_max=None, iters=1, after=1, lat='both', **tab):
        self.s, self.tab, self.c_max, self.iters, self.after, self.lat = scn, tab, c_max, iters, after, lat

    def make(self):
        s = self.s

        def mk():
            m = copy.deepcopy(s.model())
            from pipedream_solver.nquality import QualityBuilder
            kw = dict(wq_tables(s, m, **self.tab))
            if self.c_max is not None:
                kw['c_min'], kw['c_max'] = self.c_max
            w = QualityBuilder(m, **kw)
            q = np.array(s.Q if not np.isscalar(s.Q) else [s.Q] * s.M, dtype=float)
            for a in range(self.after):
                m.step(H_bc=None if s.H_bc is None else np.array(s.H_bc, dtype=float), Q_in=q * (1.3 - .1 * a), Q_0Ik=0.01 * np.sin(1. + np.arange(len(m._I)) + a) + (.012 if self.lat == 'in' else 0.),
                       dt=s.dt, num_iter=self.iters, **{k: np.array(v, dtype=float) for k, v in s.u.items()})
            return m, w
        return build('wq_%s_%s_%s_%s_%s_%s' % (s.key, self.iters, self.after, self.lat, self.c_max, sorted(self.tab.items())), mk)


def start(V, w, box=(1., 10.), few=False):
    """copies of model and quality model with arbitrary concentrations"""
    m, q = w.make()
    m = copy.deepcopy(m)
    q = clone(V, q)
    q.hydraulics = m
    n, N, K, M = len(m._ik), len(m._I), m.NK, m.M

    def R(nm, k):
        if few and ('_0' in nm or nm == 'c_bc'):
            return V.vec([V.const(float(few))] * k)
        return V.vec([V.real('%s_%d' % (nm, i) if not few else 'old', lo=box[0], hi=box[1]) for i in range(k)])

    c = dict(j=R('c_j', M), I=R('c_I', N), i=R('c_i', n), u=R('c_u', K), d=R('c_d', K), in_j=R('c_0j', M), in_I=R('c_0I', N), bc=R('c_bc', M))
    q._c_j, q._c_Ik, q._c_ik, q._c_uk, q._c_dk = [V.vec(list(c[k])) for k in ('j', 'I', 'i', 'u', 'd')]
    return m, q, c


class Field:
    """the flow field of the step, from the state before and after it"""
    def __init__(self, m, s):
        m = View(m)
        st = m.states
        self.H, self.h, self.Q = fa(m.H_j), fa(m.h_Ik), fa(m.Q_ik)
        self.Hp, self.hp = fa(st['H_j']), fa(st['h_Ik'])
        self.Qu, self.Qd = fa(m.Q_uk), fa(m.Q_dk)
        self.dx, self.xu, self.xd = fa(m._dx_ik), fa(m._dx_uk), fa(m._dx_dk)
        n, K = len(m._ik), m.NK
        shape = [str(x) for x in m._shape_ik]
        g = np.array([fa(getattr(m, '_g%d_ik' % i)) for i in range(1, 8)]).T
        B, Bu, Bd = fa(m._B_ik), fa(m._B_uk), fa(m._B_dk)
        dt = s.dt
        self.A, self.Ap, self.qu, self.qd = [np.zeros(n) for _ in range(4)]
        for i in range(n):
            I = int(m._Ik[i])
            self.A[i] = geom.full(shape[i], (self.h[I] + self.h[I + 1]) / 2, g[i])[0]
            self.Ap[i] = geom.full(shape[i], (self.hp[I] + self.hp[I + 1]) / 2, g[i])[0]
            # what passes the two ends of a link: its flow and what half of it stores
            self.qu[i] = self.Q[i] + B[i] * self.dx[i] / 2 * (self.h[I] - self.hp[I]) / dt
            self.qd[i] = self.Q[i] - B[i] * self.dx[i] / 2 * (self.h[I + 1] - self.hp[I + 1]) / dt
        z = lambda: np.zeros(K)
        self.end = dict(u=dict(A=z(), Ap=z(), up=z(), dn=z()), d=dict(A=z(), Ap=z(), up=z(), dn=z()))
        for k in range(K):
            i1, N = int(m._i_1k[k]), int(m.nk[k])
            I1 = int(m._I_1k[k])
            for t, j, zi, i, I, x, b, q in (('u', int(m._J_uk[k]), fl(m._z_inv_uk[k]), i1, I1, self.xu[k], Bu[k], self.Qu[k]),
                                            ('d', int(m._J_dk[k]), fl(m._z_inv_dk[k]), i1 + N - 1, I1 + N, self.xd[k], Bd[k], self.Qd[k])):
                e = self.end[t]
                e['A'][k] = geom.full(shape[i], (self.h[I] + max(self.H[j] - zi, 0.)) / 2, g[i])[0]
                e['Ap'][k] = geom.full(shape[i], (self.hp[I] + max(self.Hp[j] - zi, 0.)) / 2, g[i])[0]
                dj, dI = b * x / 2 * (self.H[j] - self.Hp[j]) / dt, b * x / 2 * (self.h[I] - self.hp[I]) / dt
                e['up'][k] = q + (dj if t == 'u' else dI)
                e['dn'][k] = q - (dI if t == 'u' else dj)


def laws(V, w, box=(1., 10.), few=False, tol=1e-7, dtarg=True, inflow=True, flows=True):
    s = w.s
    m, q, c = start(V, w, box, few)
    hyd, m = copy.deepcopy(m), View(m)
    dt = s.dt
    f = Field(m, s)
    kw = {}
    if dtarg:
        kw['dt'] = dt
    if inflow:
        kw.update(c_0j=c['in_j'], c_0Ik=c['in_I'], c_bc=c['bc'])
    else:
        c['in_j'], c['in_I'], c['bc'] = [0.] * m.M, [0.] * len(m._I), list(c['j'])
    q.step(**kw)
    lo, hi = (0., None) if w.c_max is None else w.c_max
    cj, cI, ci, cu, cd = [list(getattr(q, x)) for x in ('c_j', 'c_Ik', 'c_ik', 'c_uk', 'c_dk')]
    for nm, xs in (('superjunction', cj), ('junction', cI), ('link', ci), ('upstream end', cu), ('downstream end', cd)):
        for a, x in enumerate(xs):
            V.check_le('not below the minimum: %s[%d]' % (nm, a), lo, x)
            if hi is not None:
                V.check_le('not above the maximum: %s[%d]' % (nm, a), x, hi)
    inside = [x > lo + 1e-9 for x in cj + cI + ci + cu + cd] + ([] if hi is None else [x < hi - 1e-9 for x in cj + cI + ci + cu + cd])
    free = V.branch(V.and_(*inside))       # nothing is cut back to the limits
    n, N, K, M = len(m._ik), len(m._I), m.NK, m.M
    tb = wq_tables(s, m, **w.tab)
    sl, sj = tb['superlink_params'], tb['superjunction_params']
    Kj, bc = sj['K'].values, sj['bc'].values
    kof_i = [k for k in range(K) for _ in range(int(m.nk[k]))]
    kof_I = [k for k in range(K) for _ in range(int(m.nk[k]) + 1)]
    # links and junctions of the hydraulic model are numbered superlink by superlink
    col = lambda t, key, idx: [float(t[key].values[a]) for a in idx]
    if 'link_params' in tb:
        Di, Ki = list(tb['link_params']['D'].values), list(tb['link_params']['K'].values)
        KI = list(tb['junction_params']['K'].values)
    else:
        Di, Ki, KI = col(sl, 'D', kof_i), col(sl, 'K', kof_i), col(sl, 'K', kof_I)
    Du = col(sl, 'D_uk' if 'D_uk' in sl else 'D', range(K))
    Dd = col(sl, 'D_dk' if 'D_dk' in sl else 'D', range(K))

    def flux(Q, a, b, D, A, dx):
        """transport from a to b, whose centres are half a length apart"""
        return (a * Q if Q > 0 else b * Q) + 2 * D * A / dx * (a - b)

    def eq(name, lhs, rhs, scale):
        if free:
            V.check_eq(name, lhs, rhs, near=tol * scale)

    def stored(new, old, cn, co, Kr):
        """new * (cn - co) + (new - old) * cn, per time, plus what reacts"""
        return (new * (cn - co) + (new - old) * cn) / dt + Kr * new * cn

    net = [m._Q_in[j] * c['in_j'][j] if flows else 0. for j in range(M)]
    for k in range(K):
        i1, Nk, I1 = int(m._i_1k[k]), int(m.nk[k]), int(m._I_1k[k])
        u, d = int(m._J_uk[k]), int(m._J_dk[k])
        eu, ed = f.end['u'], f.end['d']
        Fu = [flux(eu['up'][k], cj[u], cu[k], Du[k], eu['A'][k], f.xu[k]), flux(eu['dn'][k], cu[k], cI[I1], Du[k], eu['A'][k], f.xu[k])]
        Fd = [flux(ed['up'][k], cI[I1 + Nk], cd[k], Dd[k], ed['A'][k], f.xd[k]), flux(ed['dn'][k], cd[k], cj[d], Dd[k], ed['A'][k], f.xd[k])]
        eq('upstream end[%d]' % k, stored(eu['A'][k] * f.xu[k], eu['Ap'][k] * f.xu[k], cu[k], c['u'][k], 0.), Fu[0] - Fu[1], 1 + abs(eu['up'][k]))
        eq('downstream end[%d]' % k, stored(ed['A'][k] * f.xd[k], ed['Ap'][k] * f.xd[k], cd[k], c['d'][k], 0.), Fd[0] - Fd[1], 1 + abs(ed['up'][k]))
        F = [[flux(f.qu[i], cI[I], ci[i], Di[i], f.A[i], f.dx[i]), flux(f.qd[i], ci[i], cI[I + 1], Di[i], f.A[i], f.dx[i])]
             for i, I in ((i1 + a, I1 + a) for a in range(Nk))]
        for a in range(Nk):
            i = i1 + a
            V_, Vp = f.A[i] * f.dx[i], f.Ap[i] * f.dx[i]
            eq('link[%d]' % i, stored(V_, Vp, ci[i], c['i'][i], Ki[i]), F[a][0] - F[a][1], 1 + V_ / dt)
        for a in range(Nk + 1):
            I = I1 + a
            As = fl(m._A_SIk[I])
            into = Fu[1] if a == 0 else F[a - 1][1]
            out = Fd[0] if a == Nk else F[a][0]
            eq('junction[%d]' % I, stored(As * f.h[I], As * f.hp[I], cI[I], c['I'][I], KI[I]), into - out + fl(m._Q_0Ik[I]) * c['in_I'][I], 1 + abs(f.Q).max())
        net[u] = net[u] - Fu[0]
        net[d] = net[d] + Fd[1]
    for t, num in (('o', m.n_o), ('w', m.n_w), ('p', m.n_p)):
        for a in range(num):
            u, d = int(getattr(m, '_J_u' + t)[a]), int(getattr(m, '_J_d' + t)[a])
            Q = fl(getattr(m, 'Q_' + t)[a])
            fx = cj[u] * Q if Q > 0 else cj[d] * Q
            net[u] = net[u] - fx
            net[d] = net[d] + fx
    z = fa(m._z_inv_j)
    for j in range(M):
        if bc[j]:
            V.check_eq('prescribed concentration[%d]' % j, cj[j], V.min(V.max(c['bc'][j], lo), hi) if hi is not None else V.max(c['bc'][j], lo), near=1e-9)
            continue
        A = fl(m._A_sj[j])
        eq('superjunction[%d]' % j, stored(A * (f.H[j] - z[j]), A * (f.Hp[j] - z[j]), cj[j], c['j'][j], float(Kj[j])), net[j], 1 + A * (f.H[j] - z[j]) / dt)
    # the flow field belongs to the hydraulic model
    for k in ('H_j', '_h_Ik', '_Q_ik', '_Q_uk', '_Q_dk', '_A_ik', '_B_ik'):
        V.check('hydraulic model unchanged: ' + k, bool(np.array_equal(fa(getattr(m, k)), fa(getattr(hyd, k)))))
    V.observe('c0', cj[0])
    V.observe('ci0', ci[0])


def near(V, a, b, tol):
    return V.and_(a - b <= tol, b - a <= tol)


def bounded(V, w, box=(2., 7.), tol=1e-6):
    """without reaction, concentrations stay within the range of before and of what flows in"""
    m, q, c = start(V, w, box)
    q.step(dt=w.s.dt, c_0j=c['in_j'], c_0Ik=c['in_I'], c_bc=c['bc'])
    for nm in ('c_j', 'c_Ik', 'c_ik', 'c_uk', 'c_dk'):
        for a, x in enumerate(getattr(q, nm)):
            V.check_le('%s[%d] above the smallest' % (nm, a), box[0] - tol, x)
            V.check_le('%s[%d] below the largest' % (nm, a), x, box[1] + tol)
    V.observe('c0', q.c_j[0])


def uniform(V, w, lo=2., hi=7.):
    """a uniform concentration in the network and in what flows in stays"""
    m, q, c = start(V, w, (2., 7.))
    x = V.real('c', lo=lo, hi=hi)
    full = lambda k: V.vec([x] * k)
    q._c_j, q._c_Ik, q._c_ik, q._c_uk, q._c_dk = [full(len(c[k])) for k in ('j', 'I', 'i', 'u', 'd')]
    q.step(dt=w.s.dt, c_0j=full(m.M), c_0Ik=full(len(m._I)), c_bc=full(m.M))
    for nm in ('c_j',):
        V.check_eq('uniform concentration %s' % nm, getattr(q, nm), full(len(getattr(q, nm))), near=1e-6)
    V.observe('c0', q.c_j[0])


def kalman(V, w, corr=0, box=(3., 8.), zbox=(3., 8.), steps=1, mode=2, obs=1):
    """prediction plus gain times innovation; gain and covariance of the Kalman filter
    mode 2: the estimate replaces the concentrations; 1: artificial observation, the concentrations are left; 0: transition only"""
    m, q, c = start(V, w, box)
    M = m.M
    q._c_j_prev_kf = V.vec(list(c['j']))
    q.x_hat = V.vec(list(c['j']))
    q.Observation_point = obs
    P0 = np.array([[.5 if a == b else .1 / (1 + abs(a - b)) for a in range(M)] for b in range(M)])
    q.P_k = V.arr(P0)
    dt = w.s.dt
    tb = wq_tables(w.s, m, **w.tab)
    bc = tb['superjunction_params']['bc'].values
    sp, sm = .2, .3
    Q = sp ** 2 * (np.ones((M, M)) if corr else np.eye(M))
    est = list(c['j'])
    for t in range(steps):
        z = V.real('z%d' % t if t else 'z', lo=zbox[0], hi=zbox[1])
        before = list(q.c_j)
        q.step(dt=dt, c_0j=c['in_j'], c_0Ik=c['in_I'], c_bc=c['bc'])
        pred = list(q.c_j)
        L = np.array([[fl(x) for x in r] for r in q.A_L_kf])
        f = Field(m, w.s)
        Vn = fa(m._A_sj) * (f.H - fa(m._z_inv_j))
        A = np.linalg.solve(L, np.diag(np.where(bc, 0., Vn / dt)))
        tag = ' %d' % t if t else ''
        # the prediction from the estimate; the inflow acts on it as it does on the concentrations
        xp = [pred[j] + sum(A[j, i] * (est[i] - before[i]) for i in range(M)) for j in range(M)]
        plain = V.branch(V.and_(*[x >= 1e-9 for x in pred]))        # nothing was cut back in the prediction
        if mode == 0:
            Ak, Bk = q.KF_Multi_WQ(dt)
            for j in range(M):
                for i in range(M):
                    V.check_eq('transition[%d,%d]%s' % (j, i, tag), Ak[j][i], A[j, i], near=1e-9)
                if plain:
                    V.check_eq('transition of the concentrations[%d]%s' % (j, tag), sum(Ak[j][i] * before[i] for i in range(M)) + Bk[j], pred[j], near=1e-6)
                V.check_eq('concentration kept[%d]%s' % (j, tag), q.c_j[j], pred[j])
            est = list(pred)
            continue
        P = A @ P0 @ A.T + Q
        o = obs
        Kg = P[:, o] / (P[o, o] + sm ** 2)
        P0 = P - np.outer(Kg, P[o])
        if mode == 2:
            q.Kalman_Filter_WQ2(z, dt, corr)
        else:
            keep = np.random.randn
            np.random.randn = lambda *a: (z - pred[o]) / sm
            try:
                q.Kalman_Filter_WQ1(dt)
            finally:
                np.random.randn = keep
            for j in range(M):
                V.check_eq('concentration kept[%d]%s' % (j, tag), q.c_j[j], pred[j])
        for j in range(M):
            x = xp[j] + Kg[j] * (z - xp[o])
            if plain:
                V.check_eq('corrected concentration[%d]%s' % (j, tag), q.x_hat[j], x if V.branch(x >= 0.) else 0., near=1e-6)
            if mode == 2:
                V.check_eq('estimate[%d]%s' % (j, tag), q.x_hat[j], q.c_j[j])
            for i in range(M):
                V.check_eq('covariance[%d,%d]%s' % (j, i, tag), q.P_k[j][i], P0[j, i], near=1e-9)
        est = list(q.x_hat)
    V.observe('c0', q.c_j[0])


RO = dict(shape='rect_open', g1=5., g2=[2., 1.5])
ends = dict(dx_uk=[10., 15.], dx_dk=[12., 8.])
S3 = dict(h0=0.9, **sto(3))
SCN = {
    'chain': WQ(Scn('q_chain', 3, T3, nk=3, sj=S3, sl=dict(RO, **ends)), D=[.1, .3]),
    'advection': WQ(Scn('q_chain', 3, T3, nk=3, sj=S3, sl=dict(RO, **ends)), D=0.),
    'react': WQ(Scn('q_chain', 3, T3, nk=3, sj=S3, sl=dict(RO, **ends)), D=[.1, .3], K=1e-3, Du=[.2, .4], Dd=[.5, .15]),
    'reverse': WQ(Scn('q_rev', 3, T3, nks=[2, 3], sj=dict(h0=[0.7, 1.3, 2.4], **sto(3)), sl=dict(RO, A_s=[2., 5.], **ends), Q=[.1, .5, 1.5]), D=[.4, .3], links=True),
    'loop': WQ(Scn('q_loop', 4, LOOP, nks=[2, 3, 1, 4], sj=dict(h0=1.2, z=[2., 1.7, 1.6, 1.0], **sto(4)), sl=dict(shape='rect_open', g1=5., g2=[2., 3., 1., 2.5],
               dx_uk=[4., 6., 8., 3.], dx_dk=[2., 1., 5., 7.]), Q=[.4, .1, .2, -.2]), D=[.1, .3, .2, .15]),
    'boundary': WQ(Scn('q_bc', 4, LOOP, nk=2, sj=dict(h0=1.2, z=[2., 1.7, 1.6, 1.0], bc=(3,), **sto(4)), H_bc=[0., 0., 0., 2.3], sl=dict(shape='rect_open', g1=5., g2=[2., 3., 1., 2.5],
                   dx_uk=[4., 6., 8., 3.], dx_dk=[2., 1., 5., 7.])), D=.2, bc=(0, 3)),
    'circular': WQ(Scn('q_circ', 3, ((0, 1), (2, 1)), nks=[3, 2], sj=dict(h0=0.9, **sto(3)), sl=dict(shape='circular', g1=[2., 1.6], g2=0.001, **ends)), D=[.1, .3]),
    'mixed': WQ(Scn('q_mixed', 3, ((0, 1), (2, 1)), nks=[3, 2], sj=dict(h0=0.9, **sto(3)), sl=dict(shape=['rect_open', 'circular'], g1=[5., 1.6], g2=[2., .001], **ends)), D=[.1, .3]),
    'controls': WQ(Scn('q_ctrl', 4, T3 + ((2, 3),), nk=2, sj=dict(h0=[1.5, 1.2, 1., .8], z=[3., 2.5, 2., 1.5], bc=(3,), **sto(4)), H_bc=[0., 0., 0., 2.2],
                   sl=dict(shape='rect_open', g1=5., g2=2., dx_uk=5., dx_dk=7.),
                   orifices=dict(pairs=[(0, 2), (2, 1), (1, 3)]), weirs=dict(pairs=[(1, 2), (2, 1)]), pumps=dict(pairs=[(2, 0)]), Q=[1.8, .8, 1.2, 0.],
                   u=dict(u_o=[0.5, 1., 0.7], u_w=[1., 0.5], u_p=[0.4])), D=.2, bc=(3,)),
    'offsets': WQ(Scn('q_off', 3, ((0, 1), (2, 1)), nk=2, sj=dict(z=[.5, 0., .6], h0=[1., 1.2, 1.], **sto(3)),
                  sl=dict(RO, in_off=[0.1, 0.15], out_off=[.3, .25], dx_uk=[12., 5.], dx_dk=[3., 8.])), D=.2),
    'iterated': WQ(Scn('q_chain', 3, T3, nk=3, sj=S3, sl=dict(RO, **ends)), D=[.1, .3], iters=3),
    'capped': WQ(Scn('q_chain', 3, T3, nk=3, sj=S3, sl=dict(RO, **ends)), D=[.1, .3], c_max=(1., 6.)),
    'banded': WQ(Scn('q_band', 5, ((0, 3), (3, 1), (1, 4), (4, 2), (0, 1)), nk=2, sj=dict(h0=0.9, a=[1.] * 5, b=1., c=[10., 12., 14., 16., 18.], z=[2.3, 1.5, .5, 1.9, 1.]),
                 sl=dict(shape='rect_open', g1=5., g2=[2., 3., 1., 2.5, 2.], dx_uk=5., dx_dk=7.), auto_permute=True, Q=[.1, .3, .2, .6, 1.5]), D=.2),
}

# elements side by side, one of them adverse to the other; everything differs from element to element
SCN['parallel'] = WQ(Scn('q_par', 4, ((0, 1), (0, 1), (2, 1), (1, 2), (2, 3)), nks=[2, 3, 1, 2, 2],
                         sj=dict(h0=[1.5, 1.2, 1.6, .9], z=[2.4, 2., 2.1, 1.], **sto(4)),
                         sl=dict(shape='rect_open', g1=5., g2=[2., 3., 1., 2.5, 2.], dx_uk=[4., 6., 8., 3., 5.], dx_dk=[2., 1., 5., 7., 4.], A_s=[2., 3., 4., 5., 1.]),
                         orifices=dict(pairs=[(0, 1), (0, 1), (1, 2)]), weirs=dict(pairs=[(0, 2), (0, 2)]), pumps=dict(pairs=[(3, 0), (3, 0)]),
                         u=dict(u_o=[.4, .9, .6], u_w=[.8, .5], u_p=[.5, .8]), Q=[.4, .1, .2, .8]),
                     K=[1e-3, 4e-3, 2e-3, 3e-3, 5e-3], Kj=[3e-3, 1e-3, 4e-3, 2e-3], D=[.1, .3, .2, .15, .25], Du=[.2, .4, .1, .3, .5], Dd=[.5, .15, .35, .25, .1])
SCN['bandedmore'] = WQ(SCN['banded'].s, K=[1e-3, 4e-3, 2e-3, 3e-3, 5e-3], Kj=[2e-3, 5e-3, 1e-3, 4e-3, 3e-3], D=[.1, .3, .2, .15, .25], Du=[.2, .4, .1, .3, .5], Dd=[.5, .15, .35, .25, .1], after=2)


def run(V, fn, scn, **kw):
    fn(V, SCN[scn], **kw)


# fields for the range of concentrations: nothing is withdrawn, nothing reacts
for _k in ('chain', 'advection', 'loop', 'boundary', 'offsets', 'iterated', 'banded', 'reverse'):
    _w = copy.copy(SCN[_k])
    _w.lat = 'in'
    _w.tab = dict(_w.tab, links=False)
    if _k == 'loop':
        _w.s = copy.copy(_w.s)
        _w.s.key, _w.s.Q = 'q_loopin', [.4, .1, .2, .1]
    SCN['in_' + _k] = _w
