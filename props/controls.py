"""Orifices, weirs, pumps: flow laws at given heads and the linearisation used in the head system."""
from .common import *
from . import geom
from .e2e import Scn, inputs, fa, fl, T3, sto, STO

G = 9.81
PAIRS = ((0, 2), (3, 1))


def donor(V, hu, hd):
    """higher and lower head, direction"""
    f = hu >= hd
    return V.where(f, hu, hd), V.where(f, hd, hu), V.where(f, V.const(1.), V.const(-1.))


def orifice_head(V, hu, hd, z, side, y_max, u, oneway):
    """driving head and direction"""
    hi, lo, sgn = donor(V, hu, hd)
    zero = V.const(0.)
    mid = z + (y_max * u / 2 if side else 0.)
    top = z + (y_max * u if side else 0.)
    head = V.where(hi > top, V.where(lo > mid, hi - lo, hi - mid), V.where(hi > z, hi - z, zero))
    if oneway:
        head = V.where(hd >= hu, zero, head)
    return head, sgn


def control_state(V, m, kind, fix=None):
    n = getattr(m, 'n_' + kind)
    m.H_j = V.reals('H', m.M, box=(0, 5))
    m._z_inv_j = V.reals('z', m.M, box=(0, 1))
    setattr(m, '_z_' + kind, V.reals('z_' + kind, n, lo=0., box=(0, 1)))
    q = V.reals('Qprev', n, box=(-2, 2))
    setattr(m, '_Q' + kind, q)
    for c in ('alpha', 'beta', 'chi'):
        setattr(m, '_%s_%s' % (c, kind), V.reals('old_%s' % c, n))
    u = V.reals('u', n, lo=0., hi=1.)
    J = [(int(a), int(b)) for a, b in zip(getattr(m, '_J_u' + kind), getattr(m, '_J_d' + kind))]
    if fix is not None:
        # the other control is in one of a few given states
        a, b = J[fix]
        s = V.choice('state of control %d' % fix, (0, 1, 2, 3))
        own = J[1 - fix]
        for j, v in zip((a, b), ((3., 1.), (3., 2.75), (1., 4.), (.5, .25))[s]):
            if j not in own:
                m.H_j[j] = V.const(v)
        q[fix], u[fix] = V.const((1.5, 0., -1., .5)[s]), V.const((.5, 1., .75, .5)[s])
        getattr(m, '_z_' + kind)[fix] = V.const(.75)
        for j in (a, b):
            if j not in own:
                m._z_inv_j[j] = V.const(.5)
    return n, q, u, J


def linear_part(V, m, kind, i, J):
    h0, h1 = V.real('newH_%d_0' % i, box=(0, 5)), V.real('newH_%d_1' % i, box=(0, 5))
    q = getattr(m, '_alpha_' + kind)[i] * h0 + getattr(m, '_beta_' + kind)[i] * h1 + getattr(m, '_chi_' + kind)[i]
    return h0, h1, q


def orifice_model(orient, oneway, shapes=None):
    extra = dict(oneway=list(oneway)) if oneway else {}
    if shapes:
        extra.update(shape=list(shapes), g1=[1.] * len(shapes), g2=[1.] * len(shapes), g3=[.5] * len(shapes))
    return superlink_model('ori%s%s%s' % (orient, oneway, shapes), 4, [(0, 1), (1, 2), (2, 3)], nk=1, auto_permute=False,
                           orifices=dict(pairs=PAIRS[:len(orient)], orient=list(orient), **extra))


def orifice_flow(V, orient, oneway=None, closed=False, fix=None):
    m = clone(V, orifice_model(orient, oneway))
    n, q, u, J = control_state(V, m, 'o', fix)
    m._y_max_o, m._Co, m._Ao = V.reals('ymax', n, pos=True, box=(.1, 1)), V.reals('C', n, lo=0., box=(.5, 1)), V.reals('A', n, lo=0., box=(.1, 1))
    m._V_sj = V.reals('V', m.M, lo=0., box=(0, 20))
    dt = V.real('dt', pos=True, box=(1, 20))
    if closed:
        # no control signal at all: every orifice is closed
        m.orifice_hydraulic_geometry()
        m.orifice_flow_coefficients()
        m.solve_orifice_flows(dt)
        for i in range(n):
            V.check_eq('flow of a closed orifice[%d]' % i, m._Qo[i], 0.)
            for c in ('alpha', 'beta', 'chi'):
                V.check_eq('%s of a closed orifice[%d]' % (c, i), getattr(m, '_%s_o' % c)[i], 0.)
        return
    m.orifice_flow_coefficients(u=u)
    m.solve_orifice_flows(dt, u=u)
    for i in range(n):
        a, b = J[i]
        z = m._z_inv_j[a] + m._z_o[i]
        one = bool(oneway and oneway[i])
        head, sgn = orifice_head(V, m.H_j[a], m.H_j[b], z, orient[i] == 'side', m._y_max_o[i], u[i], one)
        vol = V.where(m.H_j[a] > m.H_j[b], m._V_sj[a], m._V_sj[b])
        cap = vol / dt
        k = 2 * G * m._Co[i] ** 2 * m._Ao[i] ** 2
        V.check_eq('orifice flow[%d]' % i, m._Qo[i], sgn * V.min(V.sqrt(k * head), cap))
        # implicit form: Q|Q_prev| = sign * 2 g C^2 A^2 * head, with the regime of the heads before the step
        h0, h1, ql = linear_part(V, m, 'o', i, J)
        hi, lo, s = donor(V, m.H_j[a], m.H_j[b])
        hi1 = V.where(m.H_j[a] >= m.H_j[b], h0, h1)
        lo1 = V.where(m.H_j[a] >= m.H_j[b], h1, h0)
        yy = m._y_max_o[i] * u[i] if orient[i] == 'side' else V.const(0.)
        hd = V.where(hi > z + yy, V.where(lo > z + yy / 2, hi1 - lo1, hi1 - z - yy / 2), V.where(hi > z, hi1 - z, V.const(0.)))
        if one:
            hd = V.where(m.H_j[b] >= m.H_j[a], V.const(0.), hd)
        V.check_eq('implicit orifice flow[%d]' % i, ql * V.abs(q[i]), V.where(q[i] == 0, V.const(0.), s * k * hd))
        V.check('no flow in the implicit form without a previous flow[%d]' % i, V.implies(q[i] == 0, ql == 0))
    V.observe('Q0', m._Qo[0])


def orifice_area(V, shapes, depths='both'):
    from .sections import dims
    m = clone(V, orifice_model(('side', 'bottom')[:len(shapes)], None, shapes))
    n, q, u, J = control_state(V, m, 'o')
    gs = [dims(V, s, i) for i, s in enumerate(shapes)]
    for k in (1, 2, 3):
        setattr(m, '_g%d_o' % k, V.vec([g[k - 1] if len(g) >= k else V.const(0.) for g in gs]))
    m._Ao = V.reals('oldA', n)
    m.orifice_hydraulic_geometry(u=u)
    for i in range(n):
        a, b = J[i]
        d = V.max(m.H_j[a], m.H_j[b]) - m._z_inv_j[a] - m._z_o[i]
        g = [gs[i][0] * u[i]] + gs[i][1:]
        if not V.branch(u[i] > 0):
            V.check_eq('open area[%d]' % i, m._Ao[i], 0.)
            continue
        y = V.min(V.max(d, V.const(0.)), g[0])
        V.check_eq('open area[%d]' % i, m._Ao[i], geom.section(shapes[i], y, g, V)[0])


def plain_orifice(V):
    """without a shape the opening is a square of the given full area, opened from the bottom"""
    def make():
        from pipedream_solver.nsuperlink import nSuperLink
        return nSuperLink(sl_table([(0, 1), (1, 2), (2, 3)]), sj_table(4), internal_links=1, auto_permute=False,
                          orifices=orifice_table(PAIRS, A=[0.25, 4.], y_max=[0.5, 2.]))
    m = clone(V, build('plain_orifice', make))
    n, q, u, J = control_state(V, m, 'o')
    m.orifice_hydraulic_geometry(u=u)
    for i, w in enumerate((0.5, 2.)):
        a, b = J[i]
        d = V.max(m.H_j[a], m.H_j[b]) - m._z_inv_j[a] - m._z_o[i]
        V.check_eq('open area[%d]' % i, m._Ao[i], w * V.min(V.max(d, V.const(0.)), w * u[i]))


# ------------------------------------------------------------------ weirs
def weir_model(n):
    return superlink_model('weir%d' % n, 4, [(0, 1), (1, 2), (2, 3)], nk=1, auto_permute=False, weirs=dict(pairs=PAIRS[:n]))


def weir_flow(V, n=2, closed=False, fix=None):
    m = clone(V, weir_model(n))
    n, q, u, J = control_state(V, m, 'w', fix)
    m._y_max_w, m._Cwr, m._Cwt = V.reals('ymax', n, pos=True, box=(.1, 1)), V.reals('Cr', n, lo=0., box=(.5, 2)), V.reals('Ct', n, lo=0., box=(.5, 2))
    m._L_w, m._s_w = V.reals('L', n, lo=0., box=(.5, 2)), V.reals('s', n, lo=0., box=(.5, 2))
    m._Hw = V.reals('oldHw', n)
    if fix is not None:
        for x, v in (('y_max_w', .5), ('Cwr', 1.75), ('Cwt', 1.25), ('L_w', 2.), ('s_w', 1.)):
            getattr(m, '_' + x)[fix] = V.const(v)
    if closed:
        m.weir_flow_coefficients()
        u = V.vec([V.const(0.)] * n)
    else:
        m.weir_flow_coefficients(u=u)
    lin = [(m._alpha_w[i], m._beta_w[i], m._chi_w[i]) for i in range(n)]
    m.solve_weir_flows(u=None if closed else u)
    for i in range(n):
        a, b = J[i]
        crest = m._z_inv_j[a] + m._z_w[i] + (1 - u[i]) * m._y_max_w[i]
        hi, lo, sgn = donor(V, m.H_j[a], m.H_j[b])
        he = V.where(hi > crest, V.where(lo > crest, hi - lo, hi - crest), V.const(0.))
        c = m._Cwr[i] * m._L_w[i] * he + m._Cwt[i] * m._s_w[i] * he * he
        V.check_eq('size of the weir flow[%d]' % i, m._Qw[i] * m._Qw[i], c * c * he)
        V.check('weir flow towards the lower head[%d]' % i, sgn * m._Qw[i] >= 0)
        h0, h1 = V.real('newH_%d_0' % i, box=(0, 5)), V.real('newH_%d_1' % i, box=(0, 5))
        al, be, ch = lin[i]
        ql = al * h0 + be * h1 + ch
        up = m.H_j[a] >= m.H_j[b]
        hi1, lo1 = V.where(up, h0, h1), V.where(up, h1, h0)
        hd = V.where(hi > crest, V.where(lo > crest, hi1 - lo1, hi1 - crest), V.const(0.))
        V.check_eq('implicit weir flow[%d]' % i, ql * V.abs(q[i]), V.where(q[i] == 0, V.const(0.), sgn * c * c * hd))
        V.check('no flow in the implicit form without a previous flow[%d]' % i, V.implies(q[i] == 0, ql == 0))
    V.observe('Q0', m._Qw[0])


# ------------------------------------------------------------------ pumps
def pump_model(n):
    return superlink_model('pump%d' % n, 4, [(0, 1), (1, 2), (2, 3)], nk=1, auto_permute=False, pumps=dict(pairs=PAIRS[:n]))


def pump_flow(V, c=None, closed=False, n=2, fix=None):
    m = clone(V, pump_model(n))
    n, q, u, J = control_state(V, m, 'p', fix)
    m._dHp_min = V.reals('dHmin', n, box=(0, 1))
    m._dHp_max = V.vec([m._dHp_min[i] + V.real('dHspan_%d' % i, lo=0., box=(0, 3)) for i in range(n)])
    m._a_p = V.vec([m._dHp_max[i] + V.real('a_%d' % i, lo=0., box=(0, 2)) for i in range(n)])
    m._b_p = V.reals('b', n, pos=True, box=(.5, 2))
    m._c_p = V.vec([V.const(float(c))] * n) if c else V.reals('c', n, lo=1., box=(1, 3))
    if closed:
        m.pump_flow_coefficients()
        m.solve_pump_flows()
        for i in range(n):
            V.check_eq('flow of a stopped pump[%d]' % i, m._Qp[i], 0.)
            for x in ('alpha', 'beta', 'chi'):
                V.check_eq('%s of a stopped pump[%d]' % (x, i), getattr(m, '_%s_p' % x)[i], 0.)
        return
    m.pump_flow_coefficients(u=u)
    m.solve_pump_flows(u=u)
    for i in range(n):
        a, b = J[i]
        dH = m.H_j[b] - m.H_j[a]
        dc = V.min(V.max(dH, m._dHp_min[i]), m._dHp_max[i])
        on = m.H_j[a] > m._z_inv_j[a] + m._z_p[i]
        V.check_eq('pump flow[%d]' % i, m._Qp[i], V.where(on, V.pow(u[i] / m._b_p[i] * (m._a_p[i] - dc), 1 / m._c_p[i]), V.const(0.)))
        V.check_le('pumps do not run backwards[%d]' % i, 0., m._Qp[i])
        h0, h1, ql = linear_part(V, m, 'p', i, J)
        inside = V.and_(dH > m._dHp_min[i], dH < m._dHp_max[i])
        gain = V.where(on, u[i] * V.where(inside, m._a_p[i] - (h1 - h0), m._a_p[i] - dc), V.const(0.))
        if V.branch(V.abs(q[i]) > 0):
            V.check_eq('implicit pump flow[%d]' % i, ql * m._b_p[i] * V.pow(V.abs(q[i]), m._c_p[i] - 1), gain)
    V.observe('Q0', m._Qp[0])


# ------------------------------------------------------------------ whole steps
CTRL = {
    'controls': Scn('ctl_controls', 4, T3 + ((2, 3),), nk=2, sj=dict(h0=[1.5, 1.2, 1., .8], z=[3., 2.5, 2., 1.5], bc=(3,), **sto(4)), H_bc=[0., 0., 0., 2.2],
                    orifices=dict(pairs=[(0, 2), (2, 1), (1, 3)]), weirs=dict(pairs=[(1, 2), (2, 1)]), pumps=dict(pairs=[(2, 0)]), Q=[1.8, .8, 1.2, 0.],
                    u=dict(u_o=[0.5, 1., 0.7], u_w=[1., 0.5], u_p=[0.4])),
    'permuted': Scn('ctl_perm', 5, ((0, 3), (3, 1), (1, 4), (4, 2)), nk=2, sj=dict(h0=0.9, a=1., b=1., c=[10., 12., 14., 16., 18.], z=[2.3, 1.5, .5, 1.9, 1.]),
                    auto_permute=True, orifices=dict(pairs=[(3, 4), (0, 1)]), weirs=dict(pairs=[(1, 2), (4, 0)]), pumps=dict(pairs=[(2, 4), (1, 0)]),
                    u=dict(u_o=[0.5, 0.9], u_w=[1., 0.6], u_p=[0.8, 0.3]), Q=[.1, .3, .2, .6, 1.5]),
    'small_tank': Scn('ctl_small', 3, ((1, 2),), nk=2, sj=dict(h0=[0.4, .6, .5], c=[2., 30., 30.], z=[1.5, .7, 0.]), auto_permute=False,
                      orifices=dict(pairs=[(0, 1), (0, 2)], A=[.8, .5], z_o=[0., .05]), u=dict(u_o=[1., .8]), Q=[.4, .2, .1], dt=10.),
}


def control_step(V, scn, kind, numbered=False):
    """the flows reported by step() are those of the new heads, the control signals of the step and the volumes before it"""
    s = CTRL[scn]
    m = clone(V, s.model())
    real, m = m, View(m)
    H0 = fa(m.H_j)
    z = m._z_inv_j
    # forcing along a line through the base case
    w = V.real('strength', lo=-1., hi=1.)
    pat = V.choice('pattern', (0, 1, 2))
    base = [s.Q] * s.M if np.isscalar(s.Q) else s.Q
    Qin = V.vec([x + w * (0.1, 0.15 * (-1) ** j, 0.03 * j)[pat] for j, x in enumerate(base)])
    q0 = V.vec([0.01 * w * (1, -1, 0)[(I + pat) % 3] for I in range(len(m._I))])
    Hbc = None if s.H_bc is None else V.vec([x + 0.05 * w for x in s.H_bc])
    us = {k: V.arr(np.array(v, dtype=float)) for k, v in s.u.items()}
    real.step(H_bc=Hbc, Q_in=Qin, Q_0Ik=q0, dt=s.dt, **us)
    H = m.H_j
    u = s.u.get('u_' + kind)
    n = getattr(m, 'n_' + kind)
    for i in range(n):
        a, b = int(getattr(m, '_J_u' + kind)[i]), int(getattr(m, '_J_d' + kind)[i])
        hi, lo, sgn = donor(V, H[a], H[b])
        ui = u[i]
        if kind == 'o':
            zo = fl(m._z_o[i])
            d = max(max(H0[a], H0[b]) - z[a] - zo, 0.)
            w = fl(m._Ao_max[i]) ** .5
            A = w * min(d, w * ui)
            head, sgn = orifice_head(V, H[a], H[b], z[a] + zo, True, fl(m._y_max_o[i]), ui, False)
            up = V.branch(H[a] > H[b])
            j = a if up else b
            dj = max(H0[j] - z[j], fl(m.min_depth))
            sa, sb, sc = [fl(getattr(m, '_storage_' + x)[j]) for x in 'abc']
            cap = (sa / (sb + 1) * dj ** (sb + 1) + sc * dj) / s.dt
            k = 2 * G * fl(m._Co[i]) ** 2 * A * A
            q = m._Qo[i]
            near = 1e-6
            V.check('orifice flow towards the lower head[%d]' % i, sgn * q >= -1e-9)
            if V.branch(k * head >= cap * cap):
                V.check_eq('orifice flow limited to the stored volume[%d]' % i, sgn * q, cap, near=near)
            else:
                V.check_eq('size of the orifice flow[%d]' % i, q * q, k * head, near=near)
        elif kind == 'w':
            crest = z[a] + fl(m._z_w[i]) + (1 - ui) * fl(m._y_max_w[i])
            he = V.where(hi > crest, V.where(lo > crest, hi - lo, hi - crest), V.const(0.))
            c = fl(m._Cwr[i]) * fl(m._L_w[i]) * he + fl(m._Cwt[i]) * fl(m._s_w[i]) * he * he
            V.check_eq('size of the weir flow[%d]' % i, m._Qw[i] * m._Qw[i], c * c * he, near=1e-6)
            V.check('weir flow towards the lower head[%d]' % i, sgn * m._Qw[i] >= -1e-9)
        else:
            dc = V.min(V.max(H[b] - H[a], V.const(fl(m._dHp_min[i]))), V.const(fl(m._dHp_max[i])))
            on = H[a] > z[a] + fl(m._z_p[i])
            V.check_eq('pump flow[%d]' % i, m._Qp[i], V.where(on, V.pow(ui / fl(m._b_p[i]) * (fl(m._a_p[i]) - dc), V.const(1 / fl(m._c_p[i]))), V.const(0.)), near=1e-6)
