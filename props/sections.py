"""Hydraulic geometry of links and superlink ends."""
from .common import *
from . import geom
import math

NG = dict(circular=2, rect_closed=3, rect_open=2, triangular=2, trapezoidal=3, parabolic=2, elliptical=2, wide=2, force_main=2, floodplain=7)


def spec(V, shape, ha, hb, g):
    """area, perimeter, width of a link whose ends have the depths ha and hb"""
    h = (ha + hb) / 2
    z = V.const(0.)
    y = V.max(h, z)
    y = V.min(y, g[0])
    A, P, B = geom.section(shape, y, g, V)
    if shape == 'rect_closed':
        B = V.where(h < g[0], B, g[2] * g[1])
    if shape == 'circular':
        B = V.where(h < g[0], B, g[1] * g[0])
    if shape == 'force_main':
        B = g[1] * g[0]
    if shape == 'floodplain':
        P = V.where(h > 0, P, z)
        B = V.where(h > 0, B, z)
    return A, P, B, h


def dims(V, shape, i):
    g = []
    for k in range(1, NG[shape] + 1):
        slot = (shape, k) in (('circular', 2), ('rect_closed', 3), ('force_main', 2))
        g.append(V.real('g%d_%d' % (k, i), pos=True, box=(0.0005, 0.01) if slot else (0.5, 3.)))
    if shape == 'parabolic':
        V.assume(g[0] >= 0.01, g[1] >= 0.01)
    if shape == 'floodplain':
        V.assume(g[1] + g[2] <= g[0])
    return g


def check_section(V, tag, shape, A, P, R, B, ea, eb, g):
    sA, sP, sB, h = spec(V, shape, ea, eb, g)
    V.check_eq('area of %s' % tag, A, sA)
    if shape == 'parabolic':
        V.check('perimeter of %s' % tag, V.where(h > 1e-9, V.abs(P - sP) <= 1e-9 * sP, P >= 0))
    else:
        V.check_eq('perimeter of %s' % tag, P, sP)
    V.check_eq('top width of %s' % tag, B, sB)
    V.check('hydraulic radius of %s' % tag, V.where(P > 0, R * P == A if V.symbolic() else V.abs(R * P - A) <= 1e-9 * (1 + V.abs(A)), R == 0))


def sections_model(shapes, nk):
    K = len(shapes)
    # boundary sections need distinct superjunctions
    pairs = [(k, k + 1) for k in range(K)]
    return superlink_model('sec%s%s' % (shapes, nk), K + 1, pairs, nk=nk, sl=dict(shape=list(shapes), g1=2., g2=0.5, g3=.1, g4=.1, g5=.1, g6=.1, g7=.1))


def install(V, m, shapes):
    gs = []
    cols = {k: [V.const(0.)] * len(m._ik) for k in range(1, 8)}
    for i in range(len(m._ik)):
        g = dims(V, shapes[int(m._ki[i])], i)
        gs.append(g)
        for k, x in enumerate(g):
            cols[k + 1][i] = x
    for k in cols:
        setattr(m, '_g%d_ik' % k, V.vec(cols[k]))
    return gs


def links(V, shapes, nk=1):
    m = clone(V, sections_model(shapes, nk))
    gs = install(V, m, shapes)
    m._h_Ik = V.reals('h', len(m._I), box=(-0.5, 3.5))
    h = list(m._h_Ik)
    # values left over from an earlier step must not matter
    for nm in ('_A_ik', '_Pe_ik', '_R_ik', '_B_ik'):
        setattr(m, nm, V.reals('old' + nm, len(m._ik), box=(0, 5)))
    m.link_hydraulic_geometry()
    for i in range(len(m._ik)):
        k = int(m._ki[i])
        I = i + k
        check_section(V, 'link[%d]' % i, shapes[k], m._A_ik[i], m._Pe_ik[i], m._R_ik[i], m._B_ik[i], h[I], h[I + 1], gs[i])
    V.observe('A', m._A_ik[0])


def ends(V, shapes, side, nk=2):
    m = clone(V, sections_model(shapes, nk))
    K = len(shapes)
    gs = install(V, m, shapes)
    m._h_Ik, m.H_j = V.reals('h', len(m._I), box=(-0.5, 3.5)), V.reals('H', m.M, box=(-0.5, 4.))
    z = V.reals('z', K, box=(-.5, 1.))
    th = V.vec([V.const(1.) if V.choice('connected_%d' % k, (1, 0)) else V.const(0.) for k in range(K)])
    s = 'uk' if side == 'u' else 'dk'
    setattr(m, '_z_inv_' + s, z)
    setattr(m, '_theta_' + s, th)
    for nm in ('_A_', '_Pe_', '_R_', '_B_'):
        setattr(m, nm + s, V.reals('old' + nm, K, box=(0, 5)))
    (m.upstream_hydraulic_geometry if side == 'u' else m.downstream_hydraulic_geometry)()
    for k in range(K):
        i = k * nk if side == 'u' else k * nk + nk - 1
        I = k * (nk + 1) + (0 if side == 'u' else nk)
        j = k if side == 'u' else k + 1
        check_section(V, 'end[%d]' % k, shapes[k], getattr(m, '_A_' + s)[k], getattr(m, '_Pe_' + s)[k], getattr(m, '_R_' + s)[k],
                      getattr(m, '_B_' + s)[k], m._h_Ik[I], th[k] * (m.H_j[j] - z[k]), gs[i])
    V.observe('A', getattr(m, '_A_' + s)[0])


def slots(V, shape):
    """above the crown, a closed section without a given slot has the default slot width"""
    m = clone(V, superlink_model('slot' + shape, 2, [(0, 1)], nk=1, sl=dict(shape=shape, g1=1.5, g2=0. if shape != 'rect_closed' else 2., g3=0.)))
    m._h_Ik = V.reals('h', 2, lo=1.5, box=(1.5, 3.))
    m.link_hydraulic_geometry()
    V.check_eq('slot width', m._B_ik[0], 0.001 * (2. if shape == 'rect_closed' else 1.5), near=1e-12)


CLS = dict(circular='Circular', rect_closed='Rect_Closed', rect_open='Rect_Open', triangular='Triangular', trapezoidal='Trapezoidal',
           parabolic='Parabolic', elliptical='Elliptical', wide='Wide', force_main='Force_Main')


def vectorised(V, shape, n=2):
    """the array classes of the geometry module"""
    import pipedream_solver.geometry as G
    c = getattr(G, CLS[shape])
    gs = [dims(V, shape, i) for i in range(n)]
    slot = {'circular': 1, 'rect_closed': 2}.get(shape)
    pslot = gs[0][slot] if slot else None
    for g in gs:
        if slot:
            g[slot] = pslot
    ha, hb = V.reals('ha', n, box=(-0.5, 3.5)), V.reals('hb', n, box=(-0.5, 3.5))
    ga = {'g%d' % (k + 1): V.vec([g[k] for g in gs]) for k in range(NG[shape]) if k != slot}
    call = lambda f, **k: getattr(c, f)(V.vec(list(ha)), V.vec(list(hb)), **{kk: V.vec(list(v)) for kk, v in ga.items()}, **k)
    A, P = call('A_ik'), call('Pe_ik')
    B = call('B_ik', **({'pslot': pslot} if slot else {}))
    if np.ndim(P) == 0:
        P = V.vec([P] * n)
    R = c.R_ik(V.vec(list(A)), V.vec(list(P)))
    for i in range(n):
        check_section(V, 'section[%d]' % i, shape, A[i], P[i], R[i], B[i], ha[i], hb[i], gs[i])
    V.observe('A', A[0])


# ------------------------------------------------------------------ surveyed cross sections
TT = {'wide_v': dict(x=np.array([0., 1., 3., 4.]), y=np.array([3., 0., 0., 2.5]), sample_points=5),
      'low_flow': dict(x=np.array([0., 2., 2.5, 5.]), y=np.array([4., 0.5, 0., 4.]), sample_points=4),
      'wall': dict(x=np.array([0., 0., 2., 3.]), y=np.array([2., 1., 0., 2.]), sample_points=6)}


def trapezoids(V, x, y, w):
    """area, wetted perimeter, top width below stage w over a bed of straight pieces"""
    z = V.const(0.)
    A = P = B = z
    for k in range(len(x) - 1):
        lo, hi = V.min(y[k], y[k + 1]), V.max(y[k], y[k + 1])
        rise = hi - lo
        run = x[k + 1] - x[k]
        d = V.max(w - lo, z)          # depth over the lower end
        flat = V.where(rise > 0, z, V.const(1.))
        f = V.where(d >= rise, V.where(w >= lo, V.const(1.), z), d / (rise + flat))
        B = B + f * run
        P = P + f * V.sqrt(run * run + rise * rise)
        A = A + V.where(d >= rise, V.where(w >= lo, run * (d - rise / 2), z), f * run * d / 2)
    return A, P, B


def interp(V, q, xs, fs):
    """piecewise linear, constant beyond the ends"""
    out = fs[-1]
    for k in range(len(xs) - 2, -1, -1):
        out = V.where(q < xs[k + 1], fs[k] + (fs[k + 1] - fs[k]) * (q - xs[k]) / (xs[k + 1] - xs[k]), out)
    return V.where(q < xs[0], fs[0], out)


def float_table(t):
    from .e2e import polygon
    w = np.linspace(0., t['y'].max(), t.get('sample_points', 100))
    A, P, B = [np.array(c) for c in zip(*[polygon(t['x'], t['y'], wi) for wi in w])]
    R = np.where(P > 0, A / np.where(P > 0, P, 1.), 0.)
    return w, A, P, R, B


def transect_model(names, nk=1):
    K = len(names)
    shape = ['irregular' if n else 'rect_open' for n in names]
    return superlink_model('tr%s%s' % (names, nk), K + 1, [(k, k + 1) for k in range(K)], nk=nk,
                           transects=TT, sl=dict(shape=shape, transect=[n or '' for n in names], g1=9.))


def check_lookup(V, tag, t, h, A, P, R, B):
    w, tA, tP, tR, tB = float_table(TT[t])
    for nm, got, tab in (('area', A, tA), ('perimeter', P, tP), ('hydraulic radius', R, tR), ('top width', B, tB)):
        V.check_eq('%s of %s' % (nm, tag), got, interp(V, h, [float(x) for x in w], [float(x) for x in tab]), near=1e-7)


def lookup(V, names, part, nk=1, regular=False):
    m = clone(V, transect_model(names, nk))
    K = len(names)
    m._h_Ik = V.reals('h', len(m._I), box=(-0.5, 5.))
    for s in ('ik', 'uk', 'dk'):
        for nm in ('_A_', '_Pe_', '_R_', '_B_'):
            setattr(m, nm + s, V.reals('old' + nm + s, len(getattr(m, nm + s)), box=(0, 5)))
    if part == 'links':
        m.link_hydraulic_geometry()
        for i in range(len(m._ik)):
            k = int(m._ki[i])
            if regular and not names[k]:
                check_section(V, 'link[%d]' % i, 'rect_open', m._A_ik[i], m._Pe_ik[i], m._R_ik[i], m._B_ik[i], m._h_Ik[i + k], m._h_Ik[i + k + 1], [m._g1_ik[i], m._g2_ik[i]])
            elif names[k] and not regular:
                check_lookup(V, 'link[%d]' % i, names[k], (m._h_Ik[i + k] + m._h_Ik[i + k + 1]) / 2, m._A_ik[i], m._Pe_ik[i], m._R_ik[i], m._B_ik[i])
        V.observe('A', m._A_ik[0])
        return
    m.H_j = V.reals('H', m.M, box=(-0.5, 6.))
    th = V.vec([V.const(1.) if V.choice('connected_%d' % k, (1, 0)) else V.const(0.) for k in range(K)])
    s = 'uk' if part == 'u' else 'dk'
    setattr(m, '_theta_' + s, th)
    z = V.reals('z', K, box=(-.5, 1.))
    setattr(m, '_z_inv_' + s, z)
    (m.upstream_hydraulic_geometry if part == 'u' else m.downstream_hydraulic_geometry)()
    for k in range(K):
        i, I = k * nk + (0 if part == 'u' else nk - 1), k * (nk + 1) + (0 if part == 'u' else nk)
        j = k if part == 'u' else k + 1
        if regular and not names[k]:
            check_section(V, 'end[%d]' % k, 'rect_open', *[getattr(m, n + s)[k] for n in ('_A_', '_Pe_', '_R_', '_B_')], m._h_Ik[I], th[k] * (m.H_j[j] - z[k]), [m._g1_ik[i], m._g2_ik[i]])
        elif names[k] and not regular:
            check_lookup(V, 'end[%d]' % k, names[k], (m._h_Ik[I] + th[k] * (m.H_j[j] - z[k])) / 2, *[getattr(m, n + s)[k] for n in ('_A_', '_Pe_', '_R_', '_B_')])


def survey(V, n=3, samples=3, bed=None, other=False):
    """tables built from arbitrary survey points"""
    m = clone(V, transect_model(('wide_v', 'low_flow')))
    x, y = [V.const(0.)], [V.real('y0', lo=0., box=(0, 3))]
    for k in range(1, n):
        dx = V.real('dx%d' % k, lo=0., box=(0.1, 2))
        x.append(x[-1] + dx)
        y.append(V.const(0.) if k == bed else V.real('y%d' % k, lo=0., box=(0, 3)))
    V.assume(V.max(*y) > 0)
    top = V.max(*y)
    if n > 2:
        k = V.choice('highest', (0, n - 1))
        top = y[k]
        for v in y:
            V.assume(v <= top)
    m.transects = {'low_flow': dict(x=V.vec(x), y=V.vec(y), sample_points=samples)}
    m.transects = dict({'wide_v': TT['wide_v']}, **m.transects) if not other else dict(m.transects, **{'wide_v': TT['wide_v']})
    m.configure_hydraulic_geometry()
    # a link flowing with mean depth equal to the tabulated stage
    for s in range(samples):
        q = top * s / (samples - 1)
        A, P, B = trapezoids(V, x, y, q)
        m._h_Ik = V.vec([V.const(1.), V.const(1.), q, q])
        m.link_hydraulic_geometry()
        V.check_eq('area at stage[%d]' % s, m._A_ik[1], A)
        V.check_eq('perimeter at stage[%d]' % s, m._Pe_ik[1], P)
        V.check_eq('top width at stage[%d]' % s, m._B_ik[1], B)
        if n == 2:
            V.check('hydraulic radius at stage[%d]' % s, V.where(P > 0, V.abs(m._R_ik[1] * P - A) <= (0 if V.symbolic() else 1e-9), m._R_ik[1] == 0))
