"""Time accounting, saved states, simulation driver."""
from .e2e import *


def iterated(V, scn, n=1):
    laws(V, SCN[scn], ALL, iterate=n)


def forcing(s, m, f=1.):
    q = np.array(s.Q if not np.isscalar(s.Q) else [s.Q] * s.M, dtype=float)
    d = dict(H_bc=None if s.H_bc is None else np.array(s.H_bc, dtype=float), Q_in=q * f, Q_0Ik=np.full(len(m._I), 0.004))
    d.update({k: np.array(v, dtype=float) for k, v in s.u.items()})
    return d


def sym(V, d):
    return {k: V.arr(v) if isinstance(v, np.ndarray) else v for k, v in d.items()}


def clock(V, scn, num_iter, dts=(1., 5., 16.), default=False):
    """the clock advances by exactly one time step, however many iterations it takes"""
    s = SCN[scn]
    m = clone(V, s.model())
    t0 = V.real('t0', box=(0, 1e4))
    tol = V.real('head_tol', lo=0., box=(0, .1))
    m.t = t0
    n0 = m.iter_count
    H0 = fa(m.H_j)
    dt = V.choice('dt', dts)
    kw = dict(dt=dt)
    if default:
        m._dt = dt
        kw = {}
    base = clone(V, m)
    f = sym(V, forcing(s, m, 2.))
    m.step(num_iter=num_iter, head_tol=tol, **f, **kw)
    V.check_eq('time advances by the time step', m.t, t0 + dt)
    V.check('one step is counted', int(m.iter_count) == n0 + 1)
    V.check_eq('saved time is the time before the step', m.states['t'], t0)
    for j in range(m.M):
        V.check_eq('saved head is the head before the step[%d]' % j, m.states['H_j'][j], H0[j], near=1e-9)
    e = int(m.iter_elapsed)
    V.check('iterations within the allowance', 1 <= e <= num_iter)
    # the same as the given number of iterations without tolerance
    w = clone(V, base)
    w.step(num_iter=e, head_tol=-1., **f, **kw)
    for j in range(m.M):
        V.check_eq('heads of that many iterations[%d]' % j, m.H_j[j], w.H_j[j], near=1e-9)
    if e < num_iter:
        if e == 1:
            prev = H0
        else:
            v = clone(V, base)
            v.step(num_iter=e - 1, head_tol=-1., **f, **kw)
            prev = v.H_j
        for j in range(m.M):
            V.check('iteration stopped because heads settled[%d]' % j, V.abs(m.H_j[j] - prev[j]) < tol + 1e-9)


STATE = ('H_j', '_h_Ik', '_Q_ik', '_Q_uk', '_Q_dk', '_x_Ik', '_z_inv_Ik', '_dx_ik')


def compare(V, m, w, tol=1e-6):
    for a in STATE + ('_Qo', '_Qw', '_Qp'):
        if hasattr(m, a) and getattr(m, a) is not None and np.asarray(getattr(m, a), dtype=object).ndim == 1:
            for i in range(len(getattr(m, a))):
                V.check_eq('%s[%d]' % (a.strip('_'), i), getattr(m, a)[i], getattr(w, a)[i], near=tol)
    V.check_eq('time', m.t, w.t)


def reload(V, scn, fresh=False, steps=1, mobile=False):
    """a step, going back to the saved state, and another step: as if the first had not been made"""
    s = MOBILE if mobile else SCN[scn]
    m = clone(V, s.model() if not mobile else moved(s))
    w = clone(V, m)
    Qin, q0, Hbc = inputs(V, s, m)
    us = {k: V.arr(np.array(v, dtype=float)) for k, v in s.u.items()}
    m.step(dt=s.dt, **sym(V, forcing(s, m, 4. if mobile else 2.)))
    if mobile:
        V.check('a junction moved', m.reposition_junctions() is None and any(fl(a) != fl(b) for a, b in zip(m._x_Ik, w._x_Ik)))
    saved = copy.copy(m.states)
    if steps > 1:
        saved = {k: copy.copy(v) for k, v in saved.items()}
        for i in range(steps - 1):
            m.step(dt=s.dt, **sym(V, forcing(s, m, .5)))
        m.load_state(saved)
    else:
        m.load_state()
    if fresh:
        pass
    for x in (m, w):
        x.step(H_bc=Hbc, Q_in=Qin, Q_0Ik=q0, dt=s.dt, **us)
    compare(V, m, w)
    V.observe('H0', m.H_j[0])


def moved(s):
    """mobile junctions away from their first position"""
    def make():
        m = copy.deepcopy(s.model())
        for i in range(2):
            m.step(dt=s.dt, **forcing(s, m))
            m.reposition_junctions()
        return m
    return build('moved_' + s.key, make)


MOBILE = Scn('mobile', 3, T3, nk=3, sj=dict(z=[3., 1.5, 0.], h0=[.9, .9, 1.0], bc=(2,), **sto(3)), H_bc=[0., 0., 1.], warm=3, mobile_elements=True)


def reload_mobile(V, steps):
    reload(V, None, steps=steps, mobile=True)


# ---- the simulation driver
def frame(V, name, index, cols, box=(-3, 3)):
    """table with concrete times and arbitrary entries"""
    P = pd()
    rows = [[V.real('%s_%d_%d' % (name, i, j), box=box) for j in range(cols)] for i in range(len(index))]
    df = P.DataFrame(rows, index=index, dtype=object if V.symbolic else float)
    return df, rows


def recorder(m):
    """stands for the hydraulic model: keeps what it is given"""
    log = []

    def step(H_bc=None, Q_in=None, Q_0Ik=None, u_o=None, u_w=None, u_p=None, dt=None, *a, **kw):
        log.append(dict(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, dt=dt, t=m.t, **kw))
        m.t = m.t + dt
    m.step = step
    return log


def wanted(V, t, index, rows, j, linear):
    """forcing of column j at time t"""
    if V.branch(t <= index[0]):
        return [rows[0][j]]
    for i in range(1, len(index)):
        if V.branch(t <= index[i]):
            a, b = index[i - 1], index[i]
            if linear:
                return [rows[i - 1][j] + (rows[i][j] - rows[i - 1][j]) * (t - a) / (b - a)]
            mid = (a + b) / 2
            if V.branch(t < mid):
                return [rows[i - 1][j]]
            if V.branch(t > mid):
                return [rows[i][j]]
            return [rows[i - 1][j], rows[i][j]]
    return [rows[-1][j]]


def forced(V, method, perm=False, given=('Q_in', 'H_bc', 'Q_Ik'), override=(), steps=1):
    from pipedream_solver.simulation import Simulation
    s = SCN['banded']
    pairs = ((0, 3), (3, 1), (1, 4), (4, 2), (0, 1))
    m = clone(V, superlink_model('frc%s' % perm, 5, pairs, nk=1, auto_permute=perm))
    p = [int(x) for x in m.permutations]
    V.check('renumbered', perm == (p != list(range(5))))
    ix = dict(Q_in=[0., 8., 24., 40.], H_bc=[-4., 12., 16.], Q_Ik=[4., 20., 36.])
    tabs = {k: frame(V, k, ix[k], 5 if k != 'Q_Ik' else len(m._I)) for k in given}
    sim = Simulation(m, interpolation_method=method, **{k: v[0] for k, v in tabs.items()})
    V.check_eq('starts at the first time of the inputs', sim.t, min(ix[k][0] for k in given))
    V.check_eq('starting time', sim.t_start, min(ix[k][0] for k in given))
    V.check_eq('ends at the last time of the inputs', sim.t_end, max(ix[k][-1] for k in given))
    log = recorder(m)
    over = {k: V.reals('given_' + k, 5 if k != 'Q_Ik' else len(m._I)) for k in override}
    m.t = V.real('t', lo=-8., hi=48.)
    dt = V.real('dt', pos=True, box=(.5, 10))
    for n in range(steps):
        t = m.t + dt
        sim.step(dt=dt, **over)
        V.check('one step of the model', len(log) == n + 1)
        d = log[-1]
        V.check_eq('time step', d['dt'], dt)
        for k, key in (('Q_in', 'Q_in'), ('H_bc', 'H_bc'), ('Q_Ik', 'Q_0Ik')):
            got = d[key]
            if k in over:
                for j in range(len(over[k])):
                    V.check_eq('%s given for this step[%d]' % (k, j), got[j], over[k][j])
                continue
            if k not in given:
                V.check('no %s' % k, got is None)
                continue
            order = p if k != 'Q_Ik' else range(len(m._I))
            for i, j in enumerate(order):
                w = wanted(V, t, ix[k], tabs[k][1], j, method == 'linear')
                V.check('%s[%d]' % (k, i), V.or_(*[V.abs(got[i] - x) <= 1e-9 for x in w]))
    V.check_eq('simulation time', sim.t, m.t)


def sampled(V, n, method):
    """interpolation between arbitrary times"""
    from pipedream_solver import nutils
    xp = [V.real('x0', box=(-5, 5))]
    for i in range(1, n):
        xp.append(xp[-1] + V.real('gap%d' % i, pos=True, box=(.5, 4)))
    rows = [[V.real('f_%d_%d' % (i, j), box=(-3, 3)) for j in range(2)] for i in range(n)]
    x = V.real('x', box=(-8, 20))
    fp = V.arr(np.zeros((n, 2)))
    for i in range(n):
        for j in range(2):
            fp[i, j] = rows[i][j]
    got = nutils.interpolate_sample(x, V.vec(xp), fp, 1 if method == 'linear' else 0)
    for j in range(2):
        w = wanted(V, x, xp, rows, j, method == 'linear')
        V.check('interpolated value[%d]' % j, V.or_(*[V.abs(got[j] - y) <= 1e-9 for y in w]))


def start(V):
    """an explicit starting time is where the simulation starts, and forcing is read from there"""
    from pipedream_solver.simulation import Simulation
    m = clone(V, superlink_model('frcstart', 3, T3, nk=1))
    df, rows = frame(V, 'Q', [0., 8., 24.], 3)
    t0, t1 = V.real('t_start', lo=0., hi=24.), V.real('t_end', lo=0., box=(10, 30))
    m.t = 0.
    sim = Simulation(m, Q_in=df, t_start=t0, t_end=t1)
    V.check_eq('time', sim.t, t0)
    V.check_eq('starting time', sim.t_start, t0)
    V.check_eq('end', sim.t_end, t1)
    log = recorder(m)
    sim.step(dt=4.)
    for j in range(3):
        V.check('inflow[%d]' % j, V.or_(*[V.abs(log[0]['Q_in'][j] - x) <= 1e-9 for x in wanted(V, t0 + 4., [0., 8., 24.], rows, j, True)]))


def adaptive(V, subdivisions, retries, norm=2, tol=1., min_dt=1., dt=8., given=True):
    """the simulation driver over arbitrary model dynamics: substeps, error estimate, retries"""
    from pipedream_solver.simulation import Simulation
    m = clone(V, superlink_model('adapt', 2, ((0, 1),), nk=1, sj=dict(h0=[.5, .75])))
    t0 = 16.
    m.t = t0
    H0 = fa(m.H_j)
    calls = []

    def step(H_bc=None, Q_in=None, Q_0Ik=None, u_o=None, u_w=None, u_p=None, dt=None, *a, **kw):
        m.save_state()
        n = len(calls)
        out = V.vec([V.real('H%d_%d' % (n, j), box=(0., .8), lo=-4., hi=4.) for j in range(2)])
        calls.append(dict(t=m.t, H=list(m.H_j), dt=dt, u=u_o, out=out))
        m.H_j = out
        m.t = m.t + dt
        m.iter_count += 1
    m.step = step
    sim = Simulation(m, dt=dt, min_dt=min_dt)
    kw = dict(u_o=(0.25,))
    opts = dict(dt=dt) if given else {}
    if subdivisions > 1:
        opts.update(subdivisions=subdivisions, norm=norm)
    if retries:
        opts.update(retries=retries, tol=tol)
    sim.step(**opts, **kw)
    i, d, left = 0, dt, retries
    while True:
        V.check('coarse step', len(calls) > i)
        if len(calls) <= i:
            return
        c = calls[i]
        begin(V, 'coarse step', c, t0, H0, d)
        i += 1
        last, before = c['out'], H0
        if subdivisions > 1:
            t, H = t0, H0
            for s in range(subdivisions):
                V.check('substep', len(calls) > i)
                if len(calls) <= i:
                    return
                f = calls[i]
                begin(V, 'substep', f, t, H, d / subdivisions)
                before = H
                t, H = t + d / subdivisions, f['out']
                i += 1
            last = H
            sc = [V.abs(c['out'][j] - H[j]) / (1e-6 + 1e-3 * V.max(V.abs(H[j]), V.abs(before[j]))) for j in range(2)]
            if norm == 2:
                err = V.sqrt((sc[0] ** 2 + sc[1] ** 2) / 2)
            elif norm == 1:
                err = (sc[0] + sc[1]) / 2
            elif norm == 0:
                err = (V.where(sc[0] > 0, 1., 0.) + V.where(sc[1] > 0, 1., 0.)) / 2
            else:
                err = V.max(sc[0], sc[1])
            err = V.max(err, 2. ** -52)
            if left and d / 2 > min_dt and V.branch(err > tol):
                d, left = d / 2, left - 1
                continue
            V.check_eq('error estimate', sim.err, err)
            V.check_eq('error estimate is kept', sim.errs[0], err)
        break
    V.check('no other steps', len(calls) == i)
    V.check_eq('time', sim.t, t0 + d)
    for j in range(2):
        V.check_eq('head after the step[%d]' % j, m.H_j[j], last[j])
    V.check_eq('step size kept', sim.dts[0], d)
    V.check('one step size kept per step', len(sim.dts) == 2 and len(sim.errs) == 2)


def begin(V, what, c, t, H, d):
    V.check_eq(what + ' begins at', c['t'], t)
    V.check_eq(what + ' size', c['dt'], d)
    V.check(what + ' controls', c['u'] == (0.25,))
    for j in range(2):
        V.check_eq(what + ' begins from[%d]' % j, c['H'][j], H[j])


def sim0(V, **kw):
    from pipedream_solver.simulation import Simulation
    m = clone(V, superlink_model('adapt', 2, ((0, 1),), nk=1, sj=dict(h0=[.5, .75])))
    return Simulation(m, dt=4., **kw)


def elementary(V, own=False):
    """step size from the error of one step"""
    dt, err = V.real('dt', pos=True, box=(1, 20)), V.real('err', box=(-.1, .1))
    lo = V.real('min_dt', pos=True, box=(.1, 5))
    hi = lo + V.real('range', lo=0., box=(1, 50))
    tol, safe = V.real('tol', pos=True, box=(.001, .1)), V.real('safety', pos=True, box=(.5, 1))
    r0 = V.real('min_rel', pos=True, box=(.01, .5))
    r1 = r0 + V.real('rel_range', lo=0., box=(0, 5))
    V.assume(V.abs(err) >= 1e-6)
    p = dict(min_dt=lo, max_dt=hi, tol=tol, min_rel_change=r0, max_rel_change=r1, safety_factor=safe)
    if own:
        s = sim0(V, **p)
        s.dt, s.err = dt, err
        got = s.compute_step_size()
    else:
        got = sim0(V).compute_step_size(dt=dt, err=err, **p)
    f = V.min(V.max(V.sqrt(tol / 2 / V.abs(err)), r0), r1)
    V.check_eq('step size', got, V.min(V.max(safe * dt * f, lo), hi))
    V.check_le('not below the smallest', lo, got)
    V.check_le('not above the largest', got, hi)


FILTERS = dict(h0100=(1, 0, 0, 0, 0), h0211=(.5, .5, 0, .5, 0), h0312=(.25, .5, .25, .75, .25), h0321=(1.25, .5, -.75, -.25, -.75), any=(.25, .125, .5, .5, .75))


def filtered(V, coeffs, own=False, k=2):
    """step size from the errors and sizes of the last three steps"""
    from collections import deque
    b1, b2, b3, a2, a3 = coeffs
    e = [V.real('err%d' % i, pos=True, box=(.1, 5)) for i in range(3)]
    d = [V.real('dt%d' % i, pos=True, box=(1, 10)) for i in range(3)]
    lo = V.real('min_dt', pos=True, box=(.1, 5))
    hi = lo + V.real('range', lo=0., box=(1, 50))
    tol, safe = V.real('tol', pos=True, box=(.1, 2)), V.real('safety', pos=True, box=(.5, 1))
    r0 = V.real('min_rel', pos=True, box=(.01, .5))
    r1 = r0 + V.real('rel_range', lo=0., box=(0, 5))
    p = dict(min_dt=lo, max_dt=hi, min_rel_change=r0, max_rel_change=r1)
    q = dict(tol=tol, coeffs=list(coeffs), safety_factor=safe, k=k)
    if own:
        s = sim0(V, **p)
        s.dts, s.errs = deque(d, maxlen=3), deque(e, maxlen=3)
        got = s.filter_step_size(**q)
    else:
        got = sim0(V).filter_step_size(dts=d, errs=e, **p, **q)
    f = 1.
    for x, y in ((tol / e[0], b1 / k), (tol / e[1], b2 / k), (tol / e[2], b3 / k), (d[0] / d[1], -a2), (d[1] / d[2], -a3)):
        f = f * V.pow(x, y)
    f = safe * V.min(V.max(f, r0), r1)
    V.check_eq('step size', got, V.min(V.max(f * d[0], lo), hi))
    V.check_le('not below the smallest', lo, got)
    V.check_le('not above the largest', got, hi)


def few(V):
    """fewer than three steps known: keep the current size"""
    from collections import deque
    s = sim0(V)
    d = [V.real('dt%d' % i, pos=True, box=(1, 10)) for i in range(2)]
    s.dts = deque(d, maxlen=3)
    V.check_eq('step size', s.filter_step_size(), d[0])
    V.check_eq('no error known', s.compute_step_size(), 4.)
