"""What a step is given: omitted arguments, the arrays themselves, several models of the same tables."""
from .record import *

NEUTRAL = dict(
    Q_in=lambda V, m: V.arr(np.zeros(m.M)), Q_0Ik=lambda V, m: V.arr(np.zeros(len(m._I))), H_bc=lambda V, m: V.vec(list(m.H_j)),
    u_o=lambda V, m: V.arr(np.zeros(m.n_o)), u_w=lambda V, m: V.arr(np.zeros(m.n_w)), u_p=lambda V, m: V.arr(np.zeros(m.n_p)),
    dt=lambda V, m: m._dt, banded=lambda V, m: m.banded)


def arguments(V, s, m, dt=None):
    Qin, q0, Hbc = inputs(V, s, m)
    d = dict(Q_in=Qin, Q_0Ik=q0, H_bc=Hbc, dt=s.dt if dt is None else dt)
    d.update({k: V.arr(np.array(v, dtype=float)) for k, v in s.u.items()})
    return {k: v for k, v in d.items() if v is not None}


def omitted(V, scn, which, num_iter=1, alone=False):
    """a step without an argument is the step with the value that stands for nothing"""
    s = SCN[scn]
    m = clone(V, s.model())
    m._dt = 7.
    w = clone(V, m)
    d = {} if alone else arguments(V, s, m)
    for k in which:
        d.pop(k, None)
    e = dict(d, **{k: NEUTRAL[k](V, m) for k in which})
    kw = dict(num_iter=num_iter, head_tol=-1.) if num_iter > 1 else {}
    m.step(**d, **kw)
    w.step(**e, **kw)
    compare(V, m, w)


def left_alone(V, scn, num_iter=1):
    """the arrays given to a step are not written to, and what happens to them afterwards does not matter"""
    s = SCN[scn]
    m = clone(V, s.model())
    w = clone(V, m)
    d = arguments(V, s, m)
    e = {k: v.copy() if hasattr(v, 'copy') else v for k, v in d.items()}
    was = {k: list(v) for k, v in d.items() if hasattr(v, '__len__')}
    kw = dict(num_iter=num_iter, head_tol=-1.) if num_iter > 1 else {}
    m.step(**d, **kw)
    w.step(**e, **kw)
    for k, v in was.items():
        for i, x in enumerate(v):
            V.check_eq('%s is not written to[%d]' % (k, i), d[k][i], x)
    for k, v in was.items():
        for i in range(len(v)):
            d[k][i] = V.real('after_%s_%d' % (k, i), box=(-9, 9))
    compare(V, m, w)
    for k in m.states:
        if isinstance(m.states[k], np.ndarray) or hasattr(m.states[k], '__len__'):
            for i, (x, y) in enumerate(zip(np.asarray(m.states[k]).ravel(), np.asarray(w.states[k]).ravel())):
                V.check_eq('saved %s[%d]' % (k, i), x, y, near=1e-12)
    # and the model can be stepped on
    f = sym(V, forcing(s, m, .5))
    for x in (m, w):
        x.load_state()
        x.step(dt=s.dt, **f)
    compare(V, m, w)


def joint(V, *ms):
    """copies that share exactly the arrays the originals share"""
    memo, out = {}, []

    def arr(v):
        if v.dtype.kind != 'f':
            return v
        b = v
        while isinstance(b.base, np.ndarray):
            b = b.base
        # views of one array become one array: any part of it that is shared counts as shared
        if id(v) not in memo:
            memo[id(v)] = (clone_array(V, v), v)
        return memo[id(v)][0]
    for m in ms:
        o = copy.copy(m)
        o.__dict__ = {}
        for k, v in m.__dict__.items():
            if isinstance(v, np.ndarray):
                o.__dict__[k] = arr(v)
            elif isinstance(v, dict):
                if id(v) not in memo:
                    memo[id(v)] = ({a: arr(b) if isinstance(b, np.ndarray) else b for a, b in v.items()}, v)
                o.__dict__[k] = memo[id(v)][0]
            else:
                o.__dict__[k] = v
        out.append(o)
    return out


def clone_array(V, v):
    return V.arr(v) if np.isfinite(v).all() else v.copy()


def apart(V, scn):
    """two models made from the same tables: a step of one does not reach the other"""
    from pipedream_solver.nsuperlink import nSuperLink
    s = SCN[scn]
    with npshim.native():
        raw = superlink_model('raw_' + s.key, s.M, s.pairs, nk=s.nk, nks=s.nks, sj=s.sj, sl=s.sl, idx=s.idx, fms=s.fms, vary=s.vary, **s.kw)
        t, l, k = raw._given
        tabs = dict(superjunctions=t, superlinks=l, **{a: b for a, b in k.items() if hasattr(b, 'columns')})
        before = {a: b.copy(deep=True) for a, b in tabs.items()}
        k = dict(k)
        two = [nSuperLink(l, t, **k) for _ in range(2)]
        for a, b in tabs.items():
            V.check('table %s is as it was given' % a, list(b.columns) == list(before[a].columns) and b.equals(before[a]))
    a, b = joint(V, *two)
    ref = clone(V, two[1])
    a.step(**arguments(V, s, a))
    for key in STATE + ('_Qo', '_Qw', '_Qp', '_A_ik', '_A_uk', '_A_dk', '_A_sj', '_A_SIk'):
        if getattr(b, key, None) is not None and np.asarray(getattr(b, key), dtype=object).ndim == 1:
            for i in range(len(getattr(b, key))):
                V.check_eq('%s of the other model[%d]' % (key.strip('_'), i), getattr(b, key)[i], getattr(ref, key)[i])
    V.check_eq('time of the other model', b.t, ref.t)
    f = sym(V, forcing(s, b))
    for x in (b, ref):
        x.step(dt=s.dt, **f)
    compare(V, b, ref)


def spun(V, scn, n=2, given=(), reset=True, move=False):
    """spinning up is that many steps with a trickle everywhere"""
    s = SCN[scn] if not move else MOBILE
    m = clone(V, s.model())
    w = clone(V, m)
    kw = {}
    if 'Q_in' in given:
        kw['Q_in'] = inputs(V, s, m)[0]
    if 'Q_0Ik' in given:
        kw['Q_0Ik'] = inputs(V, s, m)[1]
    kw.update({k: V.arr(np.array(v, dtype=float)) for k, v in s.u.items()})
    if s.H_bc is not None:
        kw['H_bc'] = V.arr(np.array(s.H_bc, dtype=float))
    t0, n0 = float(m.t), int(m.iter_count)
    m.spinup(n_steps=n, dt=s.dt, **kw, **({} if reset else dict(reset_counters=False)), **(dict(reposition_junctions=True) if move else {}))
    kw.setdefault('Q_in', V.arr(1e-6 * np.ones(m.M)))
    kw.setdefault('Q_0Ik', V.arr(1e-6 * np.ones(len(m._I))))
    for i in range(n):
        w.step(dt=s.dt, **kw)
        if move:
            w.reposition_junctions()
    V.check('step count', int(m.iter_count) == (0 if reset else n0 + n))
    V.check_eq('time', m.t, 0. if reset else t0 + n * s.dt)
    w.t = m.t
    compare(V, m, w)
