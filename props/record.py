"""Recorded states of a simulation."""
from .sim import *

KEPT = dict(H_j='_H', h_Ik='Ik', Q_ik='ik', Q_uk='k', Q_dk='k', Q_o='o', Q_w='w', Q_p='p', x_Ik='Ik')
CTL = dict(orifices=dict(pairs=((0, 2), (2, 1))), weirs=dict(pairs=((1, 2),)), pumps=dict(pairs=((2, 3),)))
NETS = {
    'plain': lambda: superlink_model('rec', 2, ((0, 1),), nk=2),
    'controls': lambda: superlink_model('recc', 4, ((0, 3), (3, 1), (1, 2)), nk=1, **CTL),
    'renumbered': lambda: superlink_model('recp', 5, ((0, 3), (3, 1), (1, 4), (4, 2), (0, 1)), nk=1, auto_permute=True,
                                          orifices=dict(pairs=((0, 4),))),
}


def present(m):
    none = dict(Q_o=m.n_o, Q_w=m.n_w, Q_p=m.n_p)
    return [k for k in KEPT if none.get(k, 1)]


def arbitrary(V, m, tag):
    """the model in an arbitrary state"""
    out = {}
    for k in present(m):
        n = len(np.atleast_1d(getattr(m, k)))
        out[k] = [V.real('%s_%s_%d' % (tag, k, i), box=(-2, 2)) for i in range(n)]
        attr = {'H_j': 'H_j', 'Q_o': '_Qo', 'Q_w': '_Qw', 'Q_p': '_Qp'}.get(k, '_' + k)
        V.check('%s is where the model keeps it' % k, hasattr(m, attr))
        setattr(m, attr, V.vec(out[k]))
    return out


def overwrite(V, m, tag):
    """the model moves on, in the arrays it has"""
    for k in present(m):
        a = getattr(m, k)
        for i in range(len(a)):
            a[i] = V.real('%s_%s_%d' % (tag, k, i), box=(-2, 2))


def recorded(V, net, times=(4., 4.5, 20.), t_start=None, again=False, body_fails=False):
    """every table of recorded states has one row per recorded time with the state the model was in at that time"""
    from pipedream_solver.simulation import Simulation
    m = clone(V, NETS[net]())
    m.states = dict(m.states)
    names = list(m.superjunctions['name'].values if 'name' in m.superjunctions.columns else m.superjunctions.index.values)
    links = list(m.superlinks['name'].values if 'name' in m.superlinks.columns else m.superlinks.index.values)
    arbitrary(V, m, 'old')
    m.t = 1.5
    m.save_state()
    want = {}
    s0 = arbitrary(V, m, 'first')
    m.t = 2.
    kw = {} if t_start is None else dict(t_start=t_start)
    sim = Simulation(m, dt=1., **kw)
    want[2. if t_start is None else t_start] = s0
    V.check('time at the start', float(m.t) == (2. if t_start is None else t_start))
    overwrite(V, m, 'on')
    try:
        with sim as s:
            V.check('context is the simulation', s is sim)
            for n, t in enumerate(times):
                m.t = t
                want[t] = arbitrary(V, m, 'at%d' % n)
                sim.record_state()
                overwrite(V, m, 'past%d' % n)
            if again:
                want[t] = arbitrary(V, m, 'again')
                sim.record_state()
                overwrite(V, m, 'pastagain')
            if body_fails:
                raise KeyError('stop')
    except KeyError:
        V.check('only the failure of the body', body_fails)
    for k in KEPT:
        if k not in present(m):
            V.check('no table of %s' % k, not hasattr(sim.states, k))
            continue
        df = getattr(sim.states, k)
        V.check('%s: one row per recorded time' % k, [float(x) for x in df.index] == list(want))
        n = len(s0[k])
        V.check('%s: one column per element' % k, df.shape == (len(want), n))
        if k == 'H_j':
            V.check('H_j: columns are the superjunctions', list(df.columns) == names)
        elif k in ('Q_uk', 'Q_dk'):
            V.check('%s: columns are the superlinks' % k, list(df.columns) == links)
        for r, t in enumerate(want):
            for i in range(n):
                V.check_eq('%s at %g[%d]' % (k, t, i), df.values[r, i], want[t][k][i], near=1e-12)


def run(V, scn):
    """a real run of the driver: what is recorded after a step is the state the step ended in"""
    from pipedream_solver.simulation import Simulation
    s = SCN[scn]
    m = clone(V, s.model())
    m.states = dict(m.states)
    f = sym(V, forcing(s, m, 2.))
    Qin, q0, Hbc = inputs(V, s, m)
    t0 = float(m.t)
    us = {k: V.arr(np.array(v, dtype=float)) for k, v in s.u.items()}
    want = [{k: fa(getattr(m, k)) for k in present(m)}]
    with Simulation(m, dt=s.dt) as sim:
        # ahead of the arbitrary step, a step of the run as it is
        sim.step(dt=s.dt, **{('Q_Ik' if k == 'Q_0Ik' else k): v for k, v in f.items()})
        want.append({k: fa(getattr(m, k)) for k in present(m)})
        sim.record_state()
        sim.step(dt=s.dt, Q_in=Qin, H_bc=Hbc, Q_Ik=q0, **us)
        want.append({k: list(getattr(m, k)) for k in present(m)})
        sim.record_state()
    for k in present(m):
        df = getattr(sim.states, k)
        V.check('%s: one row per recorded time' % k, [float(x) for x in df.index] == [t0, t0 + s.dt, t0 + 2 * s.dt])
        for r in range(3):
            for i in range(len(want[0][k])):
                V.check_eq('%s in row %d[%d]' % (k, r, i), df.values[r, i], want[r][k][i], near=1e-9)
