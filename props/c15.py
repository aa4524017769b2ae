"""C15 numbering and matrix form do not matter"""
from .e2e import *
from .hydro import balance

GRAPHS = {
    'path': (4, ((0, 1), (1, 2), (2, 3))), 'far': (4, ((0, 2), (1, 3), (0, 3))), 'star': (4, ((1, 0), (1, 2), (3, 1))),
    'cycle': (4, ((0, 2), (2, 1), (1, 3), (3, 0))), 'skip': (4, ((0, 3), (1, 3), (0, 2))), 'two': (4, ((0, 2), (1, 3))), 'far_only': (3, ((0, 2),)),
    'full': (4, ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3))), 'parallel': (3, ((0, 2), (2, 0), (0, 1))),
    'tree5': (5, ((0, 4), (4, 2), (1, 4), (3, 2))), 'lasso5': (5, ((0, 3), (3, 1), (1, 4), (4, 2), (0, 1))),
}
CTL = {'orifice_far': (4, ((0, 1), (1, 2)), dict(orifices=((0, 3), (2, 3)))), 'pump_far': (4, ((0, 1), (1, 2)), dict(pumps=((3, 0),))),
       'weir_far': (4, ((0, 1), (1, 2)), dict(weirs=((3, 1), (1, 3)))), 'all': (5, ((0, 1), (1, 2)), dict(orifices=((0, 4),), weirs=((1, 3),), pumps=((2, 4),)))}


def solved(name, M, pairs, perm, tier='quick', **kw):
    return Harness('banded_%s%s' % (name, '_renumbered' if perm else ''), balance, dict(M=M, pairs=pairs, banded=True, auto_permute=perm, **kw), tier=tier)



NET = dict(
    net5=dict(M=5, pairs=((0, 3), (3, 1), (1, 4), (4, 2), (0, 1)), nks=[2, 3, 1, 2, 2], sj=dict(h0=0.9, a=1., b=1., c=[10., 12., 14., 16., 18.], z=[2.3, 1.5, .5, 1.9, 1.]),
              orifices=dict(pairs=[(3, 4)]), weirs=dict(pairs=[(1, 2)]), pumps=dict(pairs=[(2, 0)]), u=dict(u_o=[0.5], u_w=[1.], u_p=[.3]), Q=[.1, .3, .2, .6, 1.5]),
    bound=dict(M=4, pairs=((0, 2), (2, 1), (1, 3)), nk=3, sj=dict(h0=[1., .9, .8, 1.2], z=[2., 1.2, 1.6, .8], bc=(3,), a=[3., 0., 5., 0.], b=[.5, 0., 1., 0.], c=[12., 15., 10., 30.]),
               H_bc=[0., 0., 0., 2.], Q=[.3, .1, .2, 0.]),
    tabular=dict(M=4, pairs=((0, 2), (2, 1), (1, 3)), nk=2, sj=dict(h0=[1., .9, .8, 1.2], z=[2., 1.2, 1.6, .8], storage=['tabular', 'functional', 'tabular', 'tabular'],
                 table=['b', None, 'a', 'b'], a=[3., 0., 5., 0.], b=[.5, 0., 1., 0.], c=[12., 15., 10., 30.]), storages=TB, Q=[.3, .1, .2, 0.]),
    # the order is not its own inverse
    cyclic_bound=dict(M=4, pairs=((0, 3), (3, 1), (1, 2)), nk=2, sj=dict(h0=[1., .9, 1.2, .8], z=[2., 1.2, .8, 1.6], bc=(2,), a=[3., 0., 0., 5.], b=[.5, 0., 0., 1.], c=[12., 15., 30., 10.]),
                      H_bc=[0., 0., 2., 0.], Q=[.3, .1, 0., .2], pumps=dict(pairs=[(1, 0)]), u=dict(u_p=[.3])),
    cyclic_tabular=dict(M=4, pairs=((0, 2), (2, 3), (3, 1)), nk=2, sj=dict(h0=[1., 1.2, .9, .8], z=[2., .8, 1.6, 1.2], storage=['tabular', 'functional', 'tabular', 'tabular'],
                        table=['b', None, 'a', 'b'], a=[3., 0., 5., 0.], b=[.5, 0., 1., 0.], c=[12., 15., 10., 30.]), storages=TB, Q=[.3, .1, .2, 0.],
                        orifices=dict(pairs=[(0, 3), (2, 1)]), weirs=dict(pairs=[(1, 2), (0, 1)]), u=dict(u_o=[.5, .8], u_w=[1., .7])),
)


def run_step(V, key, kw, perm, Q, Qi, Hb, warm=5):
    """warmed-up model, then one step with forcing given in the numbering of the tables"""
    kw = dict(kw)
    M, pairs, u = kw.pop('M'), kw.pop('pairs'), kw.pop('u', {})
    base, hb = kw.pop('Q'), kw.pop('H_bc', None)

    def make():
        m = superlink_model('raw' + key, M, list(pairs), auto_permute=perm, **kw)
        p = list(m.permutations)
        for s in range(warm):
            f = 1. + 0.2 * np.sin(1.7 * s + np.arange(M))
            m.step(H_bc=None if hb is None else np.array(hb)[p], Q_in=(np.array(base) * f)[p], Q_0Ik=0.01 * np.cos(np.arange(len(m._I)) + s), dt=5.,
                   **{k: np.array(v, dtype=float) for k, v in u.items()})
        return m
    m = clone(V, build('num_' + key, make))
    p = [int(x) for x in m.permutations]
    m.step(H_bc=None if hb is None else V.vec([Hb[j] for j in p]), Q_in=V.vec([Q[j] for j in p]), Q_0Ik=Qi, dt=5., **{k: V.arr(np.array(v, dtype=float)) for k, v in u.items()})
    return m, p


def same(V, net, other):
    kw = NET[net]
    M = kw['M']
    Q = [V.real('Qin_%d' % j, lo=q - .05, hi=q + .05) for j, q in enumerate(kw['Q'])]
    Hb = [V.real('Hbc_%d' % j, lo=h - .05, hi=h + .05) for j, h in enumerate(kw['H_bc'])] if 'H_bc' in kw else None
    nI = sum(kw['nks']) + len(kw['nks']) if 'nks' in kw else (kw['nk'] + 1) * len(kw['pairs'])
    Qi = V.reals('qI', nI, lo=-.01, hi=.01)
    m, p = run_step(V, net + '_a', kw, False, Q, Qi, Hb)
    if other == 'renumbered':
        w, q = run_step(V, net + '_b', kw, True, Q, Qi, Hb)
        order = list(range(len(kw['pairs'])))
        if V.symbolic():
            V.fact('the numbering changes', bool(q != p))
        V.fact('the numbering is one of all superjunctions', sorted(q) == list(range(M)))
    else:
        K = len(kw['pairs'])
        order = list(range(K))[::-1]      # superlink k of the other model is superlink order[k]
        k2 = dict(kw, pairs=[kw['pairs'][k] for k in order])
        if 'nks' in kw:
            k2['nks'] = [kw['nks'][k] for k in order]
        first = [int(m._I_1k[k]) for k in range(K)]
        Qj = V.vec([Qi[first[k] + i] for k in order for i in range(int(m.nk[k]) + 1)])
        # the warm-up forcing of internal junctions differs between the numberings: none is used
        w, q = run_step(V, net + '_r', k2, False, Q, Qj, Hb, warm=0)
        m, p = run_step(V, net + '_a0', kw, False, Q, Qi, Hb, warm=0)
    for i in range(M):
        V.check_eq('head of superjunction %d' % q[i], w.H_j[i], m.H_j[q[i]], near=1e-6)
    for k2 in range(len(order)):
        k = order[k2]
        V.check_eq('upstream flow[%d]' % k, w._Q_uk[k2], m._Q_uk[k], near=1e-6)
        V.check_eq('downstream flow[%d]' % k, w._Q_dk[k2], m._Q_dk[k], near=1e-6)
        for i in range(int(m.nk[k])):
            V.check_eq('flow[%d,%d]' % (k, i), w._Q_ik[int(w._i_1k[k2]) + i], m._Q_ik[int(m._i_1k[k]) + i], near=1e-6)
        for i in range(int(m.nk[k]) + 1):
            V.check_eq('depth[%d,%d]' % (k, i), w._h_Ik[int(w._I_1k[k2]) + i], m._h_Ik[int(m._I_1k[k]) + i], near=1e-6)
    V.observe('H0', m.H_j[0])


HARNESSES = [solved(g, M, p, perm) for g, (M, p) in GRAPHS.items() for perm in (False, True)] + [
    solved(g, M, p, perm, **kw) for g, (M, p, kw) in CTL.items() for perm in (False, True)] + [
    solved('boundary', 4, ((0, 2), (1, 3), (0, 3)), perm, bc=(2,)) for perm in (False, True)] + [
    Harness('same_%s_%s' % (n, o), same, dict(net=n, other=o), linear=True) for n in NET for o in ('renumbered', 'reordered')]
