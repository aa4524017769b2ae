"""C14 storage curves of superjunctions"""
from .common import *
from .sections import interp

TB = {'pond': dict(h=np.array([0., 1., 2.5, 4.]), A=np.array([3., 10., 40., 41.])),
      'cellar': dict(h=np.array([0.5, 2.]), A=np.array([7., 7.5])),
      'basin': dict(h=np.array([0., 0.25, 3.]), A=np.array([1., 2., 30.]))}


def model(names, tables, bc=(), perm=False, spare=None):
    M = len(names)
    pairs = [(j, j + 1) for j in range(M - 1)] if not perm else [(j, (j + 2) % M) for j in range(M - 1)]
    return superlink_model('sto%s%s%s' % (names, tuple(tables), perm) + str(spare), M, pairs, nk=1, storages={k: TB[k] for k in tables}, auto_permute=perm,
                           sj=dict(storage=['Tabular' if n else 'functional' for n in names], table=[n or spare for n in names], a=[1.] * M, b=0.5, c=[2.] * M))


def expected(V, m, name, tab, d, a, b, c):
    """stored volume and surface area at depth d"""
    if not name:
        return a * V.pow(d, b) + c, a / (b + 1) * V.pow(d, b + 1) + c * d
    h, A = tab[name]
    vol = [V.const(0.)]
    for k in range(1, len(h)):
        vol.append(vol[-1] + (A[k] + A[k - 1]) * (h[k] - h[k - 1]) / 2)
    return interp(V, d, h, A), interp(V, d, h, vol) + V.max(d - h[-1], V.const(0.)) * A[-1]


def curves(V, names, tables=('pond', 'cellar', 'basin'), sym=None, what='AV', perm=False, b=None, spare=None):
    m = clone(V, model(names, tables, perm=perm, spare=spare))
    # position of the superjunctions after renumbering: their own rows tell
    names = [n if str(t).lower() == 'tabular' else None for n, t in zip(m.superjunctions['table'].values, m.superjunctions['storage'].values)]
    M = m.M
    H, z = V.reals('H', M, box=(-1, 6)), V.reals('z', M, box=(-1, 1))
    a, c = V.reals('a', M, lo=0., box=(0, 5)), V.reals('c', M, lo=0., box=(0, 5))
    bb = V.vec([V.const(float(b[j % len(b)])) for j in range(M)]) if b else V.reals('b', M, lo=0., box=(0, 2))
    m.H_j, m._z_inv_j = H, z
    m.min_depth = V.real('min_depth', lo=0., box=(0, .1))
    m._storage_a, m._storage_b, m._storage_c = a, bb, c
    m._A_sj, m._V_sj = V.reals('oldA', M, box=(0, 9)), V.reals('oldV', M, box=(0, 9))
    tab = {}
    for n in tables:
        if sym == n:
            h, A = [V.real('h0', lo=0., box=(0, 1))], [V.real('A0', lo=0., box=(0, 5))]
            for k in range(1, len(TB[n]['h'])):
                h.append(h[-1] + V.real('dh%d' % k, pos=True, box=(.1, 1)))
                A.append(A[-1] + V.real('dA%d' % k, lo=0., box=(0, 3)))
            tab[n] = (h, A)
        else:
            tab[n] = ([float(x) for x in TB[n]['h']], [float(x) for x in TB[n]['A']])
    if sym:
        m.storages = {n: dict(h=V.vec(tab[n][0]) if n == sym else TB[n]['h'], A=V.vec(tab[n][1]) if n == sym else TB[n]['A']) for n in tables}
        m.configure_storages()
    if 'A' in what:
        m.compute_storage_areas()
    if 'V' in what:
        r = m.compute_storage_volumes()
    for j in range(M):
        d = V.max(H[j] - z[j], m.min_depth)
        A, vol = expected(V, m, names[j], tab, d, a[j], bb[j], c[j])
        if 'A' in what:
            V.check_eq('storage area[%d]' % j, m._A_sj[j], A)
        if 'V' in what:
            V.check_eq('stored volume[%d]' % j, m._V_sj[j], vol)
            V.check_eq('returned volume[%d]' % j, r[j], vol)


def fn_class(V, kind, what):
    """storage.Functional / storage.Tabular"""
    from pipedream_solver import storage
    d = V.reals('d', 2, box=(-1, 5))
    if kind == 'functional':
        a, b, c = V.reals('a', 2, lo=0.), V.reals('b', 2, lo=0., box=(0, 2)), V.reals('c', 2, lo=0.)
        got = getattr(storage.Functional, what)(V.vec(list(d)), a=a, b=b, c=c)
        for j in range(2):
            e = V.max(d[j], V.const(0.))
            V.check_eq('%s[%d]' % (what, j), got[j], a[j] * V.pow(e, b[j]) + c[j] if what == 'A_sj' else a[j] / (b[j] + 1) * V.pow(e, b[j] + 1) + c[j] * e)
        return
    t = TB['pond']
    s = storage.Tabular(t['h'], t['A'])
    got = getattr(s, what)(V.vec(list(d)))
    for j in range(2):
        A, vol = expected(V, None, 'pond', {'pond': (list(map(float, t['h'])), list(map(float, t['A'])))}, d[j], 0, 0, 0)
        V.check_eq('%s[%d]' % (what, j), got[j], A if what == 'A_sj' else vol)


HARNESSES = []
for i, n in enumerate([(None, None), ('pond', None, 'cellar'), (None, 'cellar', 'cellar', 'pond'), ('cellar', 'basin', 'pond')]):
    t = [x for x in ('pond', 'cellar', 'basin') if x in n]
    for w in 'AV':
        HARNESSES.append(Harness('curves_%d_%s' % (i, w), curves, dict(names=n, tables=tuple(t), what=w)))
HARNESSES += [
    Harness('linear_%s' % w, curves, dict(names=(None, 'pond'), tables=('pond',), what=w, b=(1., 0.)), generic=True) for w in 'AV'] + [
    Harness('order_%s' % w, curves, dict(names=('pond', None, 'basin', 'cellar', 'basin'), tables=('pond', 'basin', 'cellar'), what=w, perm=True)) for w in 'AV'] + [
    Harness('unused_%s' % w, curves, dict(names=('pond', None), tables=('basin', 'pond', 'cellar'), what=w)) for w in 'AV'] + [
    Harness('table_%s_%s' % (s, w), curves, dict(names=('pond', None, 'cellar', 'basin'), sym=s, what=w), tier='quick') for s in ('cellar', 'basin', 'pond') for w in 'AV']
HARNESSES += [Harness('declared_functional_%s' % w, curves, dict(names=('pond', None, 'basin'), tables=('pond', 'cellar', 'basin'), what=w, spare='cellar')) for w in 'AV'] + [
    Harness('all_functional', curves, dict(names=(None, None), tables=('pond', 'cellar'), spare='cellar')),
    Harness('given_unused', curves, dict(names=(None, None), tables=('pond', 'cellar')))] + [
    Harness('class_%s_%s' % (k, w), fn_class, dict(kind=k, what=w)) for k in ('functional', 'tabular') for w in ('A_sj', 'V_sj')]
