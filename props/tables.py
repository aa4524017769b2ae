"""Input tables and the network that is built from them."""
from .common import *

BASE = dict(min_depth=1e-5)


class Net:
    """topology and kinds; the numbers of the tables are arbitrary"""
    def __init__(self, M, pairs, n=3, slopes='down', ends=True, losses=True, controls=(), storage=None, perm=False, mobile=False, nks=None,
                 shapes=None, depths=True, bc=(), methods=None, rough='n', free=(), cls='n'):
        self.__dict__.update(locals())

    def K(self):
        return len(self.pairs)


def column(V, df, k, vals):
    df[k] = V.vec(vals)


def draw(V, net):
    """tables with arbitrary numbers"""
    P = pd()
    M, K = net.M, net.K()
    s = {}
    # invert elevations fall with the number of the superjunction, so that superlinks given from low to high numbers fall
    R = lambda nm, n, b0, b1, **k: [V.real('%s_%d' % (nm, i), box=(b0, b1), **k) for i in range(n)]
    z = R('z', M, -3., 3.)
    s['z_inv'], s['h_0'] = z, R('hj', M, 0., 2., lo=0.)
    s['a'], s['b'], s['c'] = R('sa', M, 0., 2.), R('sb', M, .5, 1.), R('sc', M, 1., 9.)
    s['map_x'], s['map_y'] = R('mx', M, -9., 9.), R('my', M, -9., 9.)
    if net.depths:
        s['max_depth'] = R('mdj', M, 3., 6.)
    l = {}
    l['in_offset'], l['out_offset'] = R('in', K, 0., .5, lo=0.), R('out', K, 0., .5, lo=0.)
    l['dx'] = R('dx', K, 10., 90., pos=True)
    l[net.rough] = R('n', K, .01, .1, pos=True)
    l['Q_0'], l['h_0'] = R('Q', K, -1., 1.), R('h', K, 0., 1., lo=0.)
    l['A_s'], l['A_c'], l['C'] = R('As', K, 0., 2., lo=0.), R('Ac', K, 0., 2.), R('C', K, 0., 1.)
    for g in range(1, 5):
        l['g%d' % g] = R('g%d' % g, K, .5, 3., pos=True)
    if net.ends:
        l['dx_uk'], l['dx_dk'] = R('xu', K, 1., 9., pos=True), R('xd', K, 1., 9., pos=True)
    if net.losses:
        l['C_uk'], l['C_dk'] = R('Cu', K, 0., 3.), R('Cd', K, 0., 3.)
    if net.depths:
        l['max_depth'] = R('mdk', K, 1., 3.)
    for k, (a, b) in enumerate(net.pairs):
        fall = z[a] + l['in_offset'][k] - z[b] - l['out_offset'][k]
        if k not in net.free:
            V.assume(fall >= 0)
    t = dict(sj=s, sl=l)
    sj = P.DataFrame(dict(id=range(M), name=['S%d' % i for i in range(M)], bc=[j in net.bc for j in range(M)], storage=net.storage or ['functional'] * M))
    sl = P.DataFrame(dict(id=range(K), name=['L%d' % i for i in range(K)], sj_0=[p[0] for p in net.pairs], sj_1=[p[1] for p in net.pairs],
                          shape=(net.shapes or ['rect_open'] * K), ctrl=[bool(k % 2) for k in range(K)]))
    if net.methods:
        sl['friction_method'] = net.methods
    kw = dict(superjunctions=sj, superlinks=sl)
    C = {}
    for nm, cols in (('orifices', ('A', 'C', 'z_o', 'y_max', 'g1', 'g2', 'g3')), ('weirs', ('z_w', 'y_max', 'Cr', 'Ct', 'L', 's')),
                     ('pumps', ('z_p', 'a_p', 'b_p', 'c_p', 'dH_max', 'dH_min'))):
        pairs = dict(net.controls).get(nm)
        if pairs:
            d = P.DataFrame(dict(id=range(len(pairs)), sj_0=[p[0] for p in pairs], sj_1=[p[1] for p in pairs]))
            C[nm] = {c: R(nm[0] + c, len(pairs), .2, 2., pos=True) for c in cols}
            if nm == 'orifices':
                d['orientation'] = ['side', 'bottom', 'side'][:len(pairs)]
                d['shape'] = ['Circular', 'rect_closed', 'rect_open'][:len(pairs)]
                d['oneway'] = [a == 1 for a in range(len(pairs))]
            kw[nm] = d
    t.update(C)
    for nm, cols in t.items():
        df = kw[dict(sj='superjunctions', sl='superlinks').get(nm, nm)]
        for c, v in cols.items():
            column(V, df, c, v)
    if net.nks:
        L, J = dict(dx=[], g1=[], roughness=[], Q_0=[], A_c=[], C=[]), dict(h_0=[], z_inv=[], A_s=[])
        links, juncs = dict(id=[], j_0=[], j_1=[], k=[], shape=[], ctrl=[]), dict(id=[], k=[])
        j0, j1 = [], []
        for k, n in enumerate(net.nks):
            j0.append(len(juncs['id']))
            for i in range(n + 1):
                j = len(juncs['id'])
                if i < n:
                    q = len(links['id'])
                    for c, v in dict(id=q, j_0=j, j_1=j + 1, k=k, shape='rect_open', ctrl=q % 2 == 1).items():
                        links[c].append(v)
                    for c in L:
                        L[c].append(V.real('l%s_%d' % (c, q), pos=c in ('dx', 'g1', 'roughness'), box=(.5, 3.)))
                juncs['id'].append(j)
                juncs['k'].append(k)
                for c in J:
                    J[c].append(V.real('j%s_%d' % (c, j), box=(0., 3.)))
            j1.append(len(juncs['id']) - 1)
        sl['j_0'], sl['j_1'] = j0, j1
        kw['links'], kw['junctions'] = P.DataFrame(links), P.DataFrame(juncs)
        for nm, d in (('links', L), ('junctions', J)):
            for c, v in d.items():
                column(V, kw[nm], c, v)
        t.update(links=L, junctions=J)
    return t, kw


class stepless:
    """the constructor makes one tiny step at the end: stop before it"""
    def __init__(self, cls):
        self.cls, self.calls = cls, []

    def __enter__(self):
        self.own = self.cls.__dict__.get('step')
        self.cls.step = lambda m, *a, **k: self.calls.append((a, k))
        return self

    def __exit__(self, *a):
        if self.own is None:
            del self.cls.step
        else:
            self.cls.step = self.own


class nothing:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def construct(V, net):
    from pipedream_solver import superlink, nsuperlink
    from symx import pdshim
    cls = nsuperlink.nSuperLink if net.cls == 'n' else superlink.SuperLink
    with (pdshim.tables() if V.symbolic() else nothing()):
        t, kw = draw(V, net)
        before = {k: v.copy() for k, v in kw.items()}
        with stepless(cls) as st:
            m = cls(internal_links=net.n, mobile_elements=net.mobile, auto_permute=net.perm, **kw)
        for k, v in kw.items():
            V.check('table of %s unchanged' % k, list(v.columns) == list(before[k].columns) and list(v.index) == list(before[k].index) and
                    all(same(a, b) for c in v.columns for a, b in zip(v[c].values, before[k][c].values)))
    V.check('one short step to settle', len(st.calls) == 1 and st.calls[0][1].get('dt', 1.) <= 1e-3)
    return t, kw, m


def same(a, b):
    return a is b or (bool(a == b) if not hasattr(a, 'e') else a.e.eq(b.e))


def spec(V, net):
    t, kw, m = construct(V, net)
    s, l = t['sj'], t['sl']
    M, K = net.M, net.K()
    mind = 1e-5
    pos = list(range(M))                     # place of each superjunction in the model
    if net.perm:
        pos = [int(x) for x in np.argsort(m.permutations)]
        V.check('places are a permutation', sorted(pos) == list(range(M)))
    V.check('sizes', m.M == M and m.NK == K)
    V.check_eq('time', m.t, 0.)
    V.check('step count', m.iter_count == 0)
    for j in range(M):
        p = pos[j]
        nm = 'superjunction %d: ' % j
        V.check_eq(nm + 'invert', m._z_inv_j[p], s['z_inv'][j])
        V.check_eq(nm + 'head', m.H_j[p], s['z_inv'][j] + V.max(s['h_0'][j], mind))
        for c in 'abc':
            V.check_eq(nm + 'storage ' + c, getattr(m, '_storage_' + c)[p], s[c][j])
        for c in ('map_x', 'map_y'):
            V.check_eq(nm + c, getattr(m, '_%s_j' % c)[p], s[c][j])
        if net.depths:
            V.check_eq(nm + 'largest depth', m.max_depth[p], s['max_depth'][j])
        else:
            V.check(nm + 'no largest depth', bool(np.isinf(m.max_depth[p])))
        V.check(nm + 'prescribed or not', bool(m.bc[p]) == (j in net.bc))
        V.check(nm + 'name', m.superjunction_names[p] == 'S%d' % j)
    ends = lambda k, c, d: l[c][k] if c in l else d
    for k, (a, b) in enumerate(net.pairs):
        nm = 'superlink %d: ' % k
        u = dict(j=a, off=l['in_offset'][k], dx=ends(k, 'dx_uk', 0.), C=ends(k, 'C_uk', 1 / .67 ** 2))
        d = dict(j=b, off=l['out_offset'][k], dx=ends(k, 'dx_dk', 0.), C=ends(k, 'C_dk', 1 / .67 ** 2))
        q = l['Q_0'][k]
        zu, zd = [s['z_inv'][e['j']] + e['off'] for e in (u, d)]
        if k in net.free and not net.nks and V.branch(zu < zd):
            # an adverse superlink is turned around, with everything that belongs to its ends
            u, d, q, zu, zd = d, u, -q, zd, zu
        V.check(nm + 'ends', int(m._J_uk[k]) == pos[u['j']] and int(m._J_dk[k]) == pos[d['j']])
        V.check_eq(nm + 'upstream invert', m._z_inv_uk[k], zu)
        V.check_eq(nm + 'downstream invert', m._z_inv_dk[k], zd)
        for at, e in (('uk', u), ('dk', d)):
            V.check_eq(nm + 'end reach ' + at, getattr(m, '_dx_' + at)[k], e['dx'])
            V.check_eq(nm + 'end loss ' + at, getattr(m, '_C_' + at)[k], e['C'])
        if net.depths:
            V.check_eq(nm + 'largest depth', m.max_depth_k[k], l['max_depth'][k])
        V.check(nm + 'name', m.superlink_names[k] == 'L%d' % k)
        # the chain of junctions and links
        I, chain, links = int(m._I_1k[k]), [], []
        nxt = {int(i): n for n, i in enumerate(m._Ik)}
        while True:
            chain.append(I)
            if I == int(m._I_Np1k[k]) or len(chain) > 9:
                break
            i = nxt[I]
            links.append(i)
            I = int(m._Ip1k[i])
        n = len(links)
        V.check(nm + 'number of links', n == int(m.nk[k]) == (net.nks[k] if net.nks else net.n))
        V.check(nm + 'members', all(int(m._ki[i]) == k for i in links) and all(int(m._kI[I]) == k for I in chain))
        V.check(nm + 'first and last link', int(m._i_1k[k]) == links[0] and int(m._i_nk[k]) == links[-1])
        V.check(nm + 'second and last but one junction', int(m._I_2k[k]) == chain[1] and int(m._I_Nk[k]) == chain[-2])
        slope = (zu - zd) / (l['dx'][k] + u['dx'] + d['dx'])
        if net.nks:
            L, J = t['links'], t['junctions']
            x = u['dx']
            for w, I in enumerate(chain):
                V.check_eq(nm + 'bed of junction %d' % w, m._z_inv_Ik[I], J['z_inv'][I])
                V.check_eq(nm + 'position of junction %d' % w, m._x_Ik[I], x)
                V.check_eq(nm + 'depth of junction %d' % w, m._h_Ik[I], V.max(J['h_0'][I], mind))
                V.check_eq(nm + 'area of junction %d' % w, m._A_SIk[I], J['A_s'][I])
                if w < n:
                    x = x + L['dx'][links[w]]
            for i in links:
                for c, at in (('dx', 'dx'), ('g1', 'g1'), ('roughness', 'n'), ('Q_0', 'Q'), ('A_c', 'A_c'), ('C', 'C')):
                    V.check_eq(nm + '%s of link %d' % (c, i), getattr(m, '_%s_ik' % at)[i], L[c][i])
                V.check_eq(nm + 'slope of link %d' % i, m._S_o_ik[i] * L['dx'][i], J['z_inv'][int(m._Ik[i])] - J['z_inv'][int(m._Ip1k[i])])
            V.check_eq(nm + 'slope upstream', m._S_o_uk[k] * u['dx'], zu - J['z_inv'][chain[0]])
            V.check_eq(nm + 'slope downstream', m._S_o_dk[k] * d['dx'], J['z_inv'][chain[-1]] - zd)
            V.check_eq(nm + 'roughness upstream', m._n_uk[k], L['roughness'][links[0]])
            V.check_eq(nm + 'roughness downstream', m._n_dk[k], L['roughness'][links[-1]])
            continue
        x0 = u['dx']
        for w, I in enumerate(chain):
            x = m._x_Ik[I]
            if not net.mobile:
                V.check_eq(nm + 'position of junction %d' % w, x, x0 + l['dx'][k] * w / n)
            elif w in (0, n):
                V.check_eq(nm + 'position of junction %d' % w, x, x0 + (l['dx'][k] if w else 0.))
            if w:
                V.check_le(nm + 'junction %d after the one before' % w, m._x_Ik[chain[w - 1]], x)
                V.check_eq(nm + 'length of link %d' % w, m._dx_ik[links[w - 1]], x - m._x_Ik[chain[w - 1]])
            V.check_eq(nm + 'bed of junction %d' % w, m._z_inv_Ik[I], zu - slope * x)
            V.check_eq(nm + 'depth of junction %d' % w, m._h_Ik[I], V.max(l['h_0'][k], mind))
            V.check_eq(nm + 'area of junction %d' % w, m._A_SIk[I], l['A_s'][k])
        if net.mobile:
            where = [int(x) for x in np.flatnonzero(~m._fixed[k])]
            V.check(nm + 'one movable junction', len(where) == 1 and 0 < where[0] < n and int(m._elem_pos[k]) == where[0])
        for i in links:
            for c, at in ((net.rough, 'n'), ('A_c', 'A_c'), ('C', 'C'), ('g1', 'g1'), ('g2', 'g2'), ('g3', 'g3'), ('g4', 'g4')):
                V.check_eq(nm + '%s of link %d' % (c, i), getattr(m, '_%s_ik' % at)[i], l[c][k])
            V.check_eq(nm + 'flow of link %d' % i, m._Q_ik[i], q)
            V.check_eq(nm + 'slope of link %d' % i, m._S_o_ik[i], slope)
            V.check(nm + 'kind of link %d' % i, str(m._shape_ik[i]) == str((net.shapes or ['rect_open'] * K)[k]).lower() and bool(m._ctrl[i]) == bool(k % 2)
                    and int(m._Sf_method_ik[i]) == dict(cm=0, hw=1, dw=2)[net.methods[k] if net.methods else 'cm'])
        if net.ends:
            V.check_eq(nm + 'slope upstream', m._S_o_uk[k], slope)
            V.check_eq(nm + 'slope downstream', m._S_o_dk[k], slope)
        V.check_eq(nm + 'roughness upstream', m._n_uk[k], l[net.rough][k])
        V.check_eq(nm + 'roughness downstream', m._n_dk[k], l[net.rough][k])
    for nm, pairs in dict(net.controls).items():
        c = nm[0]
        T = t[nm]
        V.check('number of ' + nm, getattr(m, 'n_' + c) == len(pairs))
        for a, (u, d) in enumerate(pairs):
            V.check('%s %d: ends' % (nm, a), int(getattr(m, '_J_u' + c)[a]) == pos[u] and int(getattr(m, '_J_d' + c)[a]) == pos[d])
            for col, at in dict(orifices=(('A', 'Ao_max'), ('C', 'Co'), ('z_o', 'z_o'), ('y_max', 'y_max_o'), ('g1', 'g1_o'), ('g2', 'g2_o'), ('g3', 'g3_o')),
                                weirs=(('z_w', 'z_w'), ('y_max', 'y_max_w'), ('Cr', 'Cwr'), ('Ct', 'Cwt'), ('L', 'L_w'), ('s', 's_w')),
                                pumps=(('z_p', 'z_p'), ('a_p', 'a_p'), ('b_p', 'b_p'), ('c_p', 'c_p'), ('dH_max', 'dHp_max'), ('dH_min', 'dHp_min')))[nm]:
                V.check_eq('%s %d: %s' % (nm, a, col), getattr(m, '_' + at)[a], T[col][a])
            if nm == 'orifices':
                V.check('orifice %d: kind' % a, float(m._tau_o[a]) == (1., 0., 1.)[a] and str(m._shape_o[a]) == ('circular', 'rect_closed', 'rect_open')[a]
                        and bool(m._unidir_o[a]) == (a == 1))
    V.observe('H0', m.H_j[0])
    V.observe('z0', m._z_inv_Ik[0])
