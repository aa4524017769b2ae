"""Concrete model skeletons (topology, indices) whose numeric state the harnesses replace."""
import copy
import numpy as np
from symx import npshim
from symx.harness import Harness

_CACHE = {}


def pd():
    import pandas
    return pandas


def sj_table(M, z=None, bc=(), h0=0.5, storage=None, a=None, b=0., c=None, table=None, max_depth=None):
    P = pd()
    z = [float(M - i) * 0.5 for i in range(M)] if z is None else z
    d = dict(id=range(M), name=range(M), z_inv=z, h_0=[h0] * M if np.isscalar(h0) else h0, bc=[i in bc for i in range(M)],
             storage=['functional'] * M if storage is None else storage,
             a=[0.] * M if a is None else a, b=[b] * M if np.isscalar(b) else b, c=[10.] * M if c is None else c)
    if table is not None:
        d['table'] = table
    if max_depth is not None:
        d['max_depth'] = max_depth
    return P.DataFrame(d)


def sl_table(pairs, dx=100., shape='rect_open', g1=3., g2=2., n=0.01, in_off=0., out_off=0., h0=0.4, Q0=0., **extra):
    P = pd()
    K = len(pairs)

    def col(v):
        return list(v) if isinstance(v, (list, tuple, np.ndarray)) else [v] * K
    d = dict(id=range(K), name=range(K), sj_0=[p[0] for p in pairs], sj_1=[p[1] for p in pairs], in_offset=col(in_off),
             out_offset=col(out_off), dx=col(dx), n=col(n), shape=col(shape), g1=col(g1), g2=col(g2), g3=col(0.), g4=col(0.),
             Q_0=col(Q0), h_0=col(h0), ctrl=col(False), A_s=col(0.), A_c=col(0.), C=col(0.))
    for k, v in extra.items():
        d[k] = col(v)
    return P.DataFrame(d)


def orifice_table(pairs, orient='side', A=0.3, C=0.67, z_o=0.2, y_max=0.5, **extra):
    P = pd()
    K = len(pairs)

    def col(v):
        return list(v) if isinstance(v, (list, tuple)) else [v] * K
    d = dict(id=range(K), name=range(K), sj_0=[p[0] for p in pairs], sj_1=[p[1] for p in pairs], A=col(A), orientation=col(orient),
             z_o=col(z_o), y_max=col(y_max), C=col(C))
    for k, v in extra.items():
        d[k] = col(v)
    return P.DataFrame(d)


def weir_table(pairs, z_w=0.3, y_max=1., Cr=1.7, Ct=1.4, L=2., s=1.):
    P = pd()
    K = len(pairs)
    return P.DataFrame(dict(id=range(K), name=range(K), sj_0=[p[0] for p in pairs], sj_1=[p[1] for p in pairs], z_w=[z_w] * K,
                            y_max=[y_max] * K, Cr=[Cr] * K, Ct=[Ct] * K, L=[L] * K, s=[s] * K))


def pump_table(pairs, z_p=0.1, a_p=10., b_p=2., c_p=2., dH_max=8., dH_min=0.5):
    P = pd()
    K = len(pairs)
    return P.DataFrame(dict(id=range(K), name=range(K), sj_0=[p[0] for p in pairs], sj_1=[p[1] for p in pairs], z_p=[z_p] * K,
                            a_p=[a_p] * K, b_p=[b_p] * K, c_p=[c_p] * K, dH_max=[dH_max] * K, dH_min=[dH_min] * K))


def internals(superlinks, superjunctions, nks, dx=50.):
    """explicit links / junctions tables with nks[k] links in superlink k"""
    P = pd()
    L, J = [], []
    j = 0
    zu = superjunctions['z_inv'].values[superlinks['sj_0'].values] + superlinks['in_offset'].values
    zd = superjunctions['z_inv'].values[superlinks['sj_1'].values] + superlinks['out_offset'].values
    j0, j1 = [], []
    for k, nk in enumerate(nks):
        j0.append(j)
        for i in range(nk + 1):
            fr = i / nk
            J.append(dict(id=j, k=k, h_0=0.4, z_inv=float(zu[k] * (1 - fr) + zd[k] * fr), A_s=0.))
            if i < nk:
                L.append(dict(A_c=0., C=0., Q_0=0., ctrl=False, dx=dx, id=len(L), j_0=j, j_1=j + 1, k=k,
                              n=float(superlinks['n'].values[k]), shape=superlinks['shape'].values[k],
                              g1=float(superlinks['g1'].values[k]), g2=float(superlinks['g2'].values[k]), g3=0., g4=0.))
            j += 1
        j1.append(j - 1)
    sl = superlinks.copy()
    sl['j_0'] = j0
    sl['j_1'] = j1
    return sl, P.DataFrame(L), P.DataFrame(J)


def build(key, make):
    """construct the real object once per process with the real numpy"""
    if key not in _CACHE:
        with npshim.native():
            _CACHE[key] = make()
    return _CACHE[key]


def clone(V, m):
    """private copy whose float arrays can hold symbolic values"""
    o = copy.copy(m)
    o.__dict__ = dict(m.__dict__)
    for k, v in list(o.__dict__.items()):
        if isinstance(v, np.ndarray):
            if v.dtype.kind == 'f':
                o.__dict__[k] = _conv(V, v)
            else:
                o.__dict__[k] = v.copy()
        elif isinstance(v, dict):
            o.__dict__[k] = {kk: (_conv(V, vv) if isinstance(vv, np.ndarray) and vv.dtype.kind == 'f' else copy.copy(vv))
                             for kk, vv in v.items()}
    return o


def _conv(V, v):
    if np.isfinite(v).all():
        return V.arr(v)
    return v.copy()


def superlink_model(key, M, pairs, nk=3, nks=None, sj={}, sl={}, idx=50., fms=None, vary=None, **kw):
    def make():
        from pipedream_solver.nsuperlink import nSuperLink
        s = sj_table(M, **sj)
        l = sl_table(pairs, **sl)
        k = dict(kw)
        if nks is not None:
            l, links, junc = internals(l, s, nks, idx)
            if fms:
                links['friction_method'] = [fms[k] for k in links['k'].values]
            for df, cols in zip((links, junc), vary or ()):
                for c, v in cols.items():
                    df[c] = v
            k['links'], k['junctions'] = links, junc
        else:
            k['internal_links'] = nk
        for name, f in (('orifices', orifice_table), ('weirs', weir_table), ('pumps', pump_table)):
            v = k.get(name)
            if isinstance(v, dict):
                k[name] = f(**v)
        m = nSuperLink(l.copy(), s.copy(), **{a: b.copy() if hasattr(b, 'columns') else b for a, b in k.items()})
        m._given = (s, l, k)
        return m
    return build('%s %r' % (key, (M, pairs, nk, nks, sj, sl, idx, fms, vary, kw)), make)


class View:
    """a model whose constant properties are those of the tables it was built from, at the places the model gives them"""

    def __init__(self, m):
        s, l, kw = m._given
        self._m = m
        o = self.__dict__
        M, K = len(s), len(l)
        pos = np.argsort(m.permutations) if kw.get('auto_permute') else np.arange(M)
        at = lambda col: np.asarray(s[col].values)[np.argsort(pos)]
        o['_z_inv_j'] = at('z_inv').astype(float)
        o['bc'] = at('bc')
        for c in 'abc':
            o['_storage_' + c] = at(c).astype(float)
        o['storage_kind'] = [str(x).lower() for x in at('storage')]
        if 'table' in s:
            o['storage_table'] = at('table')
        o['min_depth'] = float(kw.get('min_depth', 1e-5))
        col = lambda c, d: l[c].values.astype(float) if c in l else np.full(K, d)
        u = dict(j=l['sj_0'].values, off=col('in_offset', 0.), dx=col('dx_uk', 0.), C=col('C_uk', 1 / .67 ** 2))
        d = dict(j=l['sj_1'].values, off=col('out_offset', 0.), dx=col('dx_dk', 0.), C=col('C_dk', 1 / .67 ** 2))
        z = s['z_inv'].values.astype(float)
        links, juncs = kw.get('links'), kw.get('junctions')
        turn = (z[u['j']] + u['off'] < z[d['j']] + d['off']) & (links is None)
        for c in u:
            u[c], d[c] = np.where(turn, d[c], u[c]), np.where(turn, u[c], d[c])
        o['_J_uk'], o['_J_dk'] = pos[u['j']], pos[d['j']]
        o['_z_inv_uk'], o['_z_inv_dk'] = zu, zd = z[u['j']] + u['off'], z[d['j']] + d['off']
        o['_dx_uk'], o['_dx_dk'], o['_C_uk'], o['_C_dk'] = u['dx'], d['dx'], u['C'], d['C']
        if links is None:
            n = kw['internal_links']
            rep = lambda c: np.repeat(l[c].values, n)
            if not kw.get('mobile_elements'):
                o['_dx_ik'] = np.repeat(l['dx'].values.astype(float) / n, n)
                L = l['dx'].values.astype(float)
                slope = (zu - zd) / (L + u['dx'] + d['dx'])
                o['_z_inv_Ik'] = np.concatenate([zu[k] - slope[k] * (u['dx'][k] + L[k] * np.arange(n + 1) / n) for k in range(K)])
            o['_A_SIk'] = np.repeat(col('A_s', 0.), n + 1)
            t = l
        else:
            rep = lambda c: links[c].values
            o['_dx_ik'], o['_z_inv_Ik'], o['_A_SIk'] = links['dx'].values.astype(float), juncs['z_inv'].values.astype(float), juncs['A_s'].values.astype(float)
            t = links
        o['_n_ik'] = rep('n').astype(float)
        o['_shape_ik'] = rep('shape')
        for g in range(1, 8):
            if 'g%d' % g in t:
                o['_g%d_ik' % g] = rep('g%d' % g).astype(float)
        o['_C_ik'], o['_A_c_ik'], o['_ctrl'] = rep('C').astype(float), rep('A_c').astype(float), rep('ctrl').astype(bool)
        o['_Sf_method_ik'] = [dict(cm=0, hw=1, dw=2)[x] for x in rep('friction_method')] if 'friction_method' in t else [0] * len(rep('n'))
        if 'transect' in t:
            o['link_transect'] = rep('transect')
        for nm in ('orifices', 'weirs', 'pumps'):
            df = kw.get(nm)
            o['n_' + nm[0]] = 0 if df is None else len(df)
            if df is not None:
                o['_J_u' + nm[0]], o['_J_d' + nm[0]] = pos[df['sj_0'].values], pos[df['sj_1'].values]
                for c, a in self.CONTROLS[nm]:
                    o['_' + a] = df[c].values.astype(float)

    CONTROLS = dict(orifices=(('A', 'Ao_max'), ('C', 'Co'), ('z_o', 'z_o'), ('y_max', 'y_max_o')),
                    weirs=(('z_w', 'z_w'), ('y_max', 'y_max_w'), ('Cr', 'Cwr'), ('Ct', 'Cwt'), ('L', 'L_w'), ('s', 's_w')),
                    pumps=(('z_p', 'z_p'), ('a_p', 'a_p'), ('b_p', 'b_p'), ('c_p', 'c_p'), ('dH_max', 'dHp_max'), ('dH_min', 'dHp_min')))

    def __getattr__(self, a):
        return getattr(self.__dict__['_m'], a)
