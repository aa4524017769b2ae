"""C16 positions of internal junctions"""
from .common import *


def mobile_model(nlinks, K=2, dxu=0.):
    M = K + 1
    return superlink_model('mob%d%d%s' % (nlinks, K, dxu), M, [(k, k + 1) for k in range(K)], nk=nlinks, mobile_elements=True,
                           sl=dict(dx_uk=dxu, dx_dk=dxu) if dxu else {})


def reposition(V, nlinks, moved=0, K=2, dxu=0., only=None, again=False):
    """superlink `moved` is in an arbitrary state, the other in a fixed one"""
    m = clone(V, mobile_model(nlinks, K, dxu))
    n = nlinks + 1
    others = {}
    N = len(m._I)
    m._h_Ik = V.reals('h', N, lo=0., box=(0, 2))
    m._Q_ik = V.reals('Q', len(m._ik), box=(-2, 2))
    H = [V.real('H_%d' % j, box=(0, 3)) for j in range(m.M)]
    exp = []
    for k in range(K):
        I1, i1, jd = int(m._I_1k[k]), int(m._i_1k[k]), int(m._J_dk[k])
        if k != moved:
            # its downstream head is below the bed: goes back to (stays at) the centre
            H[jd] = V.const(-50.)
            others[k] = ([m._x_Ik[I] for I in range(I1, I1 + n)], [m._h_Ik[I] for I in range(I1, I1 + n)], [m._Q_ik[i] for i in range(i1, i1 + nlinks)],
                         [m._z_inv_Ik[I] for I in range(I1, I1 + n)], [m._dx_ik[i] for i in range(i1, i1 + nlinks)], int(m._elem_pos[k]))
            continue
        b0, s = V.real('bottom', box=(1.5, 2.)), V.real('slope', hi=0., box=(-.02, -.002))
        V.assume(s < 0)
        x0 = V.real('start', lo=0., box=(0, 5)) if dxu else V.const(0.)
        gap = V.reals('gap', nlinks, pos=True, box=(5, 30))
        pos = V.choice('position', tuple(range(1, nlinks)))
        x = [x0]
        for g in gap:
            x.append(x[-1] + g)
        z = [b0 + s * (xi - x0) for xi in x]
        for i in range(n):
            m._x_Ik[I1 + i], m._z_inv_Ik[I1 + i] = x[i], z[i]
        for i in range(nlinks):
            m._dx_ik[i1 + i] = gap[i]
        L = x[-1] - x0
        xc = L * V.real('centre', lo=.25, hi=.75)
        m._b0[k], m._m[k], m._xc[k], m._zc[k] = b0, s, xc, b0 + s * xc
        m._b1[k] = z[-1]
        m._elem_pos[k] = pos
        h, Q = [m._h_Ik[I] for I in range(I1, I1 + n)], [m._Q_ik[i] for i in range(i1, i1 + nlinks)]
        Hd = H[jd]
        inside = V.branch(V.and_(Hd > z[-1], Hd < z[0]))
        xm = (Hd - b0) / s + x0 if inside else xc + x0
        zm = b0 + s * (xm - x0)
        # the new position differs from the fixed junctions
        c = None
        for i in range(1, n):
            if i != pos:
                V.assume(V.or_(xm < x[i], xm > x[i]))
        for i in range(1, n):
            if c is None and V.branch(xm <= x[i]):
                c = i
        fr = (xm - x[c - 1]) / (x[c] - x[c - 1])
        hm = (1 - fr) * h[c - 1] + fr * h[c]
        # the junction is taken out of the old profile and put into the new one
        fx = [x[i] for i in range(n) if i != pos]
        fz, fh = [z[i] for i in range(n) if i != pos], [h[i] for i in range(n) if i != pos]
        new = c if c <= pos else c - 1
        ex = fx[:new] + [xm] + fx[new:]
        ez = fz[:new] + [zm] + fz[new:]
        eh = fh[:new] + [hm] + fh[new:]
        if new == pos:
            eQ = Q
        else:
            r = gap[pos - 1] / (gap[pos - 1] + gap[pos])
            rest = Q[:pos - 1] + [r * Q[pos - 1] + (1 - r) * Q[pos]] + Q[pos + 1:]
            eQ = rest[:new] + rest[new - 1:]
        exp = (I1, i1, ex, ez, eh, eQ, new)
    m.H_j = V.vec(H)
    sel = None if only is None else np.array([k in only for k in range(K)])
    m.reposition_junctions(sel) if sel is not None else m.reposition_junctions()
    I1, i1, ex, ez, eh, eQ, new = exp
    if only is not None and moved not in only:
        ex, ez, eh, eQ, new = x, z, h, Q, pos
    for i in range(n):
        V.check_eq('position[%d]' % i, m._x_Ik[I1 + i], ex[i])
        V.check_eq('invert[%d]' % i, m._z_inv_Ik[I1 + i], ez[i])
        V.check_eq('depth[%d]' % i, m._h_Ik[I1 + i], eh[i])
    for i in range(nlinks):
        V.check_eq('length[%d]' % i, m._dx_ik[i1 + i], ex[i + 1] - ex[i])
        V.check_eq('flow[%d]' % i, m._Q_ik[i1 + i], eQ[i])
    V.fact('place of the movable junction', int(m._elem_pos[moved]) == new)
    for k, (x, h, Q, z, dx, p) in others.items():
        I1, i1 = int(m._I_1k[k]), int(m._i_1k[k])
        for i in range(n):
            V.check_eq('other superlink: position[%d,%d]' % (k, i), m._x_Ik[I1 + i], x[i])
            V.check_eq('other superlink: invert[%d,%d]' % (k, i), m._z_inv_Ik[I1 + i], z[i], near=1e-9)
            V.check_eq('other superlink: depth[%d,%d]' % (k, i), m._h_Ik[I1 + i], h[i])
        for i in range(nlinks):
            V.check_eq('other superlink: length[%d,%d]' % (k, i), m._dx_ik[i1 + i], dx[i])
            V.check_eq('other superlink: flow[%d,%d]' % (k, i), m._Q_ik[i1 + i], Q[i])


HARNESSES = [Harness('one_%d' % n, reposition, dict(nlinks=n, K=1)) for n in (2, 3, 4)] + [
    Harness('end_reach_3', reposition, dict(nlinks=3, K=1, dxu=4.)),
    Harness('first_of_two', reposition, dict(nlinks=3, moved=0)), Harness('second_of_two', reposition, dict(nlinks=3, moved=1)),
    Harness('selected', reposition, dict(nlinks=2, moved=1, only=(1,))), Harness('not_selected', reposition, dict(nlinks=2, moved=0, only=(1,)))]
