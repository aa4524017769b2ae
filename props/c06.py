"""C06 water at rest"""
from .rest import *
T2 = [(0, 1)]
T3 = [(0, 1), (1, 2)]
Z3 = dict(z=[0.75, 0.5, 0.25])
LO = [(0, 1), (0, 2), (2, 1)]


def hs(name, weight=1, tier='quick', **kw):
    return Harness(name, rest, dict(key=name, **kw), weight=weight, tier=tier)


HARNESSES = [
    hs('channel', M=2, pairs=T2, nk=2, sj=dict(z=[.5, .25])),
    hs('chain', M=3, pairs=T3, nk=2, sj=Z3, inflow=True),
    hs('forwards', M=2, pairs=T2, nk=2, sj=dict(z=[.5, .25]), method='f', levels=(1.25, 2.)),
    hs('forwards_l', M=2, pairs=T2, nk=2, sj=dict(z=[.5, .25]), method='f', dt=4.),
    hs('least_squares_l', M=2, pairs=T2, nk=2, sj=dict(z=[.5, .25]), method='lsq', dt=4.),
    hs('unequal', M=3, pairs=T3, nks=[1, 2], sj=Z3, dt=4.),
    hs('trapezoid', M=2, pairs=T2, nk=2, sj=dict(z=[.5, .25]), sl=dict(shape='trapezoidal', g1=4., g2=1., g3=.5), levels=(1.25, 2.)),
    hs('trapezoid_l', M=2, pairs=T2, nk=2, sj=dict(z=[.5, .25]), sl=dict(shape='trapezoidal', g1=4., g2=1., g3=.5), dt=4.),
    hs('triangle', M=2, pairs=T2, nk=2, sj=dict(z=[.5, .25]), sl=dict(shape='triangular', g1=4., g2=1.)),
    hs('closed', M=2, pairs=T2, nk=2, sj=dict(z=[.5, .25]), sl=dict(shape='rect_closed', g1=1., g2=1., g3=.03125)),
    hs('flat_reaches', M=2, pairs=T2, nk=2, sj=dict(z=[.5, .5]), sl=dict(dx_uk=4., dx_dk=8.)),
    hs('reaches_b', M=2, pairs=T2, nk=1, sj=dict(z=[.5, .5]), sl=dict(dx_uk=4., dx_dk=8.), bc_method='b', dt=4.),
    hs('boundary', M=3, pairs=T3, nk=2, sj=dict(bc=(0,), **Z3)),
    hs('damping', M=2, pairs=T2, nk=2, sj=dict(z=[.5, .25]), inertial_damping=True),
    hs('offsets', M=3, pairs=T3, nk=2, sj=Z3, sl=dict(in_off=[0., .25], out_off=[.125, 0.])),
    hs('losses', M=2, pairs=T2, nk=2, sj=dict(z=[.5, .25]), sl=dict(ctrl=True, C=.75, A_c=.5, C_uk=1., C_dk=.5)),
    hs('tree', M=3, pairs=LO, nk=1, sj=Z3),
    hs('controls', M=3, pairs=T3, nk=1, sj=Z3, lo=1.5, controls=dict(u_o=1, u_w=1), orifices=dict(pairs=[(0, 2)]), weirs=dict(pairs=[(0, 1)])),
    hs('storage', M=3, pairs=T3, nk=1, sj=dict(storage=['tabular', 'functional', 'tabular'], table=['b', None, 'a'], **Z3), 
       storages={'b': dict(h=np.array([0., 1., 2., 3.]), A=np.array([10., 20., 40., 41.])), 'a': dict(h=np.array([0., 4.]), A=np.array([5., 8.]))}),
    hs('iterated', M=2, pairs=T2, nk=2, sj=dict(z=[.5, .25]), num_iter=2),
    hs('banded', M=3, pairs=T3, nk=2, sj=Z3, banded=True, auto_permute=True),
]
