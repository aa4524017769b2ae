"""C27 input tables"""
from .tables import *

CTRL = (('orifices', ((0, 2), (2, 1))), ('weirs', ((1, 2), (2, 0))), ('pumps', ((2, 1),)))
NETS = {
    'chain': Net(3, ((0, 1), (1, 2))),
    'ends': Net(3, ((0, 1), (0, 2)), n=2, ends=False, losses=False, depths=False, rough='roughness', shapes=['Rect_Open', 'trapezoidal'], methods=['dw', 'hw']),
    'adverse': Net(3, ((0, 1), (2, 1)), n=2, free=(0, 1)),
    'adverse_plain': Net(2, ((1, 0),), n=4, free=(0,), ends=False, losses=False),
    'controls': Net(3, ((0, 1), (1, 2)), n=2, controls=CTRL, bc=(2,)),
    'renumbered': Net(4, ((0, 3), (0, 2), (1, 2)), n=2, perm=True, controls=(('orifices', ((0, 1), (3, 1))), ('weirs', ((1, 3),)), ('pumps', ((3, 2),))), bc=(3,)),
    'shuffled': Net(5, ((1, 3), (0, 2), (0, 3), (2, 4)), n=1, perm=True, controls=(('orifices', ((0, 1), (3, 4))), ('weirs', ((1, 4), (2, 3))), ('pumps', ((3, 0), (4, 1)))), bc=(4, 1), depths=False),
    'shuffled_more': Net(5, ((0, 4), (3, 4), (2, 3), (1, 2)), n=1, perm=True, free=(3,), controls=(('orifices', ((2, 4),)), ('weirs', ((0, 1), (1, 3))), ('pumps', ((0, 2),))), bc=(0,), losses=False),
    'adverse_renumbered': Net(4, ((0, 3), (1, 0), (3, 2)), n=1, perm=True, free=(0, 1, 2), depths=False),
    'movable_adverse': Net(2, ((0, 1),), n=2, mobile=True, free=(0,)),
    'movable_even': Net(2, ((0, 1), (0, 1)), n=4, mobile=True),
    'movable_odd': Net(2, ((0, 1), (0, 1)), n=3, mobile=True),
    'explicit': Net(3, ((0, 1), (1, 2)), nks=(2, 3), rough='roughness'),
    'explicit_adverse': Net(2, ((0, 1),), nks=(2,), rough='roughness', free=(0,)),
}
HARNESSES = [Harness('read_' + k, spec, dict(net=v), weight=2) for k, v in NETS.items()]
