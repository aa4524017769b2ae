"""C01 superjunction volume balance"""
from .e2e import *
from .hydro import balance
FORK = ((0, 1), (0, 2), (3, 1), (2, 3))
HARNESSES = [
    Harness('chain', balance, dict(M=3, pairs=T3)),
    Harness('chain_banded', balance, dict(M=3, pairs=T3, banded=True, again=True)),
    Harness('loop_bc', balance, dict(M=4, pairs=FORK, bc=(2,), again=True, max_depth=1)),
    Harness('loop_banded', balance, dict(M=4, pairs=FORK, bc=(2,), banded=True, dtarg=False)),
    Harness('controls', balance, dict(M=4, pairs=T3 + ((2, 3),), bc=(3,), orifices=((0, 2), (2, 0), (0, 2)), weirs=((1, 3), (2, 1)), pumps=((2, 0), (1, 0)), again=True)),
    Harness('controls_banded', balance, dict(M=4, pairs=T3 + ((2, 3),), bc=(0,), orifices=((0, 1), (3, 1)), weirs=((1, 3), (1, 2)), pumps=((2, 3), (3, 0)), again=True, banded=True)),
    Harness('parallel', balance, dict(M=3, pairs=((0, 1), (0, 1), (1, 0), (1, 2)), again=True)),
    Harness('parallel_banded', balance, dict(M=3, pairs=((1, 2), (0, 1), (2, 1), (0, 1)), orifices=((0, 2), (0, 2), (2, 0)), bc=(2,), banded=True, again=True)),
    Harness('parallel_controls', balance, dict(M=3, pairs=((0, 1),), bc=(1,), orifices=((0, 2), (0, 2)), weirs=((2, 0), (2, 0), (0, 2)), pumps=((1, 2), (0, 2), (0, 2)), again=True)),
] + runs('balance')
