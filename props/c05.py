"""C05 prescribed boundary heads"""
from .e2e import *
from .hydro import balance
FORK = ((0, 1), (0, 2), (3, 1), (2, 3))
HARNESSES = [
    Harness('loop_bc', balance, dict(M=4, pairs=FORK, bc=(2, 0), again=True)),
    Harness('loop_banded', balance, dict(M=4, pairs=FORK, bc=(1, 3), banded=True, again=True)),
    Harness('controls', balance, dict(M=4, pairs=T3 + ((2, 3),), bc=(0, 3), orifices=((0, 2), (2, 0), (0, 3)), weirs=((1, 3), (2, 1)), pumps=((2, 0), (3, 0)), again=True)),
    Harness('controls_banded', balance, dict(M=4, pairs=T3 + ((2, 3),), bc=(1, 2), orifices=((0, 1), (3, 1)), weirs=((1, 3), (1, 2)), pumps=((2, 3), (3, 0)), again=True, banded=True)),
    Harness('parallel', balance, dict(M=3, pairs=((0, 1), (0, 1), (1, 0), (1, 2)), bc=(1,), orifices=((0, 1), (1, 0), (2, 1)), weirs=((1, 2), (1, 2)), pumps=((0, 1), (1, 0)), again=True)),
    Harness('parallel_banded', balance, dict(M=3, pairs=((1, 2), (0, 1), (2, 1), (0, 1)), orifices=((0, 2), (0, 2), (2, 0)), bc=(0, 2), banded=True, again=True)),
] + runs('bc', only=[k for k, s in SCN.items() if s.H_bc is not None])
