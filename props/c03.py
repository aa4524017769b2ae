"""C03 link momentum"""
from .e2e import *
from .hydro import link_momentum, recurrences
HARNESSES = [
    Harness('link', link_momentum, dict(), generic=True),
    Harness('link_ctrl', link_momentum, dict(ctrl=True), generic=True),
    Harness('link_hw', link_momentum, dict(nks=(2,), pairs=((0, 1),), M=2, sf=1), generic=True),
    Harness('rec', recurrences, dict(M=3, pairs=[(0, 1), (1, 2)], nks=[3, 1]), generic=True),
] + runs('momentum')
