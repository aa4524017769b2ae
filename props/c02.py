"""C02 internal junction continuity"""
from .e2e import *
from .hydro import node_continuity, recurrences, internals_solve
HARNESSES = [
    Harness('node', node_continuity, dict(), generic=True),
    Harness('node2', node_continuity, dict(inflow=False, dtarg=False, nks=(1, 2)), generic=True),
    Harness('rec', recurrences, dict(M=3, pairs=[(0, 1), (1, 2)], nks=[2, 4]), generic=True),
    Harness('int_b', internals_solve, dict(), generic=True),
    Harness('int_f', internals_solve, dict(method='f'), generic=True),
    Harness('int_lsq', internals_solve, dict(method='lsq', M=3, pairs=((0, 1), (1, 2), (0, 2)), nks=(2, 4, 3)), generic=True),
] + runs('continuity')
