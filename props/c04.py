"""C04 head relation at the ends of a superlink"""
from .e2e import *
from .hydro import end_flows, end_heads
HARNESSES = [
    Harness('ends', end_flows, dict(), generic=True),
    Harness('endz', end_heads, dict(), generic=True),
    Harness('endb', end_heads, dict(method='b'), generic=True),
] + runs('ends')
