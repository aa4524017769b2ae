"""C11 hydraulic geometry"""
from .sections import *
HARNESSES = [Harness('link_' + s, links, dict(shapes=(s,)), bounds='one link, any depths and dimensions') for s in NG] + \
    [Harness('up_' + s, ends, dict(shapes=(s,), side='u'), bounds='one superlink end, any depths, head and dimensions') for s in NG] + \
    [Harness('down_' + s, ends, dict(shapes=(s,), side='d'), bounds='one superlink end, any depths, head and dimensions') for s in NG] + \
    [Harness('slot_' + s, slots, dict(shape=s)) for s in ('circular', 'rect_closed', 'force_main')] + \
    [Harness('two_links', links, dict(shapes=('rect_open', 'trapezoidal'), nk=2))] + \
    [Harness('beside_survey_' + p, lookup, dict(names=(None, 'wide_v'), part=p, nk=2, regular=True), bounds='regular sections in a network that also has a surveyed one') for p in ('links', 'u', 'd')]
