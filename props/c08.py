"""C08 orifices"""
from .controls import *
SH = ('circular', 'rect_closed', 'rect_open', 'triangular', 'trapezoidal', 'parabolic', 'elliptical', 'wide', 'force_main')
HARNESSES = [Harness('flow_%s_%s' % (o, w), orifice_flow, dict(orient=(o,), oneway=(w,))) for o in ('side', 'bottom') for w in (False, True)] + [
    Harness('flow_no_oneway', orifice_flow, dict(orient=('side',)))] + [
    Harness('flow_%s_%s%s_%d' % ('_'.join(o), *map(int, w), f), orifice_flow, dict(orient=o, oneway=w, fix=f)) for f in (0, 1)
    for o, w in ((('side', 'bottom'), (False, False)), (('side', 'side'), (True, False)), (('bottom', 'side'), (False, True)))] + [
    Harness('flow_both_free', orifice_flow, dict(orient=('side', 'side'), oneway=(True, False)), tier='thorough'),
    Harness('closed', orifice_flow, dict(orient=('side', 'bottom'), closed=True)),
    Harness('area_plain', plain_orifice)] + [
    Harness('area_' + s, orifice_area, dict(shapes=(s,))) for s in SH] + [
    Harness('area_two', orifice_area, dict(shapes=('rect_closed', 'triangular')))] + [
    Harness('step_' + s, control_step, dict(scn=s, kind='o'), linear=True) for s in CTRL]
