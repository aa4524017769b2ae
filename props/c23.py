"""C23 data assimilation"""
from .kalman import *

HARNESSES = [Harness('update_1', update, dict(M=1, obs=1, a=1, free=('Z', 'P', 'b', 'Q', 'R', 'H', 'A'))),
             Harness('update_2_1', update, dict(free=('P', 'R', 'H'))), Harness('update_2_1_noise', update, dict(free=('Q', 'R'), a=2)), Harness('update_2_1_system', update, dict(free=('A',))),
             Harness('update_2_2', update, dict(obs=2, free=('P', 'R'))), Harness('update_2_2_c', update, dict(obs=2, a=1, free=('Q',))),
             Harness('sr_1', update, dict(SR=True, M=1, obs=1, a=1, free=('Z', 'P', 'b', 'Q', 'R', 'H', 'A')))] + [
             Harness('sr_2_%d_%d' % (o, a), update, dict(SR=True, obs=o, a=a, free=())) for o in (1, 2) for a in (1, 2)] + [
             Harness('assimilate_%s_%d' % (k, len(o)), assimilate, dict(scn=k, seen=o, SR=r, own=w), linear=True) for k, o, r, w in
             (('chain', (0,), False, True), ('chain', (0, 2), False, False), ('loop', (1,), False, True), ('controls', (2, 0), False, True), ('reaches', (1,), True, True))] + [
             Harness('state_space_' + k, state_space, dict(scn=k), linear=True) for k in ('chain', 'loop', 'controls', 'reaches', 'offsets', 'banded')] + [
             Harness('given_%s_%s' % (w, h), forms, dict(what=w, how=h)) for w in ('Qcov', 'Rcov', 'C', 'H') for h in ('none', 'number', 'vector', 'matrix')]
