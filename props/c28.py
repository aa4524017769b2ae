"""C28 recorded states"""
from .record import *

HARNESSES = [Harness('recorded_' + k, recorded, dict(net=k)) for k in NETS] + [
    Harness('recorded_from', recorded, dict(net='controls', t_start=3.)), Harness('recorded_twice', recorded, dict(net='plain', again=True)),
    Harness('recorded_failing', recorded, dict(net='plain', body_fails=True))] + [
    Harness('run_' + k, run, dict(scn=k), linear=True) for k in ('chain', 'controls')]
