"""C21 root finding"""
from .roots import *

HARNESSES = [Harness('bracketed_%s_%d' % ('ud'[s], n), bracketed, dict(n=n, side=s), div='check', max_paths=20000) for s in (0, 1) for n in (1, 2)] + [
    Harness('plain_%d' % n, plain, dict(n=n), div='check') for n in (1, 2, 3)]
