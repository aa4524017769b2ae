"""C12 vectorised geometry classes"""
from .sections import *
HARNESSES = [Harness('vec_' + s, vectorised, dict(shape=s, n=2), bounds='arrays of 2 sections, any depths and dimensions') for s in CLS]
