"""C13 surveyed cross sections"""
from .sections import *
HARNESSES = [Harness('links_%d' % i, lookup, dict(names=n, part='links', nk=k), generic=True) for i, (n, k) in enumerate([(('wide_v', 'low_flow'), 1), (('low_flow', None, 'wide_v'), 1), (('wall',), 2)])] + \
    [Harness('%s_%d' % (p, i), lookup, dict(names=n, part=p, nk=2), generic=True) for p in 'ud' for i, n in enumerate([('low_flow',), (None, 'wide_v')])] + \
    [Harness('survey_%d_%d' % (n, s), survey, dict(n=n, samples=s, bed=b), tier='thorough' if (n, s) == (3, 2) else 'quick') for n, s, b in ((2, 3, None), (3, 2, None), (3, 3, 1), (4, 2, 1))] + \
    [Harness('survey_listed_first', survey, dict(n=2, samples=2, other=True))]
