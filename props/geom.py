"""Independent textbook cross sections: depth -> (area, wetted perimeter, top width)."""
import math


class F:
    """float arithmetic for the formulas below"""
    sqrt = staticmethod(math.sqrt)
    max = staticmethod(max)
    min = staticmethod(min)
    pow = staticmethod(lambda x, y: x ** y)
    where = staticmethod(lambda c, a, b: a if c else b)
    fn2 = staticmethod(lambda n, x, y: float(__import__('scipy.special').special.ellipeinc(x, y)))
    fn = staticmethod(lambda n, x: float(__import__('scipy.special').special.ellipe(x)) if n == 'ellipe' else getattr(math, {'arccos': 'acos', 'arcsin': 'asin', 'cos': 'cos', 'sin': 'sin', 'log': 'log'}[n])(x))


def section(shape, y, g, V=F):
    """y: depth already limited to [0, full depth] for A and P; returns A, P, B (no slot)"""
    g1, g2, g3, g4, g5, g6, g7 = (list(g) + [0.] * 7)[:7]
    if shape == 'circular':
        r = g1 / 2
        th = V.fn('arccos', 1 - y / r)
        s, c = V.fn('sin', th), V.fn('cos', th)
        return r * r * (th - s * c), 2 * r * th, 2 * r * s
    if shape == 'rect_open':
        return g2 * y, g2 + 2 * y, g2
    if shape == 'rect_closed':
        return g2 * y, g2 + 2 * y, g2
    if shape == 'triangular':
        return g2 * y * y, 2 * y * V.sqrt(1 + g2 * g2), 2 * g2 * y
    if shape == 'trapezoidal':
        return y * (g2 + g3 * y), g2 + 2 * y * V.sqrt(1 + g3 * g3), g2 + 2 * g3 * y
    if shape == 'wide':
        return g2 * y, g2, g2
    if shape == 'force_main':
        return math.pi * g1 * g1 / 4, math.pi * g1, 0.
    if shape == 'parabolic':
        T = g2 * V.sqrt(y / g1)
        x = V.where(T > 0, 4 * y / V.where(T > 0, T, 1 + 0 * y), 1 + 0 * y)
        s = V.sqrt(1 + x * x)
        return 2 * T * y / 3, V.where(T > 0, T / 2 * (s + V.fn('log', x + s) / x), 0 * y), T
    if shape == 'elliptical':
        a, b = g2 / 2, g1 / 2
        th = V.fn('arcsin', (y - b) / b)
        s, c = V.fn('sin', th), V.fn('cos', th)
        k = 1 - a * a / (b * b)
        return a * b * (math.pi / 2 + th + s * c), 2 * b * (V.fn('ellipe', k) + V.fn2('ellipeinc', th, k)), 2 * a * c
    if shape == 'floodplain':
        # V-section (slopes g5, g6, g4 up to depths g2, g2+g3, g1) over a bottom of width g7
        y1 = V.min(y, g2)
        y2 = V.max(V.min(y, g2 + g3) - g2, 0. * y)
        y3 = V.max(y - (g2 + g3), 0. * y)
        b1, b2 = 2 * g5 * y1, 2 * g6 * y2
        A = g7 * y + g5 * y1 * y1 + b1 * y2 + g6 * y2 * y2 + (b1 + b2) * y3 + g4 * y3 * y3
        P = g7 + 2 * (y1 * V.sqrt(1 + g5 * g5) + y2 * V.sqrt(1 + g6 * g6) + y3 * V.sqrt(1 + g4 * g4))
        return A, P, g7 + b1 + b2 + 2 * g4 * y3
    raise KeyError(shape)


def full(shape, h, g):
    """float area, hydraulic radius, top width of a section with mean depth h (slots above the crown)"""
    g1 = g[0]
    y = min(max(h, 0.), g1)
    A, P, B = section(shape, y, g)
    if shape == 'rect_closed' and h > g1:
        B = g[2] * g[1]
    if shape == 'circular' and h >= g1:
        B = g[1] * g1
    if shape == 'force_main':
        B = g[1] * g1
    return A, (A / P if P > 0 else 0.), B
