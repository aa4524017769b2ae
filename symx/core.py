"""Symbolic execution core.

Scalars of the program under analysis are `R` (a real: exact rational constant or z3
real term) and `B` (a symbolic boolean).  Control flow that depends on a `B` forks the
path; paths are enumerated depth first by re-execution of the harness with a prefix of
recorded decisions.  Nothing here knows pipedream: it executes whatever the code does.

Arithmetic is exact real arithmetic (IEEE rounding, overflow and NaN are outside the
encoding); a float constant of the program is read as its shortest decimal.
"""
import math
import time
from fractions import Fraction
import numpy as _np
import z3

_real_float = float


class PathAbort(BaseException):
    """The path is infeasible or cut; nothing follows from it."""


class DivZero(Exception):
    """Division by a value that is zero on this path (kept distinct from ZeroDivisionError
    raised by concrete code)."""


class Undefined(Exception):
    """sqrt/log/fractional power of a negative number, etc."""


class Unsupported(Exception):
    """The encoding cannot follow the code here."""


_ctx = None


def ctx():
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c


# ---------------------------------------------------------------- rationals
_MAXBITS = 400


def frac(x):
    """Exact rational reading of a concrete number."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, (_real_float, _np.floating)):
        x = _real_float(x)
        if x != x or x in (math.inf, -math.inf):
            raise Undefined('non-finite constant %r' % x)
        return Fraction(repr(x))
    raise TypeError('not a number: %r' % (x,))


def _trim(f):
    if f.denominator.bit_length() > _MAXBITS:
        # keep 200 significant bits
        n, d = abs(f.numerator), f.denominator
        sh = 200 - (n.bit_length() - d.bit_length())
        if sh < 0:
            sh = 0
        q = (n << sh) // d
        r = Fraction(q, 1 << sh)
        return r if f >= 0 else -r
    return f


def rv(f):
    return z3.RealVal(str(f.numerator)) if f.denominator == 1 else z3.RealVal(
        '%d/%d' % (f.numerator, f.denominator))


def isinf(x):
    return isinstance(x, (_real_float, _np.floating)) and (x == math.inf or x == -math.inf)


def isnum(x):
    return isinstance(x, (int, _real_float, Fraction, _np.integer, _np.floating, _np.bool_))


# ---------------------------------------------------------------- affine forms
# Harnesses that make every coefficient of the step a constant keep values as affine forms
# (constant, {input: coefficient}); comparisons that the stated input bounds decide are decided here.
def _lin_term(l):
    c, d = l
    t = [rv(c)] if c != 0 else []
    for k in sorted(d):
        t.append(rv(d[k]) * z3.Real(k) if d[k] != 1 else z3.Real(k))
    return z3.Sum(t) if len(t) > 1 else t[0]


def _mklin(c, d):
    d = {k: _trim(v) for k, v in d.items() if v != 0}
    if not d:
        return R(c)
    r = R.__new__(R)
    r.f, r._e, r.l = None, None, (_trim(c), d)
    return r


def linvar(name):
    return _mklin(Fraction(0), {name: Fraction(1)})


def _lin2(a, b):
    """both affine (at least one not constant)?"""
    la = (a.f, {}) if a.f is not None else a.l
    if la is None:
        return None
    lb = (b.f, {}) if b.f is not None else b.l
    if lb is None:
        return None
    return la, lb


def _lin_add(la, lb, sg):
    d = dict(la[1])
    for k, v in lb[1].items():
        d[k] = d.get(k, 0) + sg * v
    return _mklin(la[0] + sg * lb[0], d)


def lin_range(l):
    """range of an affine form over the stated bounds of the inputs, or None"""
    bd = _ctx.bounds
    lo = hi = l[0]
    for k, v in l[1].items():
        b = bd.get(k)
        if b is None:
            return None
        x, y = v * b[0], v * b[1]
        if x > y:
            x, y = y, x
        lo += x
        hi += y
    return lo, hi


class R:
    """Real scalar: self.f is a Fraction (constant) or None; self.e the z3 term."""
    __slots__ = ('f', '_e', 'l')
    __array_priority__ = 100.0

    def __init__(self, v):
        self.l = None
        if isinstance(v, R):
            self.f, self._e, self.l = v.f, v._e, v.l
        elif isinstance(v, z3.ExprRef):
            self.f, self._e = None, v
        else:
            self.f, self._e = _trim(frac(v)), None

    @property
    def e(self):
        if self._e is None:
            self._e = rv(self.f) if self.f is not None else _lin_term(self.l)
        return self._e

    @property
    def const(self):
        return self.f is not None

    # -- arithmetic
    def __add__(self, o):
        if isinf(o):
            return o
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.f is not None:
            if o.f is not None:
                return R(self.f + o.f)
            if self.f == 0:
                return o
        elif o.f is not None and o.f == 0:
            return self
        L = _lin2(self, o)
        if L:
            return _lin_add(L[0], L[1], 1)
        return R(self.e + o.e)
    __radd__ = __add__

    def __sub__(self, o):
        if isinf(o):
            return -o
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.f is not None and o.f is not None:
            return R(self.f - o.f)
        if o.f is not None and o.f == 0:
            return self
        L = _lin2(self, o)
        if L:
            return _lin_add(L[0], L[1], -1)
        return R(self.e - o.e)

    def __rsub__(self, o):
        if isinf(o):
            return o
        o = lift(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.f is not None:
            if o.f is not None:
                return R(self.f * o.f)
            if self.f == 0:
                return self
            if self.f == 1:
                return o
        elif o.f is not None:
            if o.f == 0:
                return o
            if o.f == 1:
                return self
        if self.l is not None and o.f is not None:
            return _mklin(self.l[0] * o.f, {k: v * o.f for k, v in self.l[1].items()})
        if o.l is not None and self.f is not None:
            return _mklin(o.l[0] * self.f, {k: v * self.f for k, v in o.l[1].items()})
        return R(self.e * o.e)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return div(o, self)

    def __neg__(self):
        if self.l is not None:
            return _mklin(-self.l[0], {k: -v for k, v in self.l[1].items()})
        return R(-self.f) if self.f is not None else R(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.f is not None:
            return R(abs(self.f))
        return ite(self >= 0, self, -self)

    def __pow__(self, o, mod=None):
        o = lift(o)
        if o is None:
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        return power(lift(o), self)

    def __mod__(self, o):
        o = lift(o)
        if self.f is not None and o.f is not None:
            return R(self.f % o.f)
        raise Unsupported('symbolic modulo')

    def __floordiv__(self, o):
        o = lift(o)
        if self.f is not None and o.f is not None:
            return R(self.f // o.f)
        raise Unsupported('symbolic floor division')

    # -- comparison
    def _cmp(self, o, op):
        if isinf(o):
            return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.f is not None and o.f is not None:
            a, b = self.f, o.f
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        L = _lin2(self, o)
        if L:
            dd = _lin_add(L[0], L[1], -1)
            rg = (dd.f, dd.f) if dd.f is not None else lin_range(dd.l)
            if rg is not None:
                lo, hi = rg
                if op in ('<', '>='):
                    r = True if hi < 0 else (False if lo >= 0 else None)
                elif op in ('>', '<='):
                    r = True if lo > 0 else (False if hi <= 0 else None)
                else:
                    r = True if lo == hi == 0 else (False if lo > 0 or hi < 0 else None)
                if r is not None:
                    return r if op in ('<', '>', '==') else not r
            if dd.f is None:
                self, o = dd, R(0)
        a, b = self.e, o.e
        if op == '<':
            t = a < b
        elif op == '<=':
            t = a <= b
        elif op == '>':
            t = a > b
        elif op == '>=':
            t = a >= b
        elif op == '==':
            if a.eq(b):
                return True
            t = a == b
        else:
            if a.eq(b):
                return False
            t = a != b
        return mkB(t)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, '==')

    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp(o, '!=')

    __hash__ = object.__hash__

    def __bool__(self):
        if self.f is not None:
            return self.f != 0
        return bool(self != 0)

    def __float__(self):
        if self.f is not None:
            return _real_float(self.f)
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.f is not None:
            return int(self.f)
        raise Unsupported('int() of a symbolic value')

    def __round__(self, n=0):
        if self.f is not None:
            return R(round(self.f, n))
        raise Unsupported('round() of a symbolic value')

    def __repr__(self):
        if self.f is not None:
            return 'R(%s)' % _real_float(self.f)
        s = str(self.e)
        return 'R<%s>' % (s if len(s) < 200 else s[:200] + '...')

    # numpy calls these for object arrays
    def sqrt(self):
        return sqrt(self)

    def sin(self):
        return ufun('sin', self)

    def cos(self):
        return ufun('cos', self)

    def tan(self):
        return ufun('tan', self)

    def arccos(self):
        return ufun('arccos', self)

    def arcsin(self):
        return ufun('arcsin', self)

    def arctan(self):
        return ufun('arctan', self)

    def exp(self):
        return ufun('exp', self)

    def log(self):
        return ufun('log', self)

    def log10(self):
        return ufun('log', self) / R(math.log(10))

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()


class B:
    """Symbolic boolean (z3 BoolRef); python truth value forks the path."""
    __slots__ = ('e',)
    __array_priority__ = 100.0

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return _ctx.decide(self.e)

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return mkB(z3.Xor(self.e, tob(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkB(z3.Not(self.e))

    def logical_not(self):
        return ~self

    def __mul__(self, o):
        return b2r(self) * (b2r(o) if isinstance(o, (B, bool)) else o)
    __rmul__ = __mul__

    def __add__(self, o):
        return b2r(self) + (b2r(o) if isinstance(o, (B, bool)) else o)
    __radd__ = __add__

    def __sub__(self, o):
        return b2r(self) - (b2r(o) if isinstance(o, (B, bool)) else o)

    def __rsub__(self, o):
        return lift(o) - b2r(self)

    def __eq__(self, o):
        if isinstance(o, (B, bool, _np.bool_)):
            return mkB(self.e == tob(o))
        return b2r(self) == o

    def __ne__(self, o):
        if isinstance(o, (B, bool, _np.bool_)):
            return mkB(z3.Xor(self.e, tob(o)))
        return b2r(self) != o

    __hash__ = object.__hash__

    def __repr__(self):
        return 'B<%s>' % (self.e,)


def _with_arrays(cls):
    """scalar op array: delegate to the array"""
    rel = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
    for op in ('add', 'sub', 'mul', 'truediv', 'pow', 'and', 'or', 'lt', 'gt', 'le', 'ge', 'eq', 'ne'):
        for pre in ('', 'r'):
            nm = '__%s%s__' % (pre, op)
            f = cls.__dict__.get(nm)
            if f is None:
                continue
            if op in rel:
                other = '__%s__' % rel[op]
            else:
                other = '__%s%s__' % ('r' if pre == '' else '', op)

            def g(self, o, f=f, other=other):
                if isinstance(o, _np.ndarray) and o.ndim > 0:
                    return getattr(_sym_view(o), other)(self)
                return f(self, o)
            setattr(cls, nm, g)
    return cls


def _sym_view(o):
    from .npshim import SymArray
    return o.astype(object).view(SymArray) if not isinstance(o, SymArray) else o


R = _with_arrays(R)
B = _with_arrays(B)


def mkB(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return B(t)


def tob(x):
    if isinstance(x, B):
        return x.e
    if isinstance(x, R):
        return tob(x != 0)
    return z3.BoolVal(bool(x))


def b2r(x):
    if isinstance(x, B):
        return R(z3.If(x.e, z3.RealVal(1), z3.RealVal(0)))
    return R(1 if x else 0)


def band(*xs):
    xs = [x for x in xs]
    out = []
    for x in xs:
        if isinstance(x, R):
            x = x != 0
        if isinstance(x, B):
            out.append(x.e)
        elif not bool(x):
            return False
    if not out:
        return True
    return B(z3.And(out)) if len(out) > 1 else B(out[0])


def bor(*xs):
    out = []
    for x in xs:
        if isinstance(x, R):
            x = x != 0
        if isinstance(x, B):
            out.append(x.e)
        elif bool(x):
            return True
    if not out:
        return False
    return B(z3.Or(out)) if len(out) > 1 else B(out[0])


def bnot(x):
    if isinstance(x, B):
        return ~x
    if isinstance(x, R):
        return bnot(x != 0)
    return not bool(x)


def implies(a, b):
    return bor(bnot(a), b)


def lift(o):
    if isinstance(o, R):
        return o
    if isinstance(o, B):
        return b2r(o)
    if isnum(o):
        return R(o)
    if isinstance(o, _np.ndarray) and o.ndim == 0:
        return lift(o.item())
    return None


def ite(c, a, b):
    if isinstance(c, R):
        c = c != 0
    if not isinstance(c, B):
        return a if c else b
    if isinstance(a, (B, bool, _np.bool_)) and isinstance(b, (B, bool, _np.bool_)):
        return mkB(z3.If(c.e, tob(a), tob(b)))
    a, b = lift(a), lift(b)
    if a.f is not None and b.f is not None and a.f == b.f:
        return a
    if a.f is None and b.f is None and a.e.eq(b.e):
        return a
    return R(z3.If(c.e, a.e, b.e))


def smax(a, b):
    if isinf(a):
        return a if a > 0 else b
    if isinf(b):
        return b if b > 0 else a
    a, b = lift(a), lift(b)
    return ite(a >= b, a, b)


def smin(a, b):
    if isinf(a):
        return b if a > 0 else a
    if isinf(b):
        return a if b > 0 else b
    a, b = lift(a), lift(b)
    return ite(a <= b, a, b)


def div(a, b):
    if b.f is not None:
        if b.f == 0:
            return _ctx.on_divzero(a)
        if a.f is not None:
            return R(a.f / b.f)
        if a.l is not None:
            return a * R(1 / b.f)
        return R(a.e * rv(1 / b.f)) if b.f != 1 else a
    _ctx.on_div(b)
    if a.f is not None and a.f == 0:
        return a
    return R(a.e / b.e)


def _ratexp(f):
    g = f.limit_denominator(12)
    if abs(g - f) < Fraction(1, 10 ** 9):
        return g
    return None


def power(x, y):
    if y.f is None:
        return sympow(x, y)
    g = _ratexp(y.f)
    if g is None:
        if x.const:
            return R(_real_float(x.f) ** _real_float(y.f))
        return ufun('pow_%s' % y.f, x)
    if g.denominator == 1:
        n = int(g)
        if n == 0:
            return R(1)
        if x.const:
            if x.f == 0 and n < 0:
                return _ctx.on_divzero(R(1))
            return R(x.f ** n)
        r = x
        for _ in range(abs(n) - 1):
            r = r * x
        return r if n > 0 else R(1) / r
    if x.const:
        if x.f < 0:
            return _ctx.on_undefined('fractional power of a negative number')
        if x.f == 0:
            if g < 0:
                return _ctx.on_divzero(R(1))
            return R(0)
        if g == Fraction(1, 2):
            n, d = math.isqrt(x.f.numerator), math.isqrt(x.f.denominator)
            if n * n == x.f.numerator and d * d == x.f.denominator:
                return R(Fraction(n, d))
        return R(_real_float(x.f) ** _real_float(g))
    _ctx.on_domain(x >= 0, 'fractional power of a negative number')
    q = g.denominator
    p = g.numerator
    if p < 0:
        return R(1) / power(x, R(-g))
    key = ('root', x.e.get_id(), q)
    r = _ctx.memo.get(key)
    if r is None:
        v = _ctx.fresh('root%d' % q, lambda ev, x=x, q=q: max(ev(x), 0.0) ** (1.0 / q))
        rp = v
        for _ in range(q - 1):
            rp = rp * v
        _ctx.define(v >= 0)
        _ctx.define(rp == x)
        _ctx.memo[key] = (v, x)
        r = (v, x)
    v = r[0]
    out = v
    for _ in range(p - 1):
        out = out * v
    return out


def has_numeral_ite(e):
    """an if-then-else with numeral branches inside"""
    todo, seen = [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_rational_value(t.arg(1)) and z3.is_rational_value(t.arg(2)):
            return True
        todo += t.children()
    return False


def sympow(x, y):
    """symbolic exponent: x**(y0 + n) = x**y0 * x**n, the rest uninterpreted with the basic laws of powers"""
    e = z3.simplify(y.e, som=True)
    n = 0
    if x.const and x.f <= 0 or has_numeral_ite(e):
        for c in (1, 0, 2, -1):
            if bool(y == c):
                return power(x, R(c))
    for t in (e.children() if z3.is_add(e) else [e]):
        if z3.is_rational_value(t):
            n = t.numerator_as_long() // t.denominator_as_long()
    y0 = R(z3.simplify(y.e - n, som=True)) if n else R(e)
    _ctx.on_domain(mkB(_ze(x >= 0)), 'symbolic power of a negative number')
    seen = len(_ctx.uf_apps.get('pow2', ()))
    v = ufun2('pow2', x, y0)
    if len(_ctx.uf_apps.get('pow2', ())) > seen:
        for c in (z3.Implies(_ze(x > 0), _ze(v > 0)), z3.Implies(_ze(x == 1), _ze(v == 1)), z3.Implies(_ze(y0 == 0), _ze(v == 1)),
                  z3.Implies(z3.And(_ze(x == 0), _ze(y0 > 0)), _ze(v == 0)), z3.Implies(_ze(y0 == 1), _ze(v == x))):
            _ctx.define(mkB(c))
    if n < 0:
        return v / power(x, R(-n))
    return v * power(x, R(n)) if n else v


def sqrt(x):
    return power(lift(x), R(Fraction(1, 2)))


_MATH = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'arccos': math.acos, 'arcsin': math.asin,
         'arctan': math.atan, 'exp': math.exp, 'log': math.log}


def mathfn(name):
    if name in _MATH:
        return _MATH[name]
    if name.startswith('pow_'):
        y = _real_float(Fraction(name[4:]))
        return lambda v: v ** y
    if name == 'pow2':
        return lambda a, b: max(a, 0.) ** b
    if name in ('ellipe', 'ellipeinc'):
        import scipy.special
        f = getattr(scipy.special, name)
        return lambda *v: float(f(*v))
    raise KeyError(name)


def ufun2(name, x, y):
    """uninterpreted function of two arguments (congruence only)"""
    x, y = lift(x), lift(y)
    if x.const and y.const:
        return R(mathfn(name)(_real_float(x.f), _real_float(y.f)))
    key = ('uf', name, x.e.get_id(), y.e.get_id())
    r = _ctx.memo.get(key)
    if r is None:
        v = _ctx.fresh(name, lambda ev, x=x, y=y, f=mathfn(name): f(ev(x), ev(y)))
        r = (v, x, y)
        _ctx.memo[key] = r
        apps = _ctx.uf_apps.setdefault(name, [])
        for v2, x2, y2 in apps:
            _ctx.define(mkB(z3.Implies(z3.And(_ze(x == x2), _ze(y == y2)), _ze(v == v2))))
        apps.append((v, x, y))
    return r[0]


def _ze(c):
    return c.e if isinstance(c, B) else z3.BoolVal(bool(c))


def _same(a, b):
    """equal as polynomials"""
    return z3.is_rational_value(d := z3.simplify(a.e - b.e, som=True)) and d.as_fraction() == 0


def ufun(name, x):
    """Transcendental function: uninterpreted, plus axioms instantiated at the argument."""
    x = lift(x)
    if x.const:
        if name in ('arccos', 'arcsin') and abs(x.f) > 1:
            return _ctx.on_undefined('%s outside [-1,1]' % name)
        if name == 'log' and x.f <= 0:
            return _ctx.on_undefined('log of a non-positive number')
        return R(mathfn(name)(_real_float(x.f)))
    key = ('uf', name, x.e.get_id())
    r = _ctx.memo.get(key)
    if r is None:
        if name in ('arccos', 'arcsin'):
            _ctx.on_domain(band(x >= -1, x <= 1), name + ' outside [-1,1]')
        elif name == 'log':
            _ctx.on_domain(x > 0, 'log of a non-positive number')
        elif name.startswith('pow_'):
            _ctx.on_domain(x >= 0, 'fractional power of a negative number')
        v = _ctx.fresh(name, lambda ev, x=x, f=mathfn(name): f(ev(x)))
        r = (v, x)
        _ctx.memo[key] = r
        _ctx.uf_axioms(name, v, x)
    return r[0]


PI = Fraction(repr(math.pi))


class Ctx:
    """One exploration of one harness."""

    def __init__(self, div='assume', domain='assume', feas_ms=1000, max_paths=4000, seed=1, generic=False):
        self.bounds = {}
        self.generic = generic       # tests for exact equality with a constant take the 'different' branch
        self.generic_cuts = 0
        self.div_mode = div          # assume | check | raise
        self.domain_mode = domain
        self.feas_ms = feas_ms
        self.max_paths = max_paths
        self.seed = seed
        self.prefix = []
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.feas_queries = 0
        self.solver_s = 0.0
        self.unknown_feas = 0
        self.reset()

    # -- per path
    def reset(self):
        self.trace = []          # (choice, nalternatives_left)
        self.pc = []             # path condition incl. assumptions (z3)
        self.defs = []           # definitional constraints of fresh variables
        self.side = []           # definedness conditions assumed (z3)
        self.memo = {}
        self.uf_apps = {}
        self.fresh_n = 0
        self.fresh_eval = {}
        self.inputs = {}
        self.keep = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_ms)
        self.pending_div = []
        self.known = {}
        self.expected_solution = None
        self.linsys = []

    def all_constraints(self):
        return self.pc + self.defs + self.side

    def fresh(self, base, ev=None):
        self.fresh_n += 1
        n = '%s!%d' % (base, self.fresh_n)
        v = R(z3.Real(n))
        self.fresh_eval[n] = ev
        return v

    def define(self, c):
        if c is True:
            return
        t = tob(c)
        self.defs.append(t)
        self.solver.add(t)

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathAbort()
        t = tob(c)
        self.pc.append(t)
        self.solver.add(t)

    def _feasible(self, t):
        self.feas_queries += 1
        t0 = time.time()
        self.solver.push()
        self.solver.add(t)
        r = self.solver.check()
        self.solver.pop()
        self.solver_s += time.time() - t0
        if r == z3.unknown:
            self.unknown_feas += 1
        return r

    def feasible_now(self):
        t0 = time.time()
        self.feas_queries += 1
        r = self.solver.check()
        self.solver_s += time.time() - t0
        return r

    def decide(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = t.get_id()
        if i in self.known:
            return self.known[i][0]
        if self.generic:
            neg = z3.is_not(t)
            q = t.arg(0) if neg else t
            if z3.is_eq(q) and q.arg(0).sort() == z3.RealSort():
                lit = z3.Not(q)
                self.side.append(lit)
                self.solver.add(lit)
                self.known[i] = (neg, t)
                self.generic_cuts += 1
                return neg
        k = len(self.trace)
        if k < len(self.prefix):
            c = self.prefix[k][0]
            self.trace.append(list(self.prefix[k]))
        else:
            self.decisions += 1
            rt = self._feasible(t)
            if rt == z3.unsat:
                c, alt = False, 0
            else:
                rf = self._feasible(z3.Not(t))
                c, alt = True, (0 if rf == z3.unsat else 1)
            self.trace.append([c, alt])
        lit = t if c else z3.Not(t)
        self.pc.append(lit)
        self.solver.add(lit)
        self.known[i] = (c, t)
        return c

    def choose(self, n):
        """Exhaustive finite choice 0..n-1."""
        k = len(self.trace)
        if k < len(self.prefix):
            c = self.prefix[k][0]
            self.trace.append(list(self.prefix[k]))
        else:
            self.decisions += 1
            c = 0
            self.trace.append([0, n - 1])
        return c

    def implied(self, t):
        """does the path condition imply t (True), its negation (False), or neither (None)?"""
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = t.get_id()
        if i in self.known:
            return self.known[i][0]
        if self._feasible(z3.Not(t)) == z3.unsat:
            self.known[i] = (True, t)
            return True
        if self._feasible(t) == z3.unsat:
            self.known[i] = (False, t)
            return False
        return None

    def on_div(self, b):
        t = z3.simplify(b.e != 0)
        if z3.is_true(t):
            return
        i = ('nz', b.e.get_id())
        if i in self.memo:
            return
        self.memo[i] = b
        if self.div_mode == 'raise':
            if not self.decide(t):
                raise DivZero('division by zero')
            return
        if self.div_mode == 'check':
            self.pending_div.append((t, list(self.all_constraints())))
        self.side.append(t)
        self.solver.add(t)

    def on_divzero(self, a):
        if self.div_mode == 'assume':
            raise PathAbort()
        raise DivZero('division by zero')

    def on_undefined(self, what):
        if self.domain_mode == 'assume':
            raise PathAbort()
        raise Undefined(what)

    def on_domain(self, c, what):
        if c is True:
            return
        if c is False:
            return self.on_undefined(what)
        if self.domain_mode == 'raise':
            if not self.decide(c.e):
                raise Undefined(what)
            return
        self.side.append(c.e)
        self.solver.add(c.e)

    # -- transcendental axioms (all valid for the real functions)
    def uf_axioms(self, name, v, x):
        apps = self.uf_apps.setdefault(name, [])
        D = self.define

        def E(c):
            return c.e if isinstance(c, B) else z3.BoolVal(bool(c))
        pi = R(PI)
        if name == 'arccos':
            D(v >= 0)
            D(v <= pi)
            D(mkB(z3.Implies(E(x == 1), E(v == 0))) if not isinstance(x == 1, bool) else True)
            # sign of x <-> side of pi/2
            D(mkB(E(x > 0) == E(v < pi / 2)))
            D(mkB(E(x == 0) == E(v == pi / 2)))
            D(mkB(E(x == 1) == E(v == 0)))
            D(mkB(E(x == -1) == E(v == pi)))
            for v2, x2 in apps:
                D(mkB(E(x < x2) == E(v > v2)))
                D(mkB(E(x == x2) == E(v == v2)))
            for v2, x2 in self.uf_apps.get('arcsin', []):
                D(mkB(z3.Implies(E(x == x2), E(v == pi / 2 - v2))))
                D(mkB(z3.Implies(E(x == -x2), E(v == pi / 2 + v2))))
        elif name == 'arcsin':
            for v2, x2 in self.uf_apps.get('arccos', []):
                D(mkB(z3.Implies(E(x == x2), E(v == pi / 2 - v2))))
                D(mkB(z3.Implies(E(x == -x2), E(v == v2 - pi / 2))))
            D(v >= -pi / 2)
            D(v <= pi / 2)
            D(mkB(E(x > 0) == E(v > 0)))
            D(mkB(E(x == 0) == E(v == 0)))
            for v2, x2 in apps:
                D(mkB(E(x < x2) == E(v < v2)))
                D(mkB(E(x == x2) == E(v == v2)))
        elif name in ('sin', 'cos'):
            D(v <= 1)
            D(v >= -1)
            for v2, x2 in apps:
                D(mkB(z3.Implies(E(x == x2), E(v == v2))))
            if name == 'cos':
                D(mkB(z3.Implies(z3.And(E(x >= 0), E(x <= pi / 2)), E(v >= 0))))
            else:
                D(mkB(z3.Implies(z3.And(E(x >= 0), E(x <= pi)), E(v >= 0))))
                D(mkB(z3.Implies(E(x >= 0), E(v <= x))))
            # cos(arccos t) = t, sin(arccos t) = sqrt(1-t^2)
            for va, xa in self.uf_apps.get('arccos', []):
                if name == 'cos':
                    D(mkB(z3.Implies(E(x == va), E(v == xa))))
                else:
                    D(mkB(z3.Implies(E(x == va), z3.And(E(v * v == 1 - xa * xa), E(v >= 0)))))
            for va, xa in self.uf_apps.get('arcsin', []):
                if name == 'sin':
                    D(mkB(z3.Implies(E(x == va), E(v == xa))))
                else:
                    D(mkB(z3.Implies(E(x == va), z3.And(E(v * v == 1 - xa * xa), E(v >= 0)))))
            # double angles
            new = {k: self.uf_apps.get(k, []) + ([(v, x)] if k == name else []) for k in ('sin', 'cos')}
            for vs, xs in new['sin']:
                for vc, xc in new['cos']:
                    if not _same(xs, xc):
                        continue
                    for k in ('sin', 'cos'):
                        for v2, x2 in new[k]:
                            if _same(x2, xs * 2) and (x is xs or x is xc or x is x2):
                                D(v2 == (vs * vc * 2 if k == 'sin' else vc * vc - vs * vs))
            other = 'sin' if name == 'cos' else 'cos'
            for v2, x2 in self.uf_apps.get(other, []):
                D(mkB(z3.Implies(E(x == x2), E(v * v + v2 * v2 == 1))))
        elif name in ('exp', 'log'):
            if name == 'exp':
                D(v > 0)
                D(v >= 1 + x)
            else:
                D(v <= x - 1)
                D(v >= 1 - R(1) / x)
            for v2, x2 in apps:
                if name == 'log':
                    # mean value
                    D(bor(x == x2, band((v - v2) * x2 < x - x2, (v2 - v) * x < x2 - x)))
                D(mkB(E(x < x2) == E(v < v2)))
                D(mkB(E(x == x2) == E(v == v2)))
        elif name.startswith('pow_'):
            y = Fraction(name[4:])
            D(v >= 0)
            D(mkB(E(x == 1) == E(v == 1)))
            D(mkB(E(x == 0) == E(v == 0)))
            for v2, x2 in apps:
                D(mkB(E(x < x2) == E((v < v2) if y > 0 else (v > v2))))
                D(mkB(E(x == x2) == E(v == v2)))
        elif name in ('tan', 'ellipe'):
            for v2, x2 in apps:
                D(mkB(z3.Implies(E(x == x2), E(v == v2))))
        apps.append((v, x))

    # -- exploration
    def explore(self, fn):
        """Run fn() once per path; yields (status, value) after each path."""
        self.prefix = []
        while True:
            self.reset()
            set_ctx(self)
            self.paths += 1
            try:
                val = fn()
                status = 'ok'
            except PathAbort:
                val, status = None, 'abort'
                self.aborted += 1
            yield status, val
            # backtrack
            tr = self.trace
            while tr and tr[-1][1] == 0:
                tr.pop()
            if not tr:
                return
            c, alt = tr[-1]
            if c is True:
                tr[-1] = [False, 0]
            else:
                tr[-1] = [c + 1, alt - 1]
            self.prefix = tr
            if self.paths >= self.max_paths:
                raise Unsupported('path bound %d exceeded' % self.max_paths)
