"""numpy facade used while executing pipedream symbolically.

SymArray: object ndarray subclass whose elements are R / B / concrete numbers; ufuncs and
masks are element-wise operations on symbolic scalars, boolean masks never need to be
concrete when the assigned value is a scalar.  Shapes and integer index arrays are concrete.
"""
import builtins
import sys
import math
import types
from fractions import Fraction
import numpy as np
import z3
from . import core
from .core import R, B, lift, ite, smax, smin, sqrt, ufun, power, band, bor, bnot, mkB

_f = np.frompyfunc


def _has_sym(x):
    return isinstance(x, (R, B)) or (isinstance(x, np.ndarray) and x.dtype == object)


def _n(x):
    """numeric element -> R (or passes B through)"""
    if isinstance(x, (R, B)) or core.isinf(x):
        return x
    return lift(x)


def _sign(x):
    x = lift(x)
    return ite(x > 0, R(1), ite(x < 0, R(-1), R(0)))


def _isnan(x):
    if isinstance(x, (R, B)):
        return False
    try:
        return bool(np.isnan(x))
    except TypeError:
        return False


def _isfinite(x):
    if isinstance(x, (R, B)):
        return True
    return bool(np.isfinite(x))


def _arctan2(y, x):
    raise core.Unsupported('arctan2')


def _floor(x):
    x = _n(x)
    if isinstance(x, R) and not x.const:
        raise core.Unsupported('floor of a symbolic number')
    return R(math.floor(x.f)) if isinstance(x, R) else x


def _ceil(x):
    return -_floor(-_n(x))


def _rint(x):
    x = _n(x)
    if isinstance(x, R) and not x.const:
        raise core.Unsupported('rounding of a symbolic number')
    return R(round(x.f)) if isinstance(x, R) else x


def _copysign(a, b):
    a = abs(_n(a))
    return ite(_n(b) < 0, -a, a)


def _isclose(a, b, *r, rtol=1e-5, atol=1e-8, **k):
    return abs(_n(a) - _n(b)) <= atol + rtol * abs(_n(b))


def _misclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    a, b = _n(a), _n(b)
    return abs(a - b) <= smax(rel_tol * smax(abs(a), abs(b)), lift(abs_tol))


def _lxor(a, b):
    return bor(band(a, bnot(b)), band(bnot(a), b))


def _eq(a, b):
    if isinstance(a, B) or isinstance(b, B):
        return a == b if isinstance(a, B) else b == a
    return _n(a) == _n(b)


def _ne(a, b):
    return bnot(_eq(a, b))


_OPS = {
    'add': lambda a, b: (_n(a) + _n(b)), 'subtract': lambda a, b: _n(a) - _n(b),
    'multiply': lambda a, b: _n(a) * _n(b), 'divide': lambda a, b: _n(a) / _n(b),
    'true_divide': lambda a, b: _n(a) / _n(b), 'floor_divide': lambda a, b: _n(a) // _n(b),
    'power': lambda a, b: power(lift(a), lift(b)), 'float_power': lambda a, b: power(lift(a), lift(b)),
    'negative': lambda a: -_n(a), 'positive': lambda a: a, 'absolute': lambda a: abs(_n(a)),
    'fabs': lambda a: abs(_n(a)), 'sqrt': sqrt, 'square': lambda a: _n(a) * _n(a),
    'sin': lambda a: ufun('sin', a), 'cos': lambda a: ufun('cos', a), 'tan': lambda a: ufun('tan', a),
    'arccos': lambda a: ufun('arccos', a), 'arcsin': lambda a: ufun('arcsin', a),
    'arctan': lambda a: ufun('arctan', a), 'exp': lambda a: ufun('exp', a), 'log': lambda a: ufun('log', a),
    'log10': lambda a: ufun('log', a) / R(math.log(10)), 'cbrt': lambda a: power(lift(a), R(Fraction(1, 3))),
    'sign': _sign, 'maximum': smax, 'minimum': smin, 'fmax': smax, 'fmin': smin,
    'greater': lambda a, b: _n(a) > _n(b), 'greater_equal': lambda a, b: _n(a) >= _n(b),
    'less': lambda a, b: _n(a) < _n(b), 'less_equal': lambda a, b: _n(a) <= _n(b),
    'equal': _eq, 'not_equal': _ne,
    'logical_and': lambda a, b: band(a, b), 'logical_or': lambda a, b: bor(a, b), 'logical_not': bnot,
    'bitwise_and': lambda a, b: band(a, b), 'bitwise_or': lambda a, b: bor(a, b), 'invert': bnot,
    'bitwise_xor': lambda a, b: (mkB(z3.Xor(core.tob(a), core.tob(b)))),
    'isnan': _isnan, 'isfinite': _isfinite, 'isinf': lambda a: not _isfinite(a),
    'clip': lambda a, lo, hi: smin(smax(a, lo), hi), 'hypot': lambda a, b: sqrt(_n(a) * _n(a) + _n(b) * _n(b)),
    'heaviside': lambda a, h: ite(_n(a) < 0, R(0), ite(_n(a) > 0, R(1), lift(h))),
    'copysign': _copysign, 'log1p': lambda a: ufun('log', _n(a) + 1), 'expm1': lambda a: ufun('exp', a) - 1,
    'log2': lambda a: ufun('log', a) / R(math.log(2)), 'exp2': lambda a: power(R(2), lift(a)),
    'reciprocal': lambda a: 1 / _n(a), 'deg2rad': lambda a: _n(a) * R(math.pi / 180), 'radians': lambda a: _n(a) * R(math.pi / 180),
    'logical_xor': _lxor, 'floor': _floor, 'ceil': _ceil, 'trunc': lambda a: ite(_n(a) < 0, _ceil(a), _floor(a)), 'rint': _rint,
    'signbit': lambda a: _n(a) < 0, 'mod': lambda a, b: _n(a) % _n(b), 'fmod': lambda a, b: _n(a) % _n(b),
    'conjugate': lambda a: a, 'arctan2': _arctan2, 'remainder': lambda a, b: _n(a) % _n(b),
}
_UF = {k: _f(v, v.__code__.co_argcount if hasattr(v, '__code__') else (1 if k in ('sqrt',) else 2), 1)
       for k, v in _OPS.items()}

_RED = {'add': (lambda a, b: _n(a) + _n(b), lambda: R(0)), 'multiply': (lambda a, b: _n(a) * _n(b), lambda: R(1)),
        'maximum': (smax, None), 'minimum': (smin, None),
        'logical_and': (lambda a, b: band(a, b), lambda: True), 'logical_or': (lambda a, b: bor(a, b), lambda: False)}


def base(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    return x


def wrap(x):
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, SymArray):
        if x.ndim == 0:
            return x.item()
        return x.view(SymArray)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(wrap(y) for y in x)
    if isinstance(x, list):
        return [wrap(y) for y in x]
    return x


def _mask_concrete(m):
    """object mask -> real bool array, forking on symbolic elements"""
    b = base(m)
    out = np.empty(b.shape, dtype=bool)
    for i in np.ndindex(b.shape):
        out[i] = bool(b[i])
    return out


def _is_boolish(m):
    b = base(m).ravel()
    return len(b) > 0 and all(isinstance(v, (B, bool, np.bool_)) for v in b)


def _is_intish(m):
    b = base(m).ravel()
    return all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) or (isinstance(v, R) and v.const and v.f.denominator == 1)
               for v in b)


def _fix_index(ix):
    if isinstance(ix, tuple):
        return tuple(_fix_index(i) for i in ix)
    if isinstance(ix, B):
        return bool(ix)
    if isinstance(ix, R):
        if ix.const and ix.f.denominator == 1:
            return int(ix.f)
        raise core.Unsupported('symbolic index')
    if isinstance(ix, np.ndarray) and ix.dtype == object:
        if _is_boolish(ix):
            return _mask_concrete(ix)
        if _is_intish(ix):
            return np.array([int(v) for v in base(ix).ravel()], dtype=np.int64).reshape(ix.shape)
        raise core.Unsupported('symbolic index array')
    return ix


class SymArray(np.ndarray):
    __array_priority__ = 500.0

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        out = kw.pop('out', None)
        where = kw.pop('where', True)
        kw.pop('dtype', None)
        kw.pop('casting', None)
        ins = [base(i) for i in inputs]
        if method == '__call__':
            if name == 'matmul':
                res = matmul(*ins)
            elif name in _UF:
                if where is not True:
                    res0 = _UF_call(name, [np.asarray(i, dtype=object) if not isinstance(i, np.ndarray) else i for i in ins])
                    prev = base(out[0])
                    w = np.asarray(base(where), dtype=object)
                    res = _f(lambda c, a, b: ite(c, a, b), 3, 1)(w, res0, prev)
                else:
                    res = _UF_call(name, ins)
            else:
                raise core.Unsupported('ufunc ' + name)
            if out is not None:
                o = out[0]
                base(o)[...] = base(res) if o.dtype == object else _to_float(res)
                return o
            return wrap(res)
        if method == 'reduce':
            axis = kw.get('axis', 0)
            keep = kw.get('keepdims', False)
            return _reduce(name, ins[0], axis, keep, kw.get('initial', None))
        if method == 'at':
            a = base(inputs[0])
            idx = _fix_index(inputs[1])
            idx = np.atleast_1d(np.asarray(idx))
            if idx.dtype == bool:
                idx = np.flatnonzero(idx)
            v = ins[2] if len(ins) > 2 else None
            vv = np.broadcast_to(np.asarray(v, dtype=object), idx.shape)
            op = _OPS[name]
            for k, i in enumerate(idx):
                a[i] = op(a[i], vv[k])
            return None
        if method == 'outer':
            a, b = ins
            a = np.asarray(a, dtype=object)
            b = np.asarray(b, dtype=object)
            return wrap(_UF[name](a.reshape(a.shape + (1,) * b.ndim), b))
        if method == 'accumulate':
            return _accumulate(name, ins[0])
        raise core.Unsupported('ufunc method %s.%s' % (name, method))

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        h = getattr(NP, name, None) if name in _OVERRIDES else None
        if h is not None:
            return h(*args, **kwargs)
        args = _strip(args)
        kwargs = {k: _strip(v) for k, v in kwargs.items()}
        return wrap(func(*args, **kwargs))

    def __getitem__(self, ix):
        r = base(self)[_fix_index(ix)]
        if isinstance(r, np.ndarray) and r.ndim > 0:
            return r.view(SymArray)
        return r

    def __setitem__(self, ix, v):
        b = base(self)
        if isinstance(ix, np.ndarray) and ix.dtype == object and _is_boolish(ix) and ix.shape == self.shape:
            vv = v
            if isinstance(vv, np.ndarray) and vv.ndim == 0:
                vv = vv.item()
            if isinstance(vv, (R, B)) or core.isnum(vv) or isinstance(vv, bool):
                m = base(ix)
                for i in np.ndindex(m.shape):
                    c = m[i]
                    if isinstance(c, B):
                        b[i] = ite(c, vv, b[i])
                    elif c:
                        b[i] = vv
                return
        b[_fix_index(ix)] = base(v)

    def astype(self, dtype, *a, **k):
        if dtype in (float, np.float64, object, np.dtype(float)):
            return self.copy()
        if dtype in (bool, np.bool_):
            return wrap(_f(lambda v: v if isinstance(v, (B, bool)) else _ne(v, 0), 1, 1)(base(self)))
        if dtype in (int, np.int64, np.intp):
            if any(isinstance(v, B) for v in base(self).ravel()):
                return wrap(_f(lambda v: core.b2r(v) if isinstance(v, B) else v, 1, 1)(base(self)))
            return np.array([int(v) for v in base(self).ravel()], dtype=np.int64).reshape(self.shape)
        raise core.Unsupported('astype %r' % (dtype,))

    def sum(self, axis=None, **k):
        return _reduce('add', base(self), axis, k.get('keepdims', False), None)

    def max(self, axis=None, **k):
        return _reduce('maximum', base(self), axis, k.get('keepdims', False), k.get('initial'))

    def min(self, axis=None, **k):
        return _reduce('minimum', base(self), axis, k.get('keepdims', False), k.get('initial'))

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis) / n

    def prod(self, axis=None, **k):
        return _reduce('multiply', base(self), axis, False, None)

    def any(self, axis=None, **k):
        return _reduce('logical_or', base(self), axis, False, None)

    def all(self, axis=None, **k):
        return _reduce('logical_and', base(self), axis, False, None)

    def cumsum(self, axis=None, **k):
        return _accumulate('add', self.ravel())

    def cumprod(self, axis=None, **k):
        return _accumulate('multiply', self.ravel())

    def clip(self, min=None, max=None, out=None, **k):
        return NP.clip(self, min, max, out)

    def round(self, decimals=0, out=None):
        return wrap(_f(lambda v: v.__round__(decimals), 1, 1)(base(self)))

    def std(self, *a, **k):
        return NP.std(self, *a, **k)

    def var(self, *a, **k):
        return NP.var(self, *a, **k)

    def nonzero(self):
        return _mask_concrete(self).nonzero() if _is_boolish(self) else (np.flatnonzero(_mask_concrete(self != 0)),)

    def item(self, *a):
        return base(self).item(*a)

    def dot(self, o):
        return wrap(matmul(base(self), base(o)))

    def __matmul__(self, o):
        return wrap(matmul(base(self), base(o)))

    def __rmatmul__(self, o):
        return wrap(matmul(base(o), base(self)))

    def argmin(self, axis=None, **k):
        if _is_boolish(self):
            return (~self).argmax(axis)
        return (-self).argmax(axis)

    def argmax(self, axis=None, **k):
        b = base(self)
        if b.ndim == 1:
            best = 0
            for i in range(1, len(b)):
                x, y = b[i], b[best]
                if isinstance(x, (B, bool)):
                    x, y = core.b2r(x), core.b2r(y)
                if x > y:
                    best = i
            return best
        raise core.Unsupported('argmax nd')

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel()[0])
        raise ValueError('truth value of an array is ambiguous')

    def __float__(self):
        return float(base(self).item())

    def copy(self, order='C'):
        return base(self).copy().view(SymArray)

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return 'SymArray(%r)' % (list(base(self).ravel()),)


def _UF_call(name, ins):
    ins = [np.asarray(i, dtype=object) if not isinstance(i, (np.ndarray, R, B)) else i for i in ins]
    boxed = []
    for i in ins:
        if isinstance(i, (R, B)):
            z = np.empty((), dtype=object)
            z[()] = i
            i = z
        boxed.append(i)
    r = _UF[name](*boxed)
    return r


def _accumulate(name, x):
    a = np.array(base(x) if isinstance(x, np.ndarray) else _strip(x), dtype=object)
    if a.ndim != 1:
        raise core.Unsupported('accumulate nd')
    op = _OPS[name]
    for i in range(1, len(a)):
        a[i] = op(a[i - 1], a[i])
    return wrap(a)


def _to_float(x):
    return np.array([float(v) for v in np.asarray(x, dtype=object).ravel()]).reshape(np.shape(x))


def _strip(x):
    if isinstance(x, SymArray):
        return base(x)
    if type(x) in (list, tuple):
        return type(x)(_strip(y) for y in x)
    return x


def _reduce(name, a, axis, keep, initial):
    a = np.asarray(a, dtype=object)
    if name not in _RED:
        raise core.Unsupported('reduce ' + name)
    op, ident = _RED[name]
    if axis is None:
        vals = list(a.ravel())
        if initial is not None and initial is not np._NoValue:
            vals = [initial] + vals
        if not vals:
            if ident is None:
                raise ValueError('zero-size array to reduction operation')
            return ident()
        r = vals[0]
        if name in ('logical_and', 'logical_or'):
            r = op(r, r)
        for v in vals[1:]:
            r = op(r, v)
        if name in ('add', 'multiply') and isinstance(r, B):
            r = core.b2r(r)
        if keep:
            z = np.empty((1,) * a.ndim, dtype=object)
            z[...] = r
            return wrap(z)
        return r
    if isinstance(axis, tuple):
        raise core.Unsupported('multi-axis reduce')
    m = np.moveaxis(a, axis, 0)
    out = np.empty(m.shape[1:], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = _reduce(name, m[(slice(None),) + i], None, False, None)
    if keep:
        out = np.expand_dims(out, axis)
    return wrap(out)


def matmul(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return _reduce('add', _UF['multiply'](a, b), None, False, None)
    if a.ndim == 2 and b.ndim == 1:
        return np.array([matmul(a[i], b) for i in range(a.shape[0])] + [None], dtype=object)[:-1]
    if a.ndim == 1 and b.ndim == 2:
        return np.array([matmul(a, b[:, j]) for j in range(b.shape[1])] + [None], dtype=object)[:-1]
    if a.ndim == 2 and b.ndim == 2:
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                out[i, j] = matmul(a[i], b[:, j])
        return out
    raise core.Unsupported('matmul %dd x %dd' % (a.ndim, b.ndim))


def sarr(vals, shape=None):
    vals = list(vals)
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    if shape is not None:
        a = a.reshape(shape)
    return a.view(SymArray)


_FLOATISH = (None, float, np.float64, np.dtype(float), np.float32)
_BOOLISH = (bool, np.bool_, np.dtype(bool))


class _NP:
    """The object bound to `np` inside pipedream modules during symbolic execution."""
    plain_masks = False      # masks that never hold symbolic values (set-up code)

    def _alloc(self, shape, dtype, fill):
        dt = dtype
        try:
            dt = np.dtype(dtype) if dtype is not None else np.dtype(float)
        except TypeError:
            dt = np.dtype(float)
        if not isinstance(fill, (R, B)) and np.isscalar(fill) and isinstance(fill, float) and not np.isfinite(fill):
            return np.full(shape, fill)
        if dt.kind == 'f' or dt == object:
            a = np.empty(shape, dtype=object)
            for i in np.ndindex(a.shape):
                a[i] = R(fill) if not isinstance(fill, (R, B)) else fill
            return a.view(SymArray)
        if dt.kind == 'b' and not self.plain_masks:
            a = np.empty(shape, dtype=object)
            a[...] = bool(fill)
            return a.view(SymArray)
        return np.full(shape, fill, dtype=dt)

    def zeros(self, shape, dtype=None, order='C'):
        return self._alloc(shape, dtype, 0)

    def ones(self, shape, dtype=None, order='C'):
        return self._alloc(shape, dtype, 1)

    def empty(self, shape, dtype=None, order='C'):
        return self._alloc(shape, dtype, 0)

    def full(self, shape, fill_value, dtype=None, order='C'):
        if dtype is None and isinstance(fill_value, (bool, np.bool_)):
            dtype = bool
        elif dtype is None and isinstance(fill_value, (int, np.integer)):
            dtype = int
        return self._alloc(shape, dtype, fill_value)

    def _like(self, a, dtype, fill):
        if dtype is None:
            if isinstance(a, np.ndarray) and a.dtype != object:
                dtype = a.dtype
            elif isinstance(a, np.ndarray) and a.size and _is_boolish(a):
                dtype = bool
        return self._alloc(np.shape(a), dtype, fill)

    def zeros_like(self, a, dtype=None, **k):
        return self._like(a, dtype, 0)

    def ones_like(self, a, dtype=None, **k):
        return self._like(a, dtype, 1)

    def empty_like(self, a, dtype=None, **k):
        return self._like(a, dtype, 0)

    def full_like(self, a, fill, dtype=None, **k):
        return self._like(a, dtype, fill)

    def eye(self, n, *a, **k):
        r = self.zeros((n, n))
        for i in range(n):
            base(r)[i, i] = R(1)
        return r

    identity = eye

    def diag(self, v, k=0):
        v = base(v)
        if not isinstance(v, np.ndarray):
            v = np.asarray(v)
        if v.dtype != object or k != 0 or v.ndim == 2:
            return wrap(np.diag(v, k))
        n = len(v)
        r = self.zeros((n, n))
        for i in range(n):
            base(r)[i, i] = v[i]
        return r

    def array(self, x, dtype=None, copy=True, **k):
        if dtype in _FLOATISH and _deep_sym(x):
            r = np.array(_strip(x), dtype=object)
            return wrap(r)
        return np.array(_strip(x), dtype=dtype)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArray):
            return x
        return self.array(x, dtype)

    asanyarray = asarray
    ascontiguousarray = asarray

    def copy(self, x, **k):
        return x.copy() if isinstance(x, np.ndarray) else self.array(x)

    def where(self, c, *ab):
        if not ab:
            if isinstance(c, np.ndarray) and c.dtype == object:
                return np.where(_mask_concrete(c))
            return np.where(c)
        a, b = ab
        if _has_sym(c) or _has_sym(a) or _has_sym(b):
            if not any(isinstance(x, np.ndarray) for x in (c, a, b)):
                return ite(c, a, b)
            return wrap(_f(lambda c, a, b: ite(c, a, b), 3, 1)(*[_box(x) for x in (c, a, b)]))
        return np.where(c, a, b)

    def interp(self, x, xp, fp, left=None, right=None):
        if not (_has_sym(x) or _has_sym(xp) or _has_sym(fp)):
            return np.interp(x, xp, fp, left, right)
        xp = [lift(v) for v in base(xp)]
        fp = [lift(v) for v in base(fp)]

        def one(x):
            x = lift(x)
            if len(xp) == 1:
                return fp[0]
            r = lift(fp[-1] if right is None else right)
            r = ite(x <= xp[-1], fp[-1], r)
            for i in range(len(xp) - 2, -1, -1):
                r = ite(x < xp[i + 1], fp[i] + (fp[i + 1] - fp[i]) * (x - xp[i]) / (xp[i + 1] - xp[i]), r)
            return ite(x < xp[0], lift(fp[0] if left is None else left), r)
        if isinstance(x, np.ndarray):
            return wrap(_f(one, 1, 1)(base(x)))
        return one(x)

    def trapz(self, y, x=None, dx=1.0, axis=-1):
        y = base(y)
        s = R(0)
        for i in range(len(y) - 1):
            d = lift(dx) if x is None else lift(base(x)[i + 1]) - lift(base(x)[i])
            s = s + d * (lift(y[i]) + lift(y[i + 1])) / 2
        return s

    trapezoid = trapz

    def clip(self, a, lo, hi, out=None):
        if not (_has_sym(a) or _has_sym(lo) or _has_sym(hi)):
            return np.clip(a, lo, hi)
        r = a
        if lo is not None:
            r = self.maximum(r, lo)
        if hi is not None:
            r = self.minimum(r, hi)
        if out is not None:
            out[...] = r
            return out
        return r

    def bincount(self, x, weights=None, minlength=0):
        if weights is None or not _has_sym(weights):
            return np.bincount(_fix_index(x), weights, minlength)
        x = np.asarray(_fix_index(x))
        n = builtins.max(int(minlength), int(x.max()) + 1 if len(x) else 0)
        out = np.empty(n, dtype=object)
        out[:] = R(0)
        for i, w in zip(x, base(weights)):
            out[i] = out[i] + w
        return wrap(out)

    def select(self, conds, choices, default=0):
        r = default
        for c, v in zip(reversed(list(conds)), reversed(list(choices))):
            r = self.where(c, v, r)
        return r

    def piecewise(self, x, condlist, funclist, *a, **k):
        if not _has_sym(x):
            return np.piecewise(x, condlist, funclist, *a, **k)
        funcs = list(funclist)
        r = 0.
        if len(funcs) == len(condlist) + 1:
            f = funcs.pop()
            r = f(x, *a, **k) if callable(f) else f
        for c, f in zip(condlist, funcs):
            r = self.where(c, f(x, *a, **k) if callable(f) else f, r)
        return r

    def fromiter(self, it, dtype=None, count=-1, **k):
        return self.array(list(it), dtype)

    def vectorize(self, f, *a, **k):
        def call(*args):
            if not any(_deep_sym(x) for x in args):
                return np.vectorize(f, *a, **k)(*args)
            if not any(isinstance(x, np.ndarray) for x in args):
                return f(*args)
            return wrap(_f(f, len(args), 1)(*[_box(x) if not isinstance(x, (list, tuple)) else np.array(_strip(x), dtype=object)
                                              for x in args]))
        return call

    def gradient(self, f, *a, **k):
        if not _has_sym(f):
            return np.gradient(f, *a, **k)
        if k or len(a) > 1 or (a and isinstance(a[0], np.ndarray)):
            raise core.Unsupported('gradient')
        f = base(f)
        h = lift(a[0]) if a else R(1)
        n = len(f)
        return sarr([(lift(f[builtins.min(i + 1, n - 1)]) - f[builtins.max(i - 1, 0)])
                     / ((builtins.min(i + 1, n - 1) - builtins.max(i - 1, 0)) * h) for i in range(n)])

    def var(self, a, axis=None, ddof=0, **k):
        if not _has_sym(a):
            return np.var(a, axis=axis, ddof=ddof, **k)
        if axis is not None:
            raise core.Unsupported('var axis')
        d = a - a.mean()
        return (d * d).sum() / (a.size - ddof)

    def std(self, a, axis=None, ddof=0, **k):
        if not _has_sym(a):
            return np.std(a, axis=axis, ddof=ddof, **k)
        return sqrt(self.var(a, axis, ddof))

    def round(self, a, decimals=0, **k):
        if not _has_sym(a):
            return np.round(a, decimals, **k)
        return a.round(decimals) if isinstance(a, np.ndarray) else a.__round__(decimals)

    around = round

    def isneginf(self, a):
        return self.isinf(a) if not _has_sym(a) or not isinstance(a, np.ndarray) else np.array(
            [core.isinf(v) and v < 0 for v in base(a).ravel()], dtype=bool).reshape(a.shape)

    def isposinf(self, a):
        return self.isinf(a) if not _has_sym(a) or not isinstance(a, np.ndarray) else np.array(
            [core.isinf(v) and v > 0 for v in base(a).ravel()], dtype=bool).reshape(a.shape)

    def argmin(self, a, axis=None, **k):
        if _has_sym(a):
            return a.argmin(axis)
        return np.argmin(a, axis=axis, **k)

    def prod(self, a, axis=None, **k):
        if _has_sym(a):
            return _reduce('multiply', _box(a), axis, False, None)
        return np.prod(a, axis=axis, **k)

    def cumprod(self, a, axis=None, **k):
        if _has_sym(a):
            return a.cumprod()
        return np.cumprod(a, axis=axis, **k)

    def average(self, a, axis=None, weights=None, **k):
        if not (_has_sym(a) or _has_sym(weights)):
            return np.average(a, axis=axis, weights=weights, **k)
        if weights is None:
            return a.mean(axis)
        return self.sum(a * weights, axis) / self.sum(weights, axis)

    def sum(self, a, axis=None, **k):
        if _has_sym(a):
            return _reduce('add', base(a), axis, k.get('keepdims', False), None)
        if isinstance(a, (list, tuple)) and any(_deep_sym(v) for v in a):
            return _reduce('add', np.array(_strip(a), dtype=object), axis, False, None)
        return np.sum(a, axis=axis, **k)

    def dot(self, a, b):
        if _has_sym(a) or _has_sym(b):
            if isinstance(a, (R, B)) or isinstance(b, (R, B)):
                return a * b
            return wrap(matmul(base(a), base(b)))
        return np.dot(a, b)

    matmul = dot

    def any(self, a, axis=None, **k):
        if _has_sym(a):
            return _reduce('logical_or', _box(a), axis, False, None)
        return np.any(a, axis=axis, **k)

    def all(self, a, axis=None, **k):
        if _has_sym(a):
            return _reduce('logical_and', _box(a), axis, False, None)
        return np.all(a, axis=axis, **k)

    def max(self, a, axis=None, **k):
        if _has_sym(a):
            return _reduce('maximum', _box(a), axis, False, k.get('initial'))
        return np.max(a, axis=axis, **k)
    amax = max

    def min(self, a, axis=None, **k):
        if _has_sym(a):
            return _reduce('minimum', _box(a), axis, False, k.get('initial'))
        return np.min(a, axis=axis, **k)
    amin = min

    def mean(self, a, axis=None, **k):
        if _has_sym(a):
            return a.mean(axis)
        return np.mean(a, axis=axis, **k)

    def cumsum(self, a, axis=None, **k):
        if _has_sym(a):
            return a.cumsum()
        return np.cumsum(a, axis=axis, **k)

    def diff(self, a, *r, **k):
        if _has_sym(a):
            return wrap(np.diff(base(np.asarray(a, dtype=object)), *r, **k))
        return np.diff(a, *r, **k)

    def linspace(self, a, b, num=50, endpoint=True, retstep=False, **k):
        if not (_has_sym(a) or _has_sym(b)) or endpoint is not True or isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.linspace(a, b, num, endpoint, retstep, **k)
        num = int(num)
        step = (lift(b) - lift(a)) / (num - 1)
        out = np.empty(num, dtype=object)
        for i in range(num):
            out[i] = lift(a) + step * i
        out[num - 1] = lift(b)
        return (wrap(out), step) if retstep else wrap(out)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if _has_sym(a) or _has_sym(b):
            return abs(a - b) <= atol + rtol * abs(b)
        return np.isclose(a, b, rtol, atol, **k)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        return self.all(self.isclose(a, b, rtol, atol))

    def isscalar(self, x):
        return isinstance(x, (R, B)) or np.isscalar(x)

    def searchsorted(self, a, v, side='left', sorter=None):
        if not (_has_sym(a) or _has_sym(v)):
            return np.searchsorted(a, v, side=side)
        arr = list(base(a))

        def one(x):
            k = 0
            for y in arr:
                if (y < x) if side == 'left' else (y <= x):
                    k += 1
                else:
                    break
            return k
        if isinstance(v, np.ndarray):
            return np.array([one(x) for x in base(v)], dtype=np.int64)
        return one(v)

    def argmax(self, a, axis=None, **k):
        if _has_sym(a):
            return a.argmax(axis)
        return np.argmax(a, axis=axis, **k)

    def flatnonzero(self, a):
        if _has_sym(a):
            return np.flatnonzero(_mask_concrete(a))
        return np.flatnonzero(a)

    def count_nonzero(self, a):
        if _has_sym(a):
            return int(_mask_concrete(a).sum())
        return np.count_nonzero(a)

    def nan_to_num(self, a, **k):
        return a if _has_sym(a) else np.nan_to_num(a, **k)

    def polyfit(self, *a, **k):
        raise core.Unsupported('polyfit')

    # scalar ufuncs (called with R) and arrays
    def __getattr__(self, name):
        if name in _UF:
            real = getattr(np, name, None) or getattr(np, {'absolute': 'abs'}.get(name, name))
            return _Ufn(name, real)
        if name == 'abs':
            return _Ufn('absolute', np.abs)
        real = getattr(np, name)
        if isinstance(real, types.ModuleType):
            if name == 'linalg':
                return LINALG
            return real
        if isinstance(real, type) or not callable(real):
            return real

        def call(*a, **k):
            a2 = _strip(a)
            k2 = {kk: _strip(v) for kk, v in k.items()}
            return wrap(real(*a2, **k2))
        call.__name__ = name
        return call


class _Ufn:
    def __init__(self, name, real):
        self.name, self.real = name, real
        self.__name__ = name

    def __call__(self, *a, out=None, where=True, **k):
        if any(_has_sym(x) for x in a) or any(isinstance(x, (list, tuple)) and _deep_sym(x) for x in a):
            if any(isinstance(x, np.ndarray) or isinstance(x, (list, tuple)) for x in a) or out is not None:
                aa = [wrap(np.array(_strip(x), dtype=object)) if isinstance(x, (list, tuple)) else x for x in a]
                arr = next((x for x in aa if isinstance(x, SymArray)), None)
                if arr is None:
                    aa = [wrap(_box(x)) if isinstance(x, np.ndarray) and x.dtype == object else x for x in aa]
                if not any(isinstance(x, SymArray) for x in aa):
                    r = wrap(_UF_call(self.name, [base(x) for x in aa]))
                    if out is not None:
                        out[...] = r
                        return out
                    return r
                kw = {}
                if out is not None:
                    kw['out'] = (out,) if not isinstance(out, tuple) else out
                if where is not True:
                    kw['where'] = where
                return arr.__array_ufunc__(self.real, '__call__', *aa, **kw) if arr is not None else self.real(*aa, **kw)
            return _OPS[self.name](*a)
        # concrete
        if self.name == 'sqrt' and all(isinstance(x, (int, float, Fraction)) for x in a):
            return np.sqrt(float(a[0]))
        kw = dict(k)
        if out is not None:
            kw['out'] = out
        if where is not True:
            kw['where'] = where
        return self.real(*a, **kw)

    def at(self, a, idx, *v):
        if _has_sym(a) or any(_has_sym(x) for x in v):
            if not isinstance(a, SymArray):
                raise core.Unsupported('ufunc.at on concrete array with symbolic values')
            return a.__array_ufunc__(self.real, 'at', a, idx, *v)
        return self.real.at(a, idx, *v)

    def reduce(self, a, axis=0, **k):
        if _has_sym(a):
            return _reduce(self.name, _box(a), axis, k.get('keepdims', False), None)
        return self.real.reduce(a, axis=axis, **k)

    def accumulate(self, a, axis=0, **k):
        if _has_sym(a):
            return _accumulate(self.name, a)
        return self.real.accumulate(a, axis=axis, **k)

    def outer(self, a, b):
        if _has_sym(a) or _has_sym(b):
            a = base(a) if isinstance(a, np.ndarray) else np.asarray(a)
            b = base(b) if isinstance(b, np.ndarray) else np.asarray(b)
            return wrap(_UF[self.name](a.reshape(a.shape + (1,) * b.ndim), b))
        return self.real.outer(a, b)


def _deep_sym(x):
    if _has_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(y) for y in x)
    return False


def _box(x):
    if isinstance(x, np.ndarray):
        return base(x)
    z = np.empty((), dtype=object)
    z[()] = x
    return z


# ------------------------------------------------------------------ linear algebra stubs
def _mat(A):
    A = np.asarray(base(A))
    return [[lift(A[i, j]) for j in range(A.shape[1])] for i in range(A.shape[0])]


def _solve_cols(A, bs, label):
    """fresh X with A X = b (contract of a linear solver on a nonsingular system)."""
    c = core.ctx()
    n = len(A)
    outs = []
    for b in bs:
        cell = {}
        c.linsys.append((A, b))
        if c.expected_solution is not None:
            sol = c.expected_solution(A, b)
            if sol is not None:
                outs.append(sol)
                continue

        if all(v.const for row in A for v in row):
            sol = _const_solve(A, b)
            if sol is not None:
                outs.append(sol)
                continue

        def val(ev, cell=cell, A=A, b=b):
            key = id(ev)
            if cell.get('k') != key:
                M = np.array([[ev(v) for v in row] for row in A])
                cell['v'] = np.linalg.solve(M, np.array([ev(v) for v in b]))
                cell['k'] = key
                cell['ev'] = ev
            return cell['v']
        xs = [c.fresh(label, lambda ev, i=i, val=val: float(val(ev)[i])) for i in range(n)]
        for i in range(n):
            s = R(0)
            for j in range(n):
                s = s + A[i][j] * xs[j]
            e = s == b[i]
            if e is False:
                raise core.PathAbort()
            c.define(e)
        outs.append(xs)
    return outs


def _const_solve(A, b):
    """constant matrix, affine right-hand side: exact elimination"""
    from fractions import Fraction
    if not all(v.const or v.l is not None for v in b):
        return None
    n = len(A)
    M = [[v.f for v in row] + [b[i]] for i, row in enumerate(A)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if M[p][c] == 0:
            return None
        M[c], M[p] = M[p], M[c]
        for r in range(c + 1, n):
            if M[r][c] != 0:
                f = M[r][c] / M[c][c]
                for q in range(c + 1, n):
                    M[r][q] -= f * M[c][q]
                M[r][n] = M[r][n] - M[c][n] * R(f)
                M[r][c] = Fraction(0)
    x = [None] * n
    for r in reversed(range(n)):
        t = M[r][n]
        for q in range(r + 1, n):
            t = t - x[q] * R(M[r][q])
        x[r] = t * R(1 / M[r][r])
    return x


def lin_solve(A, b, *a, **k):
    if not (_has_sym(A) or _has_sym(b)):
        return np.linalg.solve(A, b)
    M = _mat(A)
    bb = np.asarray(base(b))
    if bb.ndim == 1:
        return sarr(_solve_cols(M, [[lift(v) for v in bb]], 'solve')[0])
    cols = _solve_cols(M, [[lift(v) for v in bb[:, j]] for j in range(bb.shape[1])], 'solve')
    out = np.empty(bb.shape, dtype=object)
    for j, xs in enumerate(cols):
        for i, v in enumerate(xs):
            out[i, j] = v
    return wrap(out)


def lin_solve_banded(lu, ab, b, *a, **k):
    if not (_has_sym(ab) or _has_sym(b)):
        import scipy.linalg
        return scipy.linalg.solve_banded(lu, ab, b)
    l, u = int(lu[0]), int(lu[1])
    ab = np.asarray(base(ab))
    n = ab.shape[1]
    if ab.shape[0] != l + u + 1:
        raise ValueError('invalid values for the number of lower and upper diagonals')
    M = [[R(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            r = u + i - j
            if 0 <= r < l + u + 1:
                M[i][j] = lift(ab[r, j])
    bb = np.asarray(base(b))
    return sarr(_solve_cols(M, [[lift(v) for v in bb]], 'solve')[0])


def lin_inv(A, *a, **k):
    if not _has_sym(A):
        return np.linalg.inv(A)
    n = A.shape[0]
    if n == 1:
        return sarr([1 / lift(base(A)[0, 0])], (1, 1))
    if n == 2:
        (a, b), (c, d) = _mat(A)
        t = a * d - b * c
        return sarr([d / t, -b / t, -c / t, a / t], (2, 2))
    return lin_solve(A, NP.eye(n))


def chol_lower(A, *a, **k):
    """Cholesky factor by the textbook recurrence (contract of numpy's cholesky)."""
    if not _has_sym(A):
        return np.linalg.cholesky(A)
    M = _mat(A)
    n = len(M)
    L = [[R(0)] * n for _ in range(n)]
    for j in range(n):
        s = M[j][j]
        for k2 in range(j):
            s = s - L[j][k2] * L[j][k2]
        L[j][j] = sqrt(s)
        for i in range(j + 1, n):
            t = M[i][j]
            for k2 in range(j):
                t = t - L[i][k2] * L[j][k2]
            L[i][j] = t / L[j][j]
    return sarr([v for row in L for v in row], (n, n))


def norm(x, ord=None, axis=None, **k):
    if not _has_sym(x):
        return np.linalg.norm(x, ord, axis, **k)
    b = base(x).ravel()
    if ord is None or ord == 2:
        s = R(0)
        for v in b:
            s = s + lift(v) * lift(v)
        return sqrt(s)
    if ord == np.inf:
        r = R(0)
        for v in b:
            r = smax(r, abs(lift(v)))
        return r
    if ord == 1:
        r = R(0)
        for v in b:
            r = r + abs(lift(v))
        return r
    raise core.Unsupported('norm %r' % (ord,))


def qr_stub(A, *a, **k):
    if not _has_sym(A):
        return np.linalg.qr(A, *a, **k)
    if (a[0] if a else k.get('mode')) != 'r':
        raise core.Unsupported('symbolic qr')
    # upper triangular R with R^T R = A^T A (determined up to signs of rows; the one with positive diagonal)
    A = wrap(np.asarray(base(A)))
    return chol_lower(A.T @ A).T


class _Linalg:
    solve = staticmethod(lin_solve)
    inv = staticmethod(lin_inv)
    norm = staticmethod(norm)
    cholesky = staticmethod(chol_lower)
    qr = staticmethod(qr_stub)
    solve_banded = staticmethod(lin_solve_banded)

    @staticmethod
    def multi_dot(ms, **k):
        r = ms[0]
        for m in ms[1:]:
            r = NP.dot(r, m)
        return r

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        real = getattr(self._real, name)
        if not callable(real) or isinstance(real, type):
            return real

        def call(*a, **k):
            if any(_deep_sym(x) for x in a):
                raise core.Unsupported('linalg.' + name)
            return real(*a, **k)
        return call


LINALG = _Linalg(np.linalg)
NP = _NP()
_OVERRIDES = {n for n in dir(_NP) if not n.startswith('_')}


class _Special:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        f = getattr(self._real, name)
        if name not in ('ellipe', 'ellipeinc'):
            return f

        def call(*a):
            if not any(isinstance(x, (R, SymArray)) for x in a):
                return f(*a)
            g = (lambda *v: core.ufun(name, v[0])) if len(a) == 1 else (lambda *v: core.ufun2(name, *v))
            bs = np.broadcast_arrays(*[np.asarray(base(x) if isinstance(x, SymArray) else x, dtype=object) for x in a])
            out = np.empty(bs[0].shape, dtype=object)
            for i in np.ndindex(out.shape):
                out[i] = g(*[lift(b[i]) for b in bs])
            return wrap(out)
        return call


class _Interp1d:
    """scipy.interpolate.interp1d, linear"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=float('nan'), assume_sorted=False):
        import scipy.interpolate as si
        self.x, self.y, self.fill, self.kind, self.be = x, y, fill_value, kind, bounds_error
        self.real = None
        if not (_has_sym(x) or _has_sym(y)):
            self.real = si.interp1d(x, y, kind=kind, bounds_error=bounds_error, fill_value=fill_value)

    def __call__(self, q):
        if self.real is not None and not _has_sym(q):
            return self.real(q)
        if self.kind != 'linear':
            raise core.Unsupported('interp1d ' + str(self.kind))
        ext = isinstance(self.fill, str)
        xs = [lift(v) for v in base(np.asarray(self.x))]
        if not ext:
            for v in np.asarray(base(q) if isinstance(q, np.ndarray) else q, dtype=object).ravel():
                if bool(lift(v) < xs[0]) or bool(lift(v) > xs[-1]):
                    raise ValueError('A value in x_new is outside the interpolation range.')
            return NP.interp(q, self.x, self.y)
        raise core.Unsupported('interp1d extrapolation')


class _Interpolate:
    interp1d = _Interp1d

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)


class _Concrete:
    """a module whose functions work on plain numbers only (graph algorithms on fixed topologies)"""
    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        v = getattr(self._real, name)
        if isinstance(v, types.ModuleType):
            return _Concrete(v)
        if not callable(v) or isinstance(v, type):
            return v

        def call(*a, **k):
            f = lambda x: _to_float(x) if isinstance(x, SymArray) else x
            return v(*[f(x) for x in a], **{kk: f(x) for kk, x in k.items()})
        return call


class _Scipy:
    def __init__(self, real):
        self._real = real
        import scipy.special as ss
        self.special = _Special(ss)
        import scipy.linalg as sl
        self.linalg = _Linalg(sl)
        import scipy.interpolate as si
        self.interpolate = _Interpolate(si)
        import scipy.sparse as sp
        import scipy.sparse.csgraph
        self.sparse = _Concrete(sp)

    def __getattr__(self, name):
        return getattr(self._real, name)


_SAVED = []
_ON = [False]


def enable(mods):
    replace_globals(mods)
    _ON[0] = True


class native:
    """Temporarily give the modules their real numpy back (concrete set-up code)."""

    def __enter__(self):
        import sys
        self.prof = sys.getprofile()
        sys.setprofile(None)
        self.new = []
        self.on = _ON[0]
        if not _ON[0]:
            return
        _ON[0] = False
        for g, k, v in _SAVED:
            self.new.append((g, k, g[k]))
            if v is None:
                del g[k]
            else:
                g[k] = v

    def __exit__(self, *a):
        _ON[0] = self.on
        for g, k, v in self.new:
            g[k] = v
        import sys
        sys.setprofile(self.prof)


def replace_globals(mods):
    """Rebind numpy / scipy / math names in the given modules to the facade."""
    import scipy
    import scipy.linalg
    sp = _Scipy(scipy)
    saved = []
    for m in mods:
        g = m.__dict__
        for k, v in list(g.items()):
            new = None
            if v is np:
                new = NP
            elif v is scipy:
                new = sp
            elif v is scipy.linalg:
                new = sp.linalg
            elif v is sys.modules.get('scipy.interpolate'):
                new = sp.interpolate
            elif v is getattr(sys.modules.get('scipy.interpolate'), 'interp1d', sp):
                new = _Interp1d
            elif v is np.linalg:
                new = LINALG
            elif v is math:
                new = MATHSHIM
            elif isinstance(v, np.ufunc) and v.__name__ in _UF:
                new = getattr(NP, v.__name__)
            elif isinstance(v, types.BuiltinFunctionType) and getattr(v, '__module__', None) == 'math':
                new = getattr(MATHSHIM, v.__name__)
            elif isinstance(v, types.FunctionType) and (getattr(v, '__module__', '') or '').startswith('numpy') \
                    and v.__name__ in _OVERRIDES:
                new = getattr(NP, v.__name__)
            elif callable(v) and getattr(v, '__module__', '') and str(getattr(v, '__module__', '')).startswith('scipy.linalg') \
                    and getattr(v, '__name__', '') in ('solve', 'inv', 'solve_banded', 'norm', 'cholesky', 'qr'):
                new = getattr(sp.linalg, v.__name__)
            if new is not None:
                saved.append((g, k, v))
                g[k] = new
        for k, new in (('max', _bmax), ('min', _bmin), ('float', _bfloat), ('sum', _bsum)):
            if k not in g:
                saved.append((g, k, None))
                g[k] = new
    _SAVED[:] = saved
    return saved


class _Math:
    pi = math.pi
    e = math.e
    inf = math.inf
    nan = math.nan

    def __getattr__(self, name):
        alias = {'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan', 'fabs': 'absolute', 'pow': 'power'}
        nm = alias.get(name, name)
        real = getattr(math, name)

        def call(*a, **k):
            if any(isinstance(x, (R, B)) for x in a):
                if nm == 'isclose':
                    return _misclose(*a, **k)
                if nm == 'fsum':
                    return _bsum(*a)
                if nm not in _OPS:
                    raise core.Unsupported('math.' + name)
                return _OPS[nm](*a, **k)
            return real(*a, **k)
        return call


MATHSHIM = _Math()


def _bmax(*a, **k):
    if len(a) == 1:
        a = list(a[0])
        if not a and 'default' in k:
            return k['default']
    if any(isinstance(x, R) for x in a) and not k.get('key'):
        r = a[0]
        for x in a[1:]:
            r = smax(r, x)
        return r
    return max(a, **k) if len(a) > 1 else (a[0] if len(a) == 1 else max(a, **k))


def _bmin(*a, **k):
    if len(a) == 1:
        a = list(a[0])
        if not a and 'default' in k:
            return k['default']
    if any(isinstance(x, R) for x in a) and not k.get('key'):
        r = a[0]
        for x in a[1:]:
            r = smin(r, x)
        return r
    return min(a, **k) if len(a) > 1 else (a[0] if len(a) == 1 else min(a, **k))


def _bsum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class _bfloat(metaclass=_FloatMeta):
    dtype = np.dtype('float64')         # so that pandas accepts it as a type

    def __new__(cls, x=0.0):
        if isinstance(x, R):
            return x
        if isinstance(x, B):
            return core.b2r(x)
        if isinstance(x, SymArray):
            return lift(base(x).item()) if x.size == 1 else x.copy()
        return np.float64(x) if isinstance(x, np.ndarray) else float(x)


_NP.float64 = _bfloat
_NP.double = _bfloat
