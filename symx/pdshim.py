"""Table columns that hold symbolic values: a pandas extension array whose `.values` is a SymArray."""
import numpy as np
import pandas as pd
from pandas.api.extensions import ExtensionArray, ExtensionDtype
from . import core, npshim
from .core import R
from .npshim import SymArray, sarr, base


class SymDtype(ExtensionDtype):
    name = 'sym'
    type = object
    kind = 'O'
    na_value = np.nan
    _is_numeric = True

    @classmethod
    def construct_array_type(cls):
        return SymExt


def _vec(v):
    return sarr([core.lift(x) for x in np.asarray(v, dtype=object).ravel()])


class SymExt(ExtensionArray):
    def __init__(self, a):
        self.a = a if isinstance(a, SymArray) else _vec(a)

    @classmethod
    def _from_sequence(cls, scalars, dtype=None, copy=False):
        return cls(_vec(list(scalars.a) if isinstance(scalars, SymExt) else list(scalars)))

    @classmethod
    def _from_factorized(cls, values, original):
        return cls(_vec(values))

    @classmethod
    def _concat_same_type(cls, xs):
        return cls(_vec([y for x in xs for y in x.a]))

    dtype = SymDtype()

    @property
    def nbytes(self):
        return 8 * len(self)

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return iter(list(base(self.a)))

    def __getitem__(self, i):
        r = base(self.a)[npshim._fix_index(i) if not isinstance(i, slice) else i]
        return SymExt(_vec(r)) if isinstance(r, np.ndarray) else r

    def __setitem__(self, i, v):
        base(self.a)[i] = core.lift(v) if np.isscalar(v) or isinstance(v, R) else np.asarray([core.lift(x) for x in v], dtype=object)

    def isna(self):
        return np.zeros(len(self), dtype=bool)

    def take(self, ix, allow_fill=False, fill_value=None):
        return SymExt(_vec(base(self.a)[np.asarray(ix, dtype=int)]))

    def copy(self):
        return SymExt(_vec(base(self.a).copy()))

    def astype(self, dtype, copy=True):
        if isinstance(dtype, SymDtype):
            return self.copy() if copy else self
        return _vec(base(self.a).copy())

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        return _vec(base(self.a).copy()) if copy else self.a

    def __array__(self, dtype=None, copy=None):
        return base(self.a).copy()

    def _formatter(self, boxed=False):
        return str

    def _op(self, f, o):
        if isinstance(o, (pd.Series, pd.DataFrame, pd.Index)):
            return NotImplemented
        if isinstance(o, SymExt):
            o = o.a
        r = f(self.a, o)
        return r if r.dtype == bool else SymExt(r)

    def __add__(self, o): return self._op(lambda a, b: a + b, o)
    def __radd__(self, o): return self._op(lambda a, b: b + a, o)
    def __sub__(self, o): return self._op(lambda a, b: a - b, o)
    def __rsub__(self, o): return self._op(lambda a, b: b - a, o)
    def __mul__(self, o): return self._op(lambda a, b: a * b, o)
    def __rmul__(self, o): return self._op(lambda a, b: b * a, o)
    def __truediv__(self, o): return self._op(lambda a, b: a / b, o)
    def __rtruediv__(self, o): return self._op(lambda a, b: b / a, o)
    def __neg__(self): return SymExt(-self.a)

    def _cmp(self, f, o):
        if isinstance(o, SymExt):
            o = o.a
        o = np.broadcast_to(np.asarray(o, dtype=object), (len(self),))
        return np.array([bool(f(a, b)) for a, b in zip(base(self.a), o)], dtype=bool)

    def __lt__(self, o): return self._cmp(lambda a, b: a < b, o)
    def __le__(self, o): return self._cmp(lambda a, b: a <= b, o)
    def __gt__(self, o): return self._cmp(lambda a, b: a > b, o)
    def __ge__(self, o): return self._cmp(lambda a, b: a >= b, o)
    def __eq__(self, o): return self._cmp(lambda a, b: a == b, o)
    def __ne__(self, o): return self._cmp(lambda a, b: a != b, o)

    def _accumulate(self, name, *, skipna=True, **k):
        if name != 'cumsum':
            raise core.Unsupported('column ' + name)
        return SymExt(npshim.NP.cumsum(self.a))

    def _reduce(self, name, *, skipna=True, keepdims=False, **k):
        return getattr(npshim.NP, {'sum': 'sum', 'min': 'min', 'max': 'max', 'mean': 'mean'}[name])(self.a)

    def _groupby_op(self, *, how, has_dropped_na, min_count, ngroups, ids, **k):
        x = base(self.a)
        if how == 'cumsum':
            acc, out = {}, []
            for g, v in zip(ids, x):
                acc[g] = acc[g] + v if g in acc else v
                out.append(acc[g])
            return SymExt(_vec(out))
        out = []
        for g in range(ngroups):
            v = [y for i, y in zip(ids, x) if i == g]
            r = v[0]
            if how in ('sum', 'mean'):
                for y in v[1:]:
                    r = r + y
                if how == 'mean':
                    r = r / len(v)
            elif how in ('min', 'max'):
                for y in v[1:]:
                    r = (core.smin if how == 'min' else core.smax)(r, y)
            elif how == 'last':
                r = v[-1]
            elif how != 'first':
                raise core.Unsupported('group ' + how)
            out.append(r)
        return SymExt(_vec(out))


class tables:
    """while active, columns assigned from symbolic arrays stay symbolic and `.values` hands them out as such"""

    def __enter__(self):
        self.saved = [(pd.Series, 'values', pd.Series.__dict__.get('values')), (pd.Series, 'to_numpy', pd.Series.__dict__.get('to_numpy')),
                      (pd.DataFrame, '__setitem__', pd.DataFrame.__setitem__), (pd.DataFrame, '__init__', pd.DataFrame.__init__),
                      (pd.Series, '__init__', pd.Series.__init__)]
        values, seti, init, sinit = pd.Series.values.fget, pd.DataFrame.__setitem__, pd.DataFrame.__init__, pd.Series.__init__

        def get(s):
            a = s.array
            return a.a if isinstance(a, SymExt) else values(s)

        def conv(v):
            if isinstance(v, SymArray):
                if v.ndim == 1 and all(isinstance(x, R) for x in base(v)):
                    return SymExt(v)
                if all(isinstance(x, R) and x.const for x in base(v).ravel()):
                    return np.array([float(x.f) for x in base(v).ravel()]).reshape(v.shape)
                return base(v)
            return v

        def put(df, k, v):
            return seti(df, k, conv(v))

        def start(df, data=None, *a, **k):
            if isinstance(data, dict):
                data = {kk: conv(v) for kk, v in data.items()}
            return init(df, conv(data), *a, **k)

        def sstart(s, data=None, *a, **k):
            return sinit(s, conv(data), *a, **k)
        npshim.NP.plain_masks = True
        pd.Series.values = property(get)
        pd.Series.to_numpy = lambda s, *a, **k: get(s)
        pd.DataFrame.__setitem__ = put
        pd.DataFrame.__init__ = start
        pd.Series.__init__ = sstart
        return self

    def __exit__(self, *a):
        npshim.NP.plain_masks = False
        for c, k, v in self.saved:
            if v is None:
                delattr(c, k)
            else:
                setattr(c, k, v)
