"""Harness interface: one harness text, run symbolically (all inputs) or concretely (replay)."""
import json
import math
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction
import numpy as np
import z3
from . import core
from .core import R, B, lift, PathAbort, tob, mkB

CVC5 = '/usr/local/bin/cvc5'


class CheckFailed(Exception):
    pass


class Harness:
    """name: unique in the property; fn(V, **params)."""

    def __init__(self, name, fn, params=None, div='assume', domain='assume', max_paths=2000, tier='quick',
                 bounds='', timeout=None, q_ms=None, sample=3, note='', exc='violation', find_ms=None, weight=1, generic=False, linear=False):
        self.name, self.fn, self.params = name, fn, params or {}
        self.div, self.domain, self.max_paths, self.tier = div, domain, max_paths, tier
        self.bounds, self.timeout, self.q_ms, self.sample = bounds, timeout, q_ms, sample
        self.note = note
        self.exc = exc
        self.find_ms = find_ms
        self.weight = weight
        self.generic = generic
        self.linear = linear


# ------------------------------------------------------------------ evaluation of terms
class Evaluator:
    def __init__(self, inputs, fresh_eval):
        self.inputs = inputs
        self.fresh = fresh_eval
        self.memo = {}
        self.busy = set()

    def __call__(self, x):
        if isinstance(x, R):
            if x.f is not None:
                return float(x.f)
            return self.term(x.e)
        if isinstance(x, B):
            return self.term(x.e)
        return float(x) if core.isnum(x) else x

    def term(self, e):
        st = [e]
        memo = self.memo
        while st:
            t = st[-1]
            i = t.get_id()
            if i in memo:
                st.pop()
                continue
            if z3.is_rational_value(t):
                memo[i] = (float(Fraction(t.numerator_as_long(), t.denominator_as_long())), t)
                st.pop()
                continue
            d = t.decl()
            k = d.kind()
            if t.num_args() == 0:
                if z3.is_true(t):
                    v = True
                elif z3.is_false(t):
                    v = False
                else:
                    n = d.name()
                    if n in self.inputs:
                        v = self.inputs[n]
                    elif n in self.fresh and self.fresh[n] is not None:
                        if n in self.busy:
                            raise RuntimeError('cyclic definition ' + n)
                        self.busy.add(n)
                        v = self.fresh[n](self)
                        self.busy.discard(n)
                    else:
                        raise KeyError(n)
                memo[i] = (v, t)
                st.pop()
                continue
            ch = t.children()
            if k == z3.Z3_OP_ITE:
                c = memo.get(ch[0].get_id())
                if c is None:
                    st.append(ch[0])
                    continue
                br = ch[1] if c[0] else ch[2]
                b = memo.get(br.get_id())
                if b is None:
                    st.append(br)
                    continue
                memo[i] = (b[0], t)
                st.pop()
                continue
            miss = [c for c in ch if c.get_id() not in memo]
            if miss:
                st.extend(miss)
                continue
            a = [memo[c.get_id()][0] for c in ch]
            if k == z3.Z3_OP_ADD:
                v = sum(a)
            elif k == z3.Z3_OP_SUB:
                v = a[0]
                for y in a[1:]:
                    v = v - y
            elif k == z3.Z3_OP_UMINUS:
                v = -a[0]
            elif k == z3.Z3_OP_MUL:
                v = 1.0
                for y in a:
                    v = v * y
            elif k == z3.Z3_OP_DIV:
                v = a[0] / a[1] if a[1] != 0 else float('nan')
            elif k == z3.Z3_OP_POWER:
                v = a[0] ** a[1]
            elif k == z3.Z3_OP_LE:
                v = a[0] <= a[1]
            elif k == z3.Z3_OP_LT:
                v = a[0] < a[1]
            elif k == z3.Z3_OP_GE:
                v = a[0] >= a[1]
            elif k == z3.Z3_OP_GT:
                v = a[0] > a[1]
            elif k == z3.Z3_OP_EQ:
                v = a[0] == a[1]
            elif k == z3.Z3_OP_DISTINCT:
                v = a[0] != a[1]
            elif k == z3.Z3_OP_AND:
                v = all(a)
            elif k == z3.Z3_OP_OR:
                v = any(a)
            elif k == z3.Z3_OP_NOT:
                v = not a[0]
            elif k == z3.Z3_OP_XOR:
                v = bool(a[0]) != bool(a[1])
            elif k == z3.Z3_OP_IMPLIES:
                v = (not a[0]) or a[1]
            elif k == z3.Z3_OP_TO_REAL:
                v = a[0]
            else:
                raise RuntimeError('eval ' + str(d))
            memo[i] = (v, t)
            st.pop()
        return memo[e.get_id()][0]


# ------------------------------------------------------------------ rational normal form
class RatForm:
    """num/den of a term without If; division cleared.  Used to hand the solver polynomial goals."""

    def __init__(self):
        self.memo = {}

    def get(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is not None:
            return r[0], r[1]
        n, d = self._get(e)
        self.memo[i] = (n, d, e)
        return n, d

    def _get(self, e):
        one = z3.RealVal(1)
        if e.num_args() == 0:
            return e, one
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            parts = [self.get(c) for c in e.children()]
            dens = {}
            for _, d in parts:
                dens.setdefault(d.get_id(), d)
            dl = [d for d in dens.values() if not d.eq(one)]
            D = one
            for d in dl:
                D = d if D.eq(one) else D * d
            tot = None
            for idx, (n, d) in enumerate(parts):
                m = n
                for dd in dl:
                    if dd.get_id() != d.get_id():
                        m = m * dd
                if tot is None:
                    tot = m
                elif k == z3.Z3_OP_ADD:
                    tot = tot + m
                else:
                    tot = tot - m
            return tot, D
        if k == z3.Z3_OP_UMINUS:
            n, d = self.get(e.children()[0])
            return -n, d
        if k == z3.Z3_OP_MUL:
            N, D = one, one
            for c in e.children():
                n, d = self.get(c)
                N = n if N.eq(one) else N * n
                D = d if D.eq(one) else (D if d.eq(one) else D * d)
            return N, D
        if k == z3.Z3_OP_DIV:
            n1, d1 = self.get(e.children()[0])
            n2, d2 = self.get(e.children()[1])
            N = n1 if d2.eq(one) else n1 * d2
            D = n2 if d1.eq(one) else d1 * n2
            return N, D
        if k == z3.Z3_OP_ITE:
            raise _HasIte()
        return e, one


class _HasIte(Exception):
    pass


def has_ite(e, memo):
    st = [e]
    seen = set()
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return True
        st.extend(t.children())
    return False


def is_linear(e):
    st, seen = [e], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) for c in t.children()) > 1:
            return False
        if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_ITE) or (k == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0):
            return False
        st.extend(t.children())
    return True


def term_vars(e):
    out = set()
    st = [e]
    seen = set()
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if t.num_args() == 0:
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
        else:
            st.extend(t.children())
    return out


# ------------------------------------------------------------------ symbolic view
class SymV:
    mode = 'symbolic'

    def __init__(self, run):
        self.run = run
        self.c = run.ctx
        self.boxes = run.boxes

    # inputs
    def real(self, name, lo=None, hi=None, box=None, pos=False, strict=False):
        """An arbitrary real.  lo/hi are assumptions (part of the claim); box only steers the
        search for counterexamples."""
        c = self.c
        if name in c.inputs:
            return c.inputs[name]
        if self.run.h.linear:
            x = core.linvar(name)
            if lo is not None and hi is not None:
                c.bounds[name] = (core.frac(lo), core.frac(hi))
        else:
            x = R(z3.Real(name))
        c.inputs[name] = x
        if pos:
            c.assume(x > 0)
        if lo is not None:
            c.assume(B(x.e > lift(lo).e) if strict else B(x.e >= lift(lo).e))
        if hi is not None:
            c.assume(B(x.e <= lift(hi).e))
        if box is None:
            if lo is not None and hi is not None and core.isnum(lo) and core.isnum(hi):
                box = (lo, hi)
            elif pos or (lo is not None and core.isnum(lo) and float(lo) >= 0):
                box = (max(0.1, float(lo or 0)), 8)
            else:
                box = (-5, 5)
        self.boxes[name] = (float(box[0]), float(box[1]))
        return x

    def reals(self, name, n, **k):
        from .npshim import sarr
        shape = None
        if isinstance(n, tuple):
            shape = n
            n = int(np.prod(n))
        return sarr([self.real('%s_%d' % (name, i), **k) for i in range(n)], shape)

    def vec(self, vals):
        from .npshim import sarr
        return sarr([lift(v) for v in vals])

    def const(self, x):
        return R(x)

    def choice(self, name, options):
        options = list(options)
        i = self.c.choose(len(options))
        self.c.inputs['#' + name] = i
        return options[i]

    def assume(self, *conds):
        for cond in conds:
            self.c.assume(cond)

    def cut(self, name, val, *facts):
        """Abstract a value: an arbitrary value from here on."""
        if isinstance(val, np.ndarray):
            from .npshim import sarr, base
            return sarr([self.cut('%s_%d' % (name, i), v) for i, v in enumerate(base(val).ravel())], val.shape)
        val = lift(val)
        if val.const:
            return val
        return self.c.fresh('cut_' + name, lambda ev, val=val: ev(val))

    def branch(self, cond):
        return bool(cond)

    # obligations
    def check(self, name, cond, **k):
        self.run.obligation(name, cond, **k)

    def check_eq(self, name, a, b, tol=1e-6, near=None, **k):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a = np.asarray(a, dtype=object)
            b = np.asarray(b, dtype=object)
            if a.shape != b.shape and a.size != 1 and b.size != 1:
                self.run.obligation(name, False)
                return
            a, b = np.broadcast_arrays(a.view(np.ndarray), b.view(np.ndarray))
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                self.check_eq('%s[%d]' % (name, i), x, y, tol, near, **k)
            return
        a, b = lift(a), lift(b)
        if a.const and b.const:
            self.run.obligation(name, abs(float(a.f - b.f)) <= tol * (1 + abs(float(a.f))), **k)
            return
        if near is not None:
            # agreement up to a stated absolute tolerance (rounded constants in the code)
            nr = core.frac(near)
            d = a - b
            if d.const:
                self.run.obligation(name, abs(d.f) <= nr, **k)
            else:
                self.run.obligation(name, B(z3.And(d.e <= core.rv(nr), -d.e <= core.rv(nr))), **k)
            return
        self.run.obligation(name, a == b, eq=(a, b), **k)

    def check_le(self, name, a, b, tol=1e-6, **k):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a = np.asarray(a, dtype=object)
            b = np.asarray(b, dtype=object)
            a, b = np.broadcast_arrays(a.view(np.ndarray), b.view(np.ndarray))
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                self.check_le('%s[%d]' % (name, i), x, y, tol, **k)
            return
        a, b = lift(a), lift(b)
        if a.const and b.const:
            self.run.obligation(name, float(a.f - b.f) <= tol * (1 + abs(float(a.f))), **k)
            return
        if self.run.h.linear:
            d = b - a
            if not d.const:
                # handed to the solver even where bounds of the inputs would settle it
                self.run.obligation(name, B(d.e >= 0), le=(a, b), **k)
                return
        self.run.obligation(name, a <= b, le=(a, b), **k)

    def fact(self, name, cond, **k):
        """Prove, then use on the rest of the path."""
        self.run.obligation(name, cond, **k)
        self.c.assume(cond)

    def fact_eq(self, name, a, b, **k):
        self.check_eq(name, a, b, **k)
        self.c.assume(lift(a) == lift(b))

    def observe(self, name, val):
        self.run.observe(name, val)

    def symbolic(self):
        return True

    def fresh(self, name):
        return self.c.fresh('gen_' + name, lambda ev: 0.0)

    # arithmetic for specifications
    def where(self, c, a, b):
        return core.ite(c, a, b)

    def max(self, *a):
        r = a[0]
        for x in a[1:]:
            r = core.smax(r, x)
        return r

    def min(self, *a):
        r = a[0]
        for x in a[1:]:
            r = core.smin(r, x)
        return r

    def abs(self, x):
        return abs(lift(x))

    def pow(self, x, y):
        return core.power(lift(x), lift(y))

    def sqrt(self, x):
        return core.sqrt(lift(x))

    def fn(self, name, x):
        return core.ufun(name, x)

    def fn2(self, name, x, y):
        return core.ufun2(name, x, y)

    def and_(self, *a):
        return core.band(*a)

    def or_(self, *a):
        return core.bor(*a)

    def not_(self, a):
        return core.bnot(a)

    def implies(self, a, b):
        return core.implies(a, b)

    def resolve(self, x):
        """drop the min/max/where cases that the path condition excludes"""
        if isinstance(x, np.ndarray):
            from .npshim import sarr, base
            return sarr([self.resolve(v) for v in base(x).ravel()], x.shape)
        x = lift(x)
        if x.const:
            return x
        return R(self.run.resolve_ites(x.e))

    def expect_solution(self, xs, name):
        """The next linear solve must be solved by xs: proves A xs = b, then the solver returns xs
        (a linear solver returns the unique solution; singular systems are outside the claim)."""
        if xs is None:
            self.c.expected_solution = None
            return
        seqs = [list(v) for v in xs] if isinstance(xs[0], (list, np.ndarray)) else None
        if seqs is None:
            seqs = [xs]
            cyc = True
        else:
            cyc = False
        pos = [0]

        def f(A, b):
            sol = seqs[0] if cyc else (seqs[pos[0]] if pos[0] < len(seqs) else None)
            pos[0] += 1
            if sol is None or len(sol) != len(A):
                return None
            sol = [lift(v) for v in sol]
            for i in range(len(A)):
                t = R(0)
                for j in range(len(A)):
                    t = t + A[i][j] * sol[j]
                self.check_eq('%s[%d]' % (name, i), t, b[i])
            return sol
        self.c.expected_solution = f

    def arr(self, x):
        from .npshim import sarr
        x = np.asarray(x)
        return sarr([R(v) if core.isnum(v) and not isinstance(v, (bool, np.bool_)) else v for v in x.ravel()], x.shape)


class ConV:
    """Concrete view: same harness, floats, real numpy, real code."""
    mode = 'concrete'

    def __init__(self, inputs, rng=None):
        self.inp = dict(inputs)
        self.rng = rng
        self.failed = []
        self.passed = []
        self.obs = {}

    def real(self, name, lo=None, hi=None, box=None, pos=False, strict=False):
        if name not in self.inp:
            if box is None:
                if lo is not None and hi is not None and core.isnum(lo) and core.isnum(hi):
                    box = (lo, hi)
                elif pos or (lo is not None and core.isnum(lo) and float(lo) >= 0):
                    box = (max(0.1, float(lo or 0)), 8)
                else:
                    box = (-5, 5)
            r = self.rng or random
            self.inp[name] = r.uniform(float(box[0]), float(box[1]))
        x = float(self.inp[name])
        eps = 1e-9
        if pos and not x > 0:
            raise PathAbort()
        if lo is not None and x < lo - eps * (1 + abs(float(lo))):
            raise PathAbort()
        if hi is not None and x > hi + eps * (1 + abs(float(hi))):
            raise PathAbort()
        return np.float64(x)

    def reals(self, name, n, **k):
        shape = None
        if isinstance(n, tuple):
            shape = n
            n = int(np.prod(n))
        a = np.array([self.real('%s_%d' % (name, i), **k) for i in range(n)], dtype=np.float64)
        return a.reshape(shape) if shape else a

    def vec(self, vals):
        return np.array([float(v) for v in vals], dtype=np.float64)

    def const(self, x):
        return np.float64(x)

    def choice(self, name, options):
        options = list(options)
        k = '#' + name
        if k not in self.inp:
            self.inp[k] = (self.rng or random).randrange(len(options))
        return options[int(self.inp[k])]

    def assume(self, *conds):
        for c in conds:
            if not bool(np.all(c)):
                raise PathAbort()

    def cut(self, name, val, *facts):
        return val

    def branch(self, cond):
        return bool(cond)

    def check(self, name, cond, **k):
        ok = bool(np.all(cond))
        (self.passed if ok else self.failed).append((name, str(cond)))

    def check_eq(self, name, a, b, tol=1e-6, near=None, **k):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape and a.size != 1 and b.size != 1:
            self.failed.append((name, 'shapes %s %s' % (a.shape, b.shape)))
            return
        a, b = np.broadcast_arrays(a, b)
        if a.ndim == 0:
            self._eq1(name, float(a), float(b), tol)
        else:
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                self._eq1('%s[%d]' % (name, i), float(x), float(y), tol)

    def _eq1(self, name, x, y, tol):
        ok = abs(x - y) <= tol * (1 + max(abs(x), abs(y)))
        (self.passed if ok else self.failed).append((name, '%r vs %r' % (x, y)))

    def check_le(self, name, a, b, tol=1e-6, **k):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        a, b = np.broadcast_arrays(a, b)
        if a.ndim == 0:
            self._le1(name, float(a), float(b), tol)
        else:
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                self._le1('%s[%d]' % (name, i), float(x), float(y), tol)

    def _le1(self, name, x, y, tol):
        ok = x <= y + tol * (1 + max(abs(x), abs(y)))
        (self.passed if ok else self.failed).append((name, '%r <= %r' % (x, y)))

    def fact(self, name, cond, **k):
        self.check(name, cond)

    def fact_eq(self, name, a, b, **k):
        self.check_eq(name, a, b, **k)

    def observe(self, name, val):
        def put(n, v):
            if isinstance(v, np.ndarray):
                for i, x in enumerate(v.ravel()):
                    put('%s[%d]' % (n, i), x)
            else:
                self.obs[n] = float(v)
        put(name, val)

    def symbolic(self):
        return False

    def where(self, c, a, b):
        return a if bool(c) else b

    def max(self, *a):
        return max(a)

    def min(self, *a):
        return min(a)

    def abs(self, x):
        return abs(x)

    def pow(self, x, y):
        return np.float64(x) ** float(y)

    def sqrt(self, x):
        return np.sqrt(x)

    def fn(self, name, x):
        return getattr(np, name)(x) if hasattr(np, name) else core.mathfn(name)(x)

    def fn2(self, name, x, y):
        return core.mathfn(name)(x, y)

    def and_(self, *a):
        return all(bool(x) for x in a)

    def or_(self, *a):
        return any(bool(x) for x in a)

    def not_(self, a):
        return not bool(a)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def resolve(self, x):
        return x

    def expect_solution(self, xs, name):
        pass

    def arr(self, x):
        return np.array(x, dtype=np.float64)


def from_code(e):
    """raised by (or below) the code under test, rather than by the harness text"""
    from . import load
    root = os.path.realpath(load.REPO) + os.sep
    t = e.__traceback__
    while t is not None:
        if os.path.realpath(t.tb_frame.f_code.co_filename).startswith(root):
            return True
        t = t.tb_next
    return False


def run_concrete(h, inputs, rng=None):
    """-> dict(status, failed, passed, obs, inputs)"""
    V = ConV(inputs, rng)
    import warnings
    old = np.seterr(all='ignore')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if h.div in ('check',):
                np.seterr(divide='raise', invalid='raise')
            h.fn(V, **h.params)
        st = 'ok'
        err = ''
    except PathAbort:
        st, err = 'assume', ''
    except Exception as e:
        st = 'raised' if from_code(e) else 'harness_error'
        err = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-4))
    finally:
        np.seterr(**old)
    return {'status': st, 'error': err, 'exc': err.split(':')[0] if err else '', 'failed': V.failed,
            'npassed': len(V.passed), 'obs': V.obs, 'inputs': {k: (float(v) if not k.startswith('#') else int(v)) for k, v in V.inp.items()}}


# ------------------------------------------------------------------ symbolic run
def _subst(e, sub):
    """bottom-up substitution of boolean constants into ite conditions, keeping shared structure"""
    m = {c.get_id(): v for c, v in sub}
    memo = {}

    def go(t):
        st = [t]
        while st:
            u = st[-1]
            i = u.get_id()
            if i in memo:
                st.pop()
                continue
            if u.decl().kind() == z3.Z3_OP_ITE and u.arg(0).get_id() in m:
                br = u.arg(1) if z3.is_true(m[u.arg(0).get_id()]) else u.arg(2)
                if br.get_id() in memo:
                    memo[i] = (memo[br.get_id()][0], u)
                    st.pop()
                else:
                    st.append(br)
                continue
            ch = u.children()
            miss = [c for c in ch if c.get_id() not in memo]
            if miss:
                st.extend(miss)
                continue
            if not ch:
                memo[i] = (u, u)
            else:
                nc = [memo[c.get_id()][0] for c in ch]
                if all(a.eq(b) for a, b in zip(nc, ch)):
                    memo[i] = (u, u)
                else:
                    memo[i] = (rebuild(u, nc), u)
            st.pop()
        return memo[t.get_id()][0]
    return go(e)


def rebuild(u, nc):
    k = u.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(nc)
    if k == z3.Z3_OP_MUL:
        return z3.Product(nc)
    if k == z3.Z3_OP_AND:
        return z3.And(nc)
    if k == z3.Z3_OP_OR:
        return z3.Or(nc)
    return u.decl()(*nc)


def replace_terms(e, mapping):
    """replace whole subterms (by identity) with others"""
    m = {k.get_id(): v for k, v in mapping}
    memo = {}
    st = [e]
    while st:
        u = st[-1]
        i = u.get_id()
        if i in memo:
            st.pop()
            continue
        if i in m:
            memo[i] = (m[i], u)
            st.pop()
            continue
        ch = u.children()
        miss = [c for c in ch if c.get_id() not in memo]
        if miss:
            st.extend(miss)
            continue
        if not ch:
            memo[i] = (u, u)
        else:
            nc = [memo[c.get_id()][0] for c in ch]
            memo[i] = (u, u) if all(a.eq(b) for a, b in zip(nc, ch)) else (rebuild(u, nc), u)
        st.pop()
    return memo[e.get_id()][0]


class SymRun:
    def __init__(self, h, tier='quick', seed=1, deadline=None):
        self.h = h
        self.tier = tier
        self.seed = seed
        self.boxes = {}
        self.ctx = core.Ctx(div=h.div, domain=h.domain, max_paths=h.max_paths, seed=seed, generic=h.generic)
        self.q_ms = h.q_ms or (20000 if tier == 'quick' else 120000)
        self.find_ms = h.find_ms or 15000
        self.stats = dict(obligations=0, discharged=0, trivial=0, queries=0, solver_s=0.0, by={})
        self.failures = []      # (name, kind, models)
        self.inconclusive = []
        self.samples = []
        self.obs = {}
        self.names = {}
        self.failed_names = set()
        self.drawn = self.last_sat = None
        self.dead = {}
        self.deadline = deadline
        self.functions = set()
        self.rng = random.Random(seed)

    def observe(self, name, val):
        if isinstance(val, np.ndarray):
            for i, x in enumerate(val.view(np.ndarray).ravel()):
                self.observe('%s[%d]' % (name, i), x)
        else:
            self.obs[name] = val

    # ---- solving
    def _tick(self, who, t0):
        dt = time.time() - t0
        self.stats['queries'] += 1
        self.stats['solver_s'] += dt
        b = self.stats['by'].setdefault(who, [0, 0.0])
        b[0] += 1
        b[1] += dt

    def _solve(self, cons, ms, who='z3', want_model=False):
        t0 = time.time()
        if who == 'z3':
            s = z3.Solver()
        elif who == 'nlsat':
            s = z3.Tactic('qfnra-nlsat').solver()
        elif who == 'z3-lra':
            s = z3.SolverFor('QF_LRA')
        elif who == 'cvc5':
            r = self._cvc5(cons, ms)
            self._tick(who, t0)
            return r, None
        s.set('timeout', int(ms))
        s.add(*cons)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self._tick(who, t0)
        m = None
        if r == z3.sat and want_model:
            m = s.model()
        return str(r), m

    def _cvc5(self, cons, ms):
        s = z3.Solver()
        s.add(*cons)
        txt = '(set-logic QF_NRA)\n' + s.to_smt2()
        if '(check-sat)' not in txt:
            txt += '(check-sat)\n'
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % int(ms), '-'], input=txt, capture_output=True, text=True,
                               timeout=ms / 1000 + 5)
        except (subprocess.TimeoutExpired, FileNotFoundError):
            return 'unknown'
        o = p.stdout.strip().split('\n')[0]
        if '(error' in p.stdout or o not in ('sat', 'unsat'):
            return 'unknown'
        return o

    def resolve_ites(self, e):
        conds = {}
        st, seen = [e], set()
        while st:
            t = st.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if t.decl().kind() == z3.Z3_OP_ITE:
                conds[t.arg(0).get_id()] = t.arg(0)
            st.extend(t.children())
        if not conds:
            return e
        sub = []
        # innermost first: conditions without nested ite
        for c in sorted(conds.values(), key=lambda c: len(str(c.sexpr()))):
            c2 = z3.simplify(z3.substitute(c, *sub)) if sub else c
            r = self.ctx.implied(c2)
            if r is not None:
                sub.append((c, z3.BoolVal(r)))
        if sub:
            e = _subst(e, sub)
        return e

    def _identity(self, a, b, side, extra):
        """polynomial goal for a == b; True if it normalises to 0 (solver's simplifier decides)."""
        rf = RatForm()
        try:
            n, d = rf.get(a.e - b.e)
        except _HasIte:
            return None
        t0 = time.time()
        p = z3.simplify(n, som=True, som_blowup=1000000, flat=True, hoist_mul=False)
        self._tick('z3-poly-normal-form', t0)
        if z3.is_rational_value(p) and p.numerator_as_long() == 0:
            return True
        return p

    def obligation(self, name, cond, eq=None, le=None, gen=None, ms=None):
        st = self.stats
        st['obligations'] += 1
        self.names[name] = self.names.get(name, 0) + 1
        c = self.ctx
        if cond is True or (isinstance(cond, (bool, np.bool_)) and bool(cond)):
            st['discharged'] += 1
            st['trivial'] += 1
            return
        if name in self.failed_names:
            # already has a failure to report from an earlier path
            return
        neg = z3.BoolVal(True) if (isinstance(cond, (bool, np.bool_))) else z3.Not(tob(cond))
        ms = ms or self.q_ms
        cons_all = c.all_constraints()
        if gen and eq is not None:
            # generalisation: replace subterms by arbitrary values (or by proved equals); sound for proofs
            mp = [(lift(k).e, lift(v).e) for k, v in gen if not lift(k).const]
            a2, b2 = R(replace_terms(eq[0].e, mp)), R(replace_terms(eq[1].e, mp))
            if self._identity(a2, b2, None, None) is True:
                st['discharged'] += 1
                return
        if eq is not None:
            ra, rb = R(self.resolve_ites(eq[0].e)), R(self.resolve_ites(eq[1].e))
            eq = (ra, rb)
            neg = ra.e != rb.e
        if self._discharge(cond, neg, eq, cons_all, ms):
            st['discharged'] += 1
            return
        if self.drawn is None and self._path_dead():
            st['discharged'] += 1
            return
        self.fail(name, 'check', neg, eq=eq, le=le, cons=cons_all)

    def _path_dead(self):
        """the path exists only because the quick feasibility query gave no answer"""
        c = self.ctx
        if not c.pc:
            return False
        key = (c.paths, len(c.pc), len(c.side), c.pc[-1].get_id())
        if self.dead.get('key') != key:
            cons = c.pc + c.side
            self.dead = dict(key=key, dead=any(self._solve(cons, 6000, who)[0] == 'unsat' for who in ('z3', 'nlsat')))
        return self.dead['dead']

    def _cone(self, neg, cons):
        vs = term_vars(neg)
        todo = list(cons)
        keep = []
        changed = True
        cache = [(c, term_vars(c)) for c in todo]
        while changed:
            changed = False
            rest = []
            for c, v in cache:
                if v & vs:
                    keep.append(c)
                    if not v <= vs:
                        vs |= v
                    changed = True
                else:
                    rest.append((c, v))
            cache = rest
        return keep

    def _discharge(self, cond, neg, eq, cons, ms):
        self.last_sat = None
        self.drawn = None
        if eq is not None:
            r = self._identity(eq[0], eq[1], self.ctx.side, None)
            if r is True:
                return True
            if r is not None:
                poly = r
                # sound: den != 0 is in the side conditions
                neg2 = poly != 0
                if self._drawn(eq):
                    return False
                rr, _ = self._solve(cons + [neg2], min(ms, 4000), 'z3')
                if rr == 'unsat':
                    return True
                if rr == 'sat':
                    self.last_sat = True
                    return False
        tight = self._cone(neg, cons)
        gv = term_vars(neg)
        own = [x for x in tight if term_vars(x) <= gv]
        if self.h.linear and is_linear(neg):
            if self._solve([x for x in own if is_linear(x)] + [neg], min(ms, 5000), 'z3')[0] == 'unsat':
                return True
        if len(own) < len(tight):
            # a weaker hypothesis first: only what speaks about the goal's own variables
            if self._solve(own + [neg], min(ms, 1500), 'z3')[0] == 'unsat':
                return True
        for who, t in (('z3', min(ms, 3000)), ('nlsat', ms), ('z3', ms), ('cvc5', ms)):
            if self.deadline and time.time() > self.deadline:
                break
            if t == ms and who == 'nlsat' and eq is None and self._drawn(neg=neg):
                return False
            r, _ = self._solve(tight + [neg], t, who)
            if r == 'unsat':
                return True
            if r == 'sat':
                self.last_sat = True
                return False
        return False

    def _drawn(self, eq=None, neg=None):
        """a violating input among a few drawn at random spares the solvers the search for one"""
        if eq is not None:
            d = eq[0] - eq[1]
            neg = z3.Or(d.e > z3.RealVal('1/1000'), d.e < -z3.RealVal('1/1000'))
        self.drawn = self.draw([neg], 8)
        return self.drawn is not None

    def input_names(self):
        return [n for n in self.ctx.inputs if not n.startswith('#')]

    def model_inputs(self, m):
        out = {}
        for n, x in self.ctx.inputs.items():
            if n.startswith('#'):
                out[n] = int(x)
                continue
            v = m.eval(x.e, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(30)
            try:
                out[n] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            except Exception:
                out[n] = 0.0
        return out

    def fail(self, name, kind, neg, eq=None, le=None, cons=None, exc=''):
        """Collect candidate counterexamples for the failing obligation."""
        was_sat = self.last_sat if kind == 'check' else True
        models = []
        c = self.ctx
        box = [z3.And(c.inputs[n].e >= core.rv(core.frac(self.boxes[n][0])), c.inputs[n].e <= core.rv(core.frac(self.boxes[n][1])))
               for n in self.input_names()]
        goals = []
        if eq is not None:
            dif = (eq[0] - eq[1])
            for mg in ('1', '1/10', '1/1000', '1/100000'):
                goals.append(z3.Or(dif.e > z3.RealVal(mg), dif.e < -z3.RealVal(mg)))
        elif le is not None:
            dif = (le[0] - le[1])
            for mg in ('1', '1/10', '1/1000', '1/100000'):
                goals.append(dif.e > z3.RealVal(mg))
        goals.append(neg)
        if self.drawn is not None and kind == 'check':
            models.append(self.drawn)
            was_sat = True
            goals = []
        t_end = time.time() + self.find_ms / 1000.0 * 4
        for g in goals[:1] + ([neg] if goals else []):
            inp = self.draw([g], 60)
            if inp is not None:
                models.append(inp)
        for g in goals:
            for cc in (cons + box, cons):
                if time.time() > t_end or len(models) >= 4:
                    break
                got = False
                for who in ('z3', 'nlsat'):
                    r, m = self._solve(cc + [g], min(self.find_ms, 5000), who, want_model=True)
                    if r == 'sat':
                        was_sat = True
                        models.append(self.model_inputs(m))
                        got = True
                        break
                    if r == 'unsat':
                        break
                if got:
                    break
        # pin inputs to sampled values of the box and let the solver complete the assignment
        rng = random.Random(self.seed)
        names = self.input_names()
        tries = 0
        while goals and len(models) < 8 and tries < 12 and time.time() < t_end:
            tries += 1
            pins = []
            for n in names:
                if rng.random() < (0.95 if tries < 8 else 0.6):
                    lo, hi = self.boxes[n]
                    pins.append(c.inputs[n].e == core.rv(core.frac(round(rng.uniform(lo, hi), 3))))
            r, m = self._solve(cons + pins + [neg], 1500, 'z3', want_model=True)
            if r == 'sat':
                was_sat = True
                models.append(self.model_inputs(m))
        self.failures.append(dict(name=name, kind=kind, sat=bool(was_sat), models=models, exc=exc,
                                  choices={k: v for k, v in c.inputs.items() if k.startswith('#')}))
        self.failed_names.add(name)

    def sample_path(self):
        c = self.ctx
        inp = self.draw([], 40)
        if inp is not None:
            self._keep_sample(inp)
            return True
        c.solver.set('timeout', 3000)
        for extra in (True, False):
            c.solver.push()
            if extra:
                for n in self.input_names():
                    lo, hi = self.boxes[n]
                    c.solver.add(c.inputs[n].e >= core.rv(core.frac(lo)), c.inputs[n].e <= core.rv(core.frac(hi)))
            t0 = time.time()
            r = c.solver.check()
            self._tick('z3-witness', t0)
            m = c.solver.model() if r == z3.sat else None
            c.solver.pop()
            if m is not None:
                self._keep_sample(self.model_inputs(m))
                return True
        return False

    def _keep_sample(self, inp):
        ev = Evaluator(inp, self.ctx.fresh_eval)
        vals = {}
        for n, v in self.obs.items():
            try:
                vals[n] = float(ev(v))
            except Exception:
                vals[n] = None
        self.samples.append(dict(inputs=inp, obs=vals))

    def draw(self, extra, n):
        """inputs of the box that satisfy this path's conditions (evaluated, no solver)"""
        c = self.ctx
        cons = c.pc + c.side + list(extra)
        for _ in range(n):
            inp = {k: int(x) for k, x in c.inputs.items() if k.startswith('#')}
            for k in self.input_names():
                lo, hi = self.boxes[k]
                inp[k] = round(self.rng.uniform(lo, hi), 4)
                if not lo <= inp[k] <= hi:
                    inp[k] = lo
            try:
                ev = Evaluator(inp, c.fresh_eval)
                if all(ev.term(t) for t in cons):
                    return inp
            except Exception:
                continue
        return None

    def execute(self):
        h = self.h
        c = self.ctx
        V = SymV(self)
        okpaths = 0
        raised = {}

        def body():
            self.obs = {}
            h.fn(V, **h.params)

        def fn():
            try:
                body()
                return None
            except core.Unsupported:
                raise
            except Exception as e:
                return e
        tracer = _Tracer(self.functions)
        try:
            gen = c.explore(fn)
            while True:
                if self.paths_done() == 0:
                    sys.setprofile(tracer)
                try:
                    status, val = next(gen)
                except StopIteration:
                    break
                finally:
                    sys.setprofile(None)
                if status != 'ok':
                    continue
                if isinstance(val, Exception):
                    key = type(val).__name__
                    if not from_code(val):
                        self.inconclusive.append('harness error: ' + ''.join(traceback.format_exception(val, limit=-3)))
                        break
                    if h.exc == 'ignore':
                        continue
                    if ('exc:' + key) in self.failed_names:
                        continue
                    r = c.feasible_now()
                    if r == z3.unsat or (r == z3.unknown and self._path_dead()):
                        continue
                    self.last_sat = True
                    tb = ''.join(traceback.format_exception(val, limit=-3))
                    self.fail('exc:' + key, 'exception', z3.BoolVal(True), cons=c.all_constraints(), exc=tb)
                    continue
                for t, cons in c.pending_div:
                    self.stats['obligations'] += 1
                    self.names['no-division-by-zero'] = self.names.get('no-division-by-zero', 0) + 1
                    if 'no-division-by-zero' in self.failed_names:
                        continue
                    if self._discharge(None, z3.Not(t), None, cons, self.q_ms):
                        self.stats['discharged'] += 1
                    else:
                        self.fail('no-division-by-zero', 'check', z3.Not(t), cons=cons)
                okpaths += 1
                if sum(1 for f in self.failures if f['models']) >= 4:
                    self.inconclusive.append('stopped after several failures')
                    break
                if len(self.samples) < h.sample:
                    self.sample_path()
                if self.deadline and time.time() > self.deadline:
                    self.inconclusive.append('time budget of harness exhausted after %d paths' % c.paths)
                    break
        except core.Unsupported as e:
            self.inconclusive.append('Unsupported: %s @ %s' % (e, traceback.format_exc(limit=-3)))
        return dict(harness=h.name, paths=c.paths, okpaths=okpaths, aborted=c.aborted, decisions=c.decisions,
                    feas_queries=c.feas_queries, feas_s=c.solver_s, unknown_feas=c.unknown_feas, stats=self.stats,
                    failures=self.failures, inconclusive=self.inconclusive, samples=self.samples,
                    names=self.names, functions=sorted(self.functions), bounds=h.bounds)

    def paths_done(self):
        return 0 if self.ctx.paths <= 1 else self.ctx.paths


class _Tracer:
    def __init__(self, out):
        self.out = out

    def __call__(self, frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if 'pipedream_solver' in fn:
                self.out.add('%s:%s' % (os.path.basename(fn), frame.f_code.co_name))
