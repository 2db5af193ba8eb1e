"""Models of the library calls the repository makes (numpy, builtins, itertools, tqdm, ...).

Anything not modelled here either runs natively on object arrays (values overload the Python
operators; a branch on a symbolic value forks the run) or is reported as Unsupported.
"""
from fractions import Fraction
import itertools, math, copy as _copy
import numpy as np
from .terms import *
from .ctx import *
from .ctx import _b, _strip
from .ctx import _b
from . import interp as IN


class Shim:
    def __init__(self, name, ns, native=None):
        self.name, self.ns, self.native = name, ns, native

    def get(self, a):
        if a in self.ns:
            return self.ns[a]
        if self.native is not None and hasattr(self.native, a):
            return getattr(self.native, a)
        return IN.Opaque(self.name + '.' + a)


class Lazy:
    def __init__(self, f):
        self.f = f

    def __call__(self, I):
        return self.f(I)


# ------------------------------------------------------------------ array helpers
def asobj(x):
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else arr(x)
    return x


def elementwise(f, a, b=None, k=None):
    if b is None:
        a = asobj(a)
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            out[ix] = f(a[ix])
    else:
        if isinstance(a, (list, tuple)):
            a = arr(a)
        if isinstance(b, (list, tuple)):
            b = arr(b)
        A = a if isinstance(a, np.ndarray) else wrap0(a)
        Bx = b if isinstance(b, np.ndarray) else wrap0(b)
        A, Bx = asobj(A), asobj(Bx)
        try:
            A2, B2 = np.broadcast_arrays(A, Bx)
        except ValueError as e:
            raise IN.PyExc(e, CTX[0].where)
        out = np.empty(A2.shape, dtype=object)
        for ix in np.ndindex(*A2.shape):
            out[ix] = f(A2[ix], B2[ix])
    out = out.view(SArr)
    out.k = k or guess_kind(out)
    return out


def wrap0(x):
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def arr_binop(I, op, a, b):
    ka, kb = getattr(a, 'k', None), getattr(b, 'k', None)
    if isinstance(a, (list, tuple)):
        a = arr(a)
    if isinstance(b, (list, tuple)):
        b = arr(b)

    if op in '*+' and getattr(a, 'k', kind_of(a)) == 'b' and getattr(b, 'k', kind_of(b)) == 'b':
        op = '&' if op == '*' else '|'

    def f(x, y):
        if isinstance(x, np.generic):
            x = pynum(x.item())
        if isinstance(y, np.generic):
            y = pynum(y.item())
        if op in ('&', '|', '^'):
            return I.binop(op, x, y, None, None, _DUM)
        return I.binop(op, x, y, None, None, _DUM)
    kk = None
    if op in ('+', '-', '*', '//', '%', '**'):
        ks = {getattr(a, 'k', kind_of(a)), getattr(b, 'k', kind_of(b))}
        kk = 'f' if 'f' in ks else None
    if op == '@':
        return NPX['matmul'](a, b)
    r = elementwise(f, a, b)
    if kk == 'f' and r.k == 'i':
        r = castarr(r, 'f')
    if op == '/' and r.k == 'i':
        r = castarr(r, 'f')
    if r.ndim == 0:
        return r[()]
    return r


class _Dum:
    pyx = True
    ct = {}


_DUM = _Dum()


def arr_cmp(I, op, a, b):
    if a is None or b is None:
        return op == '!='
    r = elementwise(lambda x, y: I.scmp(op, x, y), a, b, k='b')
    if r.ndim == 0:
        return r[()]
    return r


def allb(I, a):
    if isinstance(a, np.ndarray):
        return _b(band(*[tob(truth(x)) for x in a.reshape(-1)]))
    return _b(truth(a))


def red(a, f, axis=None, init=None, keepdims=False):
    a = asobj(a) if isinstance(a, np.ndarray) else arr(a)
    if axis is None:
        xs = list(a.reshape(-1))
        return f(xs)
    if isinstance(axis, tuple):
        if len(axis) > 1:
            a = np.moveaxis(a, axis, range(len(axis)))
            a = a.reshape((-1,) + a.shape[len(axis):])
            axis = 0
        else:
            axis = axis[0]
    a2 = np.moveaxis(a, axis, 0)
    out = np.empty(a2.shape[1:], dtype=object)
    for ix in np.ndindex(*a2.shape[1:]):
        out[ix] = f([a2[(i,) + ix] for i in range(a2.shape[0])])
    out = out.view(SArr)
    out.k = guess_kind(out) if out.size else getattr(a, 'k', 'f')
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.ndim == 0:
        return out[()]
    return out


def _num(x):
    if isinstance(x, (B, bool)):
        return b2u(tob(x))
    return x


def f_sum(xs):
    r = 0
    for x in xs:
        if isinstance(x, np.generic):
            x = pynum(x.item())
        r = arith('+', r, _num(x))
    return r


def f_prod(xs):
    if all(isinstance(x, (B, bool)) for x in xs):
        return b2u(band(*[tob(x) for x in xs]))
    r = 1
    for x in xs:
        r = arith('*', r, _num(x))
    return r


def f_mean(xs):
    if not xs:
        CTX[0].event('nan_mean')
        return NAN
    return arith('/', cast(f_sum(xs), 'f'), len(xs))


def f_max(xs):
    if not xs:
        raise IN.PyExc(ValueError('zero-size array to reduction operation maximum which has no identity'), CTX[0].where)
    if any(isinstance(x, float) and x != x for x in xs):
        return NAN
    r = xs[0]
    for x in xs[1:]:
        r = smax(r, x)
    return r


def f_min(xs):
    if not xs:
        raise IN.PyExc(ValueError('zero-size array to reduction operation minimum which has no identity'), CTX[0].where)
    if any(isinstance(x, float) and x != x for x in xs):
        return NAN
    r = xs[0]
    for x in xs[1:]:
        r = smin(r, x)
    return r


def f_argmax(xs, lt='<'):
    if not xs:
        raise IN.PyExc(ValueError('attempt to get argmax of an empty sequence'), CTX[0].where)
    for i, x in enumerate(xs):
        if isinstance(x, float) and x != x:
            return i
    best, bi = xs[0], 0
    for i, x in enumerate(xs[1:], 1):
        c = tob(cmp(lt, best, x))
        best = ite(c, x, best)
        bi = ite(c, i, bi)
    return bi


def f_argsort(xs):
    """stable ascending order; forks on symbolic comparisons"""
    idx = list(range(len(xs)))
    out = []
    for i in idx:           # insertion sort, stable
        j = len(out)
        while j > 0 and CTX[0].decide(tob(cmp('<', xs[i], xs[out[j - 1]]))):
            j -= 1
        out.insert(j, i)
    return out


def mk_kind(dt):
    if dt is None:
        return None
    if dt in ('f', 'i', 'b', 'o'):
        return dt
    if isinstance(dt, DT):
        return dt.k
    if dt is float or dt is Fraction:
        return 'f'
    if dt is int:
        return 'i'
    if dt is bool:
        return 'b'
    if dt is object:
        return 'o'
    if isinstance(dt, str):
        return 'f' if 'float' in dt or dt == 'double' else 'i' if 'int' in dt else 'b' if 'bool' in dt else 'o'
    if isinstance(dt, np.dtype):
        return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(dt.kind, 'o')
    if dt is PYFLOAT:
        return 'f'
    if dt is PYINT:
        return 'i'
    if isinstance(dt, (ShimFn,)):
        return dt.k
    return 'o'


class DT:
    """a numpy scalar type / dtype"""
    def __init__(self, name, k, c=None):
        self.name, self.k, self.c = name, k, c
        self.__name__ = name
        self.type = self

    def __call__(self, v=0):
        return cast(v, self.k) if self.k in 'fib' else v

    def __eq__(self, o):
        if isinstance(o, DT):
            return self.k == o.k and self.name == o.name
        if isinstance(o, str):
            return self.name == o
        return mk_kind(o) == self.k

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class ShimFn:
    def __init__(self, f, k=None, pytype=None):
        self.f, self.k, self.pytype = f, k, pytype
        self.__name__ = getattr(f, '__name__', '?')

    def __call__(self, *a, **kw):
        if any(isinstance(x, U) for x in a):
            a = [merge_arrays(x) if isinstance(x, U) else x for x in a]
        return self.f(*a, **kw)


PYFLOAT = None
PYINT = None


def shape_of(s):
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    if isinstance(s, U):
        return (int(CTX[0].concretize(s)),)
    if isinstance(s, Fraction):
        raise IN.PyExc(TypeError("'float' object cannot be interpreted as an integer"), CTX[0].where)
    out = []
    for x in s:
        if isinstance(x, U):
            x = CTX[0].concretize(x)
        if isinstance(x, Fraction):
            raise IN.PyExc(TypeError("'float' object cannot be interpreted as an integer"), CTX[0].where)
        out.append(int(x))
    return tuple(out)


def _filled(val):
    def f(shape, dtype=None, order=None):
        k = mk_kind(dtype) or 'f'
        a = mkarr(shape_of(shape), cast(val, k) if k != 'o' else val, k)
        a.cdt = _cdt(dtype)
        return a
    return f


def _cdt(dtype):
    if isinstance(dtype, DT):
        return dtype.c
    return None


def make(I):
    c = I.c

    def np_array(x, dtype=None, copy=True, ndmin=0, order=None):
        k = mk_kind(dtype)
        if isinstance(x, (IN.CVec, IN.VRef)):
            x = I.topy(x)
        if isinstance(x, (set,)) or isinstance(x, (IN.CSet,)):
            raise Unsupported('array of set')
        if isinstance(x, U):
            x = merge_arrays(c.simp(x))
            if isinstance(x, U) and any(isinstance(v, np.ndarray) for v, g in x.alts):
                x = c.concretize(x)
        if isinstance(x, np.ndarray):
            a = asobj(x).copy()
            a.k = getattr(x, 'k', 'o')
            a = a.view(SArr)
            if k and k != a.k:
                a = castarr(a, k)
        elif isinstance(x, (list, tuple)):
            x = _deep(I, x)
            if _ragged(x):
                o = np.empty((len(x),), dtype=object)
                for i, q in enumerate(x):
                    o[i] = q
                a = o.view(SArr)
                a.k = 'o'
            else:
                a = np.array(x, dtype=object).view(SArr)
                a.k = guess_kind(a)
                if len(a.reshape(-1)) and any(isinstance(q, (int,)) and not isinstance(q, bool) for q in a.reshape(-1)) and a.k == 'f':
                    a = castarr(a, 'f')
            if k and k != 'o' and k != a.k:
                a = castarr(a, k)
        elif isinstance(x, (int, Fraction, float, R, U, B, bool)):
            a = wrap0(cast(x, k) if k and k != 'o' else x).view(SArr)
            a.k = k or kind_of(x)
        elif x is None:
            a = wrap0(None).view(SArr)
            a.k = 'o'
        else:
            raise Unsupported('np.array of %s' % type(x).__name__)
        a.cdt = _cdt(dtype)
        return a

    def np_asarray(x, dtype=None, order=None):
        if isinstance(x, np.ndarray) and (dtype is None or mk_kind(dtype) == getattr(x, 'k', None)):
            if dtype is not None and _cdt(dtype) != x.cdt:
                y = x.view(SArr)
                y.k = x.k
                y.cdt = _cdt(dtype)
                return y
            return x
        return np_array(x, dtype)

    def lift(f):
        def g(a, axis=None, out=None, keepdims=False, dtype=None, **kw):
            return red(np_asarray(a), f, axis, keepdims=keepdims)
        return g

    def np_where(cond, x=None, y=None):
        if x is None:
            a = np_asarray(cond)
            m = np.array([c.decide(truth(v)) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)
            return tuple(arr(q, 'i') for q in np.where(m))
        t = elementwise(lambda p, q: (p, q), np_asarray(cond), x, k='o')
        t2 = np.empty(np.broadcast(asobj(np_asarray(cond)), asobj(np_asarray(x)), asobj(np_asarray(y))).shape, dtype=object)
        C0, X0, Y0 = np.broadcast_arrays(asobj(np_asarray(cond)), asobj(np_asarray(x)), asobj(np_asarray(y)))
        for ix in np.ndindex(*t2.shape):
            t2[ix] = ite(tob(truth(C0[ix])), X0[ix], Y0[ix])
        t2 = t2.view(SArr)
        t2.k = guess_kind(t2)
        return t2

    def np_argwhere(a):
        a = np_asarray(a)
        m = np.array([c.decide(truth(v)) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)
        return arr(np.argwhere(m), 'i')

    def np_unique(a, axis=None, return_counts=False, return_index=False, return_inverse=False):
        a = np_asarray(a)
        if axis is None:
            xs = list(a.reshape(-1))
            order = f_argsort(xs)
        else:
            if axis != 0:
                raise Unsupported('unique axis')
            rows = [list(a[i].reshape(-1)) for i in range(a.shape[0])]

            def lt(r, s):
                for p, q in zip(r, s):
                    if c.decide(tob(cmp('<', p, q))):
                        return True
                    if c.decide(tob(cmp('>', p, q))):
                        return False
                return False
            order = []
            for i in range(len(rows)):
                j = len(order)
                while j > 0 and lt(rows[i], rows[order[j - 1]]):
                    j -= 1
                order.insert(j, i)
            xs = rows
        first, counts, inv = [], [], [0] * len(xs)
        for i in order:
            if first:
                p, q = xs[i], xs[first[-1]]
                same = c.decide(band(*[tob(cmp('==', u, v)) for u, v in zip(p, q)])) if axis is not None else c.decide(tob(cmp('==', p, q)))
                if same:
                    counts[-1] += 1
                    inv[i] = len(first) - 1
                    continue
            first.append(i)
            counts.append(1)
            inv[i] = len(first) - 1
        if axis is None:
            out = [xs[i] for i in first]
            r = np_array(out) if out else mkarr((0,), 0, a.k)
            r.k = a.k
        else:
            r = a[np.array(first, dtype=int)] if first else a[:0]
        rs = [r]
        if return_index:
            rs.append(np_array(first))
        if return_inverse:
            rs.append(np_array(inv))
        if return_counts:
            rs.append(np_array(counts))
        return rs[0] if len(rs) == 1 else tuple(rs)

    def np_argsort(a, axis=-1, kind=None):
        a = np_asarray(a)
        if a.ndim != 1:
            return np_array([list(np_argsort(x)) for x in a])
        r = np_array(f_argsort(list(a)), dtype='int')
        return r

    def np_sort(a, axis=-1):
        a = np_asarray(a)
        return a[np.array([int(i) for i in f_argsort(list(a))], dtype=int)]

    def np_concatenate(xs, axis=0):
        xs = [np_asarray(x) for x in I.iterate(xs)]
        try:
            r = np.concatenate([asobj(x) for x in xs], axis=axis).view(SArr)
        except ValueError as e:
            raise IN.PyExc(e, c.where)
        ks = [x.k for x in xs if x.size] or [x.k for x in xs]
        r.k = 'f' if 'f' in ks else ks[0]
        return r

    def np_isnan(x, dtype=None):
        def f(v):
            if isinstance(v, float):
                return v != v
            if isinstance(v, U):
                return _b(bor(*[g for w, g in v.alts if isinstance(w, float) and w != w]))
            return False
        if isinstance(x, (np.ndarray, list)):
            return elementwise(f, np_asarray(x), k='b')
        return f(x)

    def np_abs(x):
        if isinstance(x, (np.ndarray, list)):
            return elementwise(sabs, np_asarray(x))
        return sabs(x)

    def np_expand_dims(a, axis=0):
        a = np_asarray(a)
        r = np.expand_dims(a, axis)
        r.k = a.k
        return r

    def np_matmul(a, b):
        a, b = np_asarray(a), np_asarray(b)
        if a.ndim == 1 and b.ndim == 1:
            return f_sum([arith('*', x, y) for x, y in zip(a, b)])
        A = a if a.ndim == 2 else a.reshape(1, -1)
        Bm = b if b.ndim == 2 else b.reshape(-1, 1)
        out = np.empty((A.shape[0], Bm.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(Bm.shape[1]):
                out[i, j] = f_sum([arith('*', A[i, k], Bm[k, j]) for k in range(A.shape[1])])
        out = out.view(SArr)
        out.k = 'f'
        if a.ndim == 1:
            return out.reshape(-1)
        if b.ndim == 1:
            return out.reshape(-1)
        return out
    NPX['matmul'] = np_matmul

    def np_cumsum(a, axis=None):
        a = np_asarray(a)
        out, s = [], 0
        for x in a.reshape(-1):
            s = arith('+', s, _num(x))
            out.append(s)
        return np_array(out)

    def np_searchsorted(a, v, side='left'):
        a = np_asarray(a)

        def f(x):
            op = '<' if side == 'left' else '<='
            return ssum([b2u(tob(cmp(op, y, x))) for y in a])
        if isinstance(v, (np.ndarray, list)):
            return elementwise(f, np_asarray(v), k='i')
        return f(v)

    def np_squeeze(a, axis=None):
        a = np_asarray(a)
        r = np.squeeze(a, axis)
        if isinstance(r, np.ndarray):
            r = r.view(SArr)
            r.k = a.k
        return r

    def np_delete(a, i, axis=None):
        a = np_asarray(a)
        idx = I.iterate(i) if not isinstance(i, int) else i
        if isinstance(idx, list):
            idx = [int(c.concretize(q)) if isinstance(q, U) else int(q) for q in idx]
        r = np.delete(a, idx, axis).view(SArr)
        r.k = a.k
        return r

    def np_exp(x):
        """some number with the sign information of exp"""
        if isinstance(x, (int, Fraction, float)):
            return dec(math.exp(x))
        if isinstance(x, U):
            return mkU([(np_exp(v), g) for v, g in x.alts])
        c.nrand += 1
        e = R.var('exp!%d' % c.nrand)
        c.assumptions.append(band(tob(cmp('>', e, 0)), bor(bnot(tob(cmp('>=', x, 0))), tob(cmp('>=', e, 1))), bor(bnot(tob(cmp('<=', x, 0))), tob(cmp('<=', e, 1)))))
        return e

    def np_log(x):
        if not isinstance(x, (int, Fraction, float)):
            raise Unsupported('np.log of a symbolic value')
        if x == 1:
            return Fraction(1, 10 ** 12)       # log(1) = 0 in a denominator: the limit, without the infinity
        return dec(math.log(x))

    def rnd_rand(*shape):
        if shape:
            raise Unsupported('rand with a shape')
        c.nrand += 1
        return c.run.choice('rand!%d' % c.nrand, [Fraction(0), Fraction(999999, 1000000)])

    def rnd_int(low, high=None, size=None, dtype=None):
        lo, hi = (0, low) if high is None else (low, high)
        lo, hi = (int(c.concretize(v)) if isinstance(v, U) else int(v) for v in (lo, hi))
        if hi <= lo:
            raise IN.PyExc(ValueError('low >= high'), c.where)

        def one():
            c.nrand += 1
            return c.run.choice('randint!%d' % c.nrand, list(range(lo, hi)))
        if size is None:
            return one()
        sh = shape_of(size)
        a = mkarr(sh, 0, 'i')
        for ix in np.ndindex(*sh):
            a[ix] = one()
        return a

    def np_sqrt(x):
        if isinstance(x, np.ndarray):
            return elementwise(lambda v: c.sqrt(v), x, k='f')
        return c.sqrt(x)

    def np_round(x, decimals=0, **kw):
        def one(v):
            if isinstance(v, R):
                v = CTX[0].simp(v)
            if isinstance(v, U):
                return mkU([(one(a), g) for a, g in v.alts])
            if isinstance(v, (int, float)) and not isinstance(v, Fraction):
                return v
            if isinstance(v, Fraction):
                return dec(float(round(v, decimals)))
            raise Unsupported('np.round of a symbolic value')
        if isinstance(x, (list, np.ndarray)):
            a = toarr(x) if not isinstance(x, np.ndarray) else x
            r = a.copy()
            for ix in np.ndindex(*a.shape):
                r[ix] = one(a[ix])
            return r
        return one(x)

    def np_full(shape, v, dtype=None):
        k = mk_kind(dtype) or kind_of(v)
        return mkarr(shape_of(shape), v, k)

    def np_arange(*a, **k):
        return arr(np.arange(*[int(c.concretize(x)) if isinstance(x, U) else x for x in a]), 'i')

    def np_allclose(a, b, **k):
        rt, at = Fraction(str(k.get('rtol', 1e-5))), Fraction(str(k.get('atol', 1e-8)))

        def close(x, y):
            d = smax(arith('-', x, y), arith('-', y, x))
            m = smax(y, arith('-', 0, y))
            return _b(tob(cmp('<=', d, arith('+', at, arith('*', rt, m)))))
        return allb(I, elementwise(close, np_asarray(a), np_asarray(b)))

    def np_tile(a, reps):
        a = np_asarray(a)
        r = np.tile(a, reps).view(SArr)
        r.k = a.k
        return r

    def np_repeat(a, n, axis=None):
        a = np_asarray(a)
        r = np.repeat(a, n, axis).view(SArr)
        r.k = a.k
        return r

    def np_reshape(a, s):
        return np_asarray(a).reshape(s)

    def np_copy(a):
        a = np_asarray(a)
        r = a.copy()
        r.k = a.k
        return r

    def ewf(name, f2):
        def g(a, b, *r, **k):
            if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
                return elementwise(f2, a, b)
            return f2(a, b)
        return g

    def np_all(a, axis=None, **k):
        return red(np_asarray(a), lambda xs: _b(band(*[tob(truth(x)) for x in xs])), axis)

    def np_any(a, axis=None, **k):
        return red(np_asarray(a), lambda xs: _b(bor(*[tob(truth(x)) for x in xs])), axis)

    def np_true_divide(a, b):
        return arr_binop(I, '/', a, b) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else I.binop('/', a, b, None, None, _DUM)

    def np_zeros_like(a, dtype=None):
        a = np_asarray(a)
        k = mk_kind(dtype) or a.k
        return mkarr(a.shape, cast(0, k), k)

    def np_ones_like(a, dtype=None):
        a = np_asarray(a)
        k = mk_kind(dtype) or a.k
        return mkarr(a.shape, cast(1, k), k)

    def f_var(xs):
        m = f_mean(xs)
        return f_mean([arith('*', arith('-', x, m), arith('-', x, m)) for x in xs])

    def np_nonzero(a):
        return np_where(a)

    def np_sum(a, axis=None, **k):
        if isinstance(a, (Fraction, int, R, U, B)):
            return _num(a)
        return red(np_asarray(a), f_sum, axis, keepdims=k.get('keepdims', False))

    def np_intersect(a, b):
        raise Unsupported('np.intersect1d')

    def np_broadcast_to(x, shape):
        shape = tuple(int(v) for v in shape) if isinstance(shape, (tuple, list)) else (int(shape),)
        a = asobj(x if isinstance(x, np.ndarray) else np_asarray(x) if isinstance(x, (list, tuple)) else wrap0(x))
        try:
            r = np.broadcast_to(a, shape).copy()
        except ValueError as e:
            raise IN.PyExc(e, c.where)
        r = r.view(SArr)
        r.k = getattr(a, 'k', None)
        if r.k is None:
            r.k = guess_kind(r)
        return r

    def np_stack(xs, axis=0):
        xs = [np_asarray(x) for x in I.iterate(xs)]
        r = np.stack([asobj(x) for x in xs], axis=axis).view(SArr)
        r.k = xs[0].k
        return r

    def np_array_equal(a, b):
        a, b = np_asarray(a), np_asarray(b)
        if a.shape != b.shape:
            return False
        return allb(I, arr_cmp(I, '==', a, b))

    D = {
        'zeros': _filled(0), 'ones': _filled(1), 'empty': _filled(0), 'full': np_full, 'array': np_array, 'asarray': np_asarray,
        'ascontiguousarray': np_asarray,
        'sum': np_sum, 'prod': lift(f_prod), 'mean': lift(f_mean), 'max': lift(f_max), 'amax': lift(f_max), 'min': lift(f_min),
        'amin': lift(f_min), 'var': lift(f_var), 'argmax': lift(f_argmax), 'argmin': lift(lambda xs: f_argmax(xs, '>')),
        'where': np_where, 'argwhere': np_argwhere, 'unique': np_unique, 'argsort': np_argsort, 'sort': np_sort,
        'concatenate': np_concatenate, 'stack': np_stack, 'broadcast_to': np_broadcast_to, 'vstack': lambda xs: np_concatenate([x if np_asarray(x).ndim > 1 else np_asarray(x).reshape(1, -1) for x in xs]),
        'isnan': np_isnan, 'abs': np_abs, 'absolute': np_abs, 'expand_dims': np_expand_dims,
        'matmul': np_matmul, 'dot': np_matmul, 'cumsum': np_cumsum, 'searchsorted': np_searchsorted, 'squeeze': np_squeeze,
        'delete': np_delete, 'exp': np_exp, 'log': np_log, 'sqrt': np_sqrt, 'round': np_round, 'rint': np_round, 'arange': np_arange, 'allclose': np_allclose,
        'tile': np_tile, 'repeat': np_repeat, 'reshape': np_reshape, 'copy': np_copy, 'maximum': ewf('maximum', smax),
        'minimum': ewf('minimum', smin), 'multiply': ewf('multiply', lambda x, y: arith('*', x, y)), 'all': np_all, 'any': np_any,
        'true_divide': np_true_divide, 'divide': np_true_divide, 'zeros_like': np_zeros_like, 'ones_like': np_ones_like, 'nonzero': np_nonzero,
        'array_equal': np_array_equal, 'intersect1d': np_intersect,
        'logical_and': ewf('and', lambda x, y: _b(band(tob(truth(x)), tob(truth(y))))),
        'logical_or': ewf('or', lambda x, y: _b(bor(tob(truth(x)), tob(truth(y))))),
        'logical_not': lambda x: elementwise(lambda v: _b(bnot(truth(v))), np_asarray(x), k='b') if isinstance(x, (np.ndarray, list)) else _b(bnot(truth(x))),
        'inf': INF, 'Inf': INF, 'nan': NAN, 'newaxis': None, 'pi': dec(math.pi), 'ndarray': np.ndarray,
        'int': DT('int64', 'i', 'long'), 'long': DT('int64', 'i', 'long'), 'int64': DT('int64', 'i', 'long'), 'int32': DT('int32', 'i', 'int'), 'intc': DT('int32', 'i', 'int'),
        'uint32': DT('uint32', 'i', 'uint'), 'float': DT('float64', 'f', 'double'), 'float64': DT('float64', 'f', 'double'), 'double': DT('float64', 'f', 'double'),
        'float32': DT('float32', 'f', 'float'), 'bool': DT('bool', 'b'), 'bool_': DT('bool', 'b'), 'object': DT('object', 'o'), 'object_': DT('object', 'o'),
        'shape': lambda a: np_asarray(a).shape, 'ndim': lambda a: np_asarray(a).ndim, 'size': lambda a: np_asarray(a).size,
        'float16': DT('float16', 'f', 'half'), 'issubdtype': lambda a, b: mk_kind(a) == mk_kind(b), 'floating': DT('floating', 'f'), 'integer': DT('integer', 'i'),
    }
    def _unsup(what):
        raise Unsupported(what)

    def count_nonzero(a, axis=None, **k):
        return red(np_asarray(a), lambda xs: f_sum([ite(tob(truth(x)), 1, 0) for x in xs]), axis, keepdims=k.get('keepdims', False))

    def np_full_like(a, v, dtype=None, **k):
        a = np_asarray(a)
        kk = mk_kind(dtype) or a.k
        return mkarr(a.shape, cast(v, kk), kk)

    def ewb(name, op):
        def g(a, b, *r, **k):
            if r or k:
                raise Unsupported('np.%s with out/where' % name)
            a, b = [np_asarray(x) if isinstance(x, (list, tuple)) else x for x in (a, b)]
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                return arr_cmp(I, op, a, b) if op in ('<', '<=', '>', '>=', '==', '!=') else arr_binop(I, op, a, b)
            return _b(tob(cmp(op, a, b))) if op in ('<', '<=', '>', '>=', '==', '!=') else I.binop(op, a, b, None, None, _DUM)
        return g

    def np_vstack(xs, **k):
        return np_concatenate([x if np_asarray(x).ndim > 1 else np_asarray(x).reshape(1, -1) for x in I.iterate(xs)])

    def np_hstack(xs, **k):
        xs = [np_atleast(1)(x) for x in I.iterate(xs)]
        return np_concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)

    def np_column_stack(xs):
        xs = [np_asarray(x) for x in I.iterate(xs)]
        return np_concatenate([x if x.ndim > 1 else x.reshape(-1, 1) for x in xs], axis=1)

    def np_atleast(n):
        def g(x):
            a = x if isinstance(x, np.ndarray) else np_asarray(x) if isinstance(x, (list, tuple)) else scal1(x)
            if a.ndim < n:
                k = a.k
                a = a.reshape((1,) * (n - a.ndim) + tuple(a.shape))
                a.k = k
            return a
        return g

    def np_isin(a, b, **k):
        if k.get('invert'):
            return elementwise(lambda v: _b(bnot(truth(v))), np_isin(a, b), k='b')
        vs = list(np_asarray(b).reshape(-1))

        def one(x):
            return _b(bor(*[tob(cmp('==', x, v)) for v in vs]))
        if isinstance(a, (np.ndarray, list, tuple)):
            return elementwise(one, np_asarray(a), k='b')
        return one(a)

    def np_clip(a, lo, hi, **k):
        def one(x):
            if lo is not None:
                x = smax(x, lo)
            return x if hi is None else smin(x, hi)
        if isinstance(lo, (np.ndarray, list)) or isinstance(hi, (np.ndarray, list)) or k:
            raise Unsupported('np.clip with arrays')
        if isinstance(a, (np.ndarray, list, tuple)):
            return elementwise(one, np_asarray(a))
        return one(a)

    def np_average(a, axis=None, weights=None, **k):
        if weights is None:
            return D['mean'](a, axis=axis)
        a, w = np_asarray(a), np_asarray(weights)
        if w.shape != a.shape and a.ndim == 2 and w.ndim == 1 and axis in (0, 1):
            w = w.reshape(-1, 1) if axis == 0 else w.reshape(1, -1)
        w = D['broadcast_to'](w, a.shape)
        num, den = np_sum(arr_binop(I, '*', a, w), axis=axis), np_sum(w, axis=axis)
        return np_true_divide(num, den)

    def np_flatnonzero(a):
        return np_where(np_asarray(a).reshape(-1))[0]

    def np_take(a, ind, axis=None, **k):
        a = np_asarray(a)
        if axis is None:
            a, axis = np_asarray(a.reshape(-1)), 0
        if k:
            raise Unsupported('np.take with a mode')
        axis = axis % a.ndim
        if isinstance(ind, (list, tuple)):
            ind = np_asarray(ind)
        return I.getitem(a, (slice(None),) * axis + (ind,) if axis else ind)

    def np_append(a, v, axis=None):
        if axis is None:
            v = v if isinstance(v, (np.ndarray, list, tuple)) else [v]
            return np_concatenate([np_asarray(a).reshape(-1), np_asarray(v).reshape(-1)])
        return np_concatenate([np_asarray(a), np_asarray(v)], axis=axis)

    def np_flip(a, axis=None):
        a = np_asarray(a)
        r = np.flip(a, axis).view(SArr)
        r.k = a.k
        return r

    def np_ravel(a, *x):
        a = np_asarray(a)
        r = a.reshape(-1)
        r.k = a.k
        return r

    def np_transpose(a, *x):
        return arr_attr(I, np_asarray(a), 'transpose')(*x)

    def np_eye(n, *x, **k):
        a = mkarr((int(n), int(n)), cast(0, 'f'), 'f')
        for i in range(int(n)):
            a[i, i] = cast(1, 'f')
        if x or k:
            raise Unsupported('np.eye with options')
        return a

    def np_sign(a):
        def one(x):
            return ite(tob(cmp('>', x, 0)), 1, ite(tob(cmp('<', x, 0)), -1, 0))
        return elementwise(one, np_asarray(a)) if isinstance(a, (np.ndarray, list)) else one(a)

    def np_isclose(a, b, **k):
        rt, at = Fraction(str(k.get('rtol', 1e-5))), Fraction(str(k.get('atol', 1e-8)))

        def close(x, y):
            d = smax(arith('-', x, y), arith('-', y, x))
            return _b(tob(cmp('<=', d, arith('+', at, arith('*', rt, smax(y, arith('-', 0, y)))))))
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            return elementwise(close, np_asarray(a) if isinstance(a, (list, tuple)) else a, np_asarray(b) if isinstance(b, (list, tuple)) else b)
        return close(a, b)

    D.update({
        'count_nonzero': count_nonzero, 'full_like': np_full_like, 'empty_like': np_zeros_like, 'asanyarray': np_asarray, 'asfortranarray': np_asarray,
        'add': ewb('add', '+'), 'subtract': ewb('subtract', '-'), 'power': ewb('power', '**'), 'square': lambda a: D['multiply'](a, a),
        'less': ewb('less', '<'), 'less_equal': ewb('less_equal', '<='), 'greater': ewb('greater', '>'), 'greater_equal': ewb('greater_equal', '>='),
        'equal': ewb('equal', '=='), 'not_equal': ewb('not_equal', '!='),
        'logical_xor': ewf('xor', lambda x, y: _b(bor(band(tob(truth(x)), bnot(truth(y))), band(bnot(truth(x)), tob(truth(y)))))),
        'vstack': np_vstack, 'row_stack': np_vstack, 'hstack': np_hstack, 'column_stack': np_column_stack, 'atleast_1d': np_atleast(1), 'atleast_2d': np_atleast(2),
        'isin': np_isin, 'clip': np_clip, 'average': np_average, 'flatnonzero': np_flatnonzero, 'take': np_take, 'append': np_append,
        'flip': np_flip, 'ravel': np_ravel, 'transpose': np_transpose, 'eye': np_eye, 'identity': np_eye, 'sign': np_sign, 'isclose': np_isclose,
        'errstate': lambda *a, **k: _Null(), 'seterr': lambda *a, **k: None,
    })

    def np_outer(a, b):
        a, b = np_asarray(a).reshape(-1, 1), np_asarray(b).reshape(1, -1)
        return arr_binop(I, '*', a, b)

    def np_cumprod(a, axis=None):
        a = np_asarray(a)
        if a.ndim != 1:
            raise Unsupported('np.cumprod of a matrix')
        r, out = a.copy(), None
        for i in range(len(a)):
            out = a[i] if out is None else arith('*', out, a[i])
            r[i] = out
        r.k = 'i' if a.k == 'b' else a.k
        return r

    def np_setdiff(a, b, **k):
        a = np_unique(a)
        return I.getitem(a, elementwise(lambda v: _b(bnot(tob(truth(v)))), np_isin(a, b), k='b'))

    def un(f):
        return lambda a: elementwise(f, np_asarray(a)) if isinstance(a, (np.ndarray, list, tuple)) else f(a)

    def np_fromiter(it, dtype=None, count=-1):
        return np_array(I.iterate(it), dtype=dtype)

    def np_along(f, axis, a, *x):
        a = np_asarray(a)
        if a.ndim != 2:
            raise Unsupported('np.apply_along_axis')
        rows = [a[i] if axis % 2 else a[:, i] for i in range(a.shape[0 if axis % 2 else 1])]
        for r in rows:
            r.k = a.k
        vs = [I.call(f, [r] + list(x), {}) for r in rows]
        if any(isinstance(v, np.ndarray) for v in vs):
            raise Unsupported('np.apply_along_axis with array values')
        return np_array(vs)

    def np_vectorize(f, *x, **k):
        def g(*xs):
            if len(xs) == 1:
                return elementwise(lambda v: I.call(f, [v], {}), np_asarray(xs[0]))
            if len(xs) == 2:
                return elementwise(lambda v, w: I.call(f, [v, w], {}), np_asarray(xs[0]), np_asarray(xs[1]))
            raise Unsupported('np.vectorize with %d arguments' % len(xs))
        return g

    def np_ndindex(*s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return list(itertools.product(*[range(int(n)) for n in s]))

    def np_copyto(dst, src, **k):
        if k:
            raise Unsupported('np.copyto with where')
        I.setslice(dst, (Ellipsis,), src, None)
    D.update({
        'outer': np_outer, 'cumprod': np_cumprod, 'setdiff1d': np_setdiff, 'union1d': lambda a, b: np_unique(np_append(a, b)),
        'mod': ewb('mod', '%'), 'remainder': ewb('remainder', '%'), 'floor_divide': ewb('floor_divide', '//'), 'negative': un(lambda v: arith('-', 0, v)),
        'invert': lambda a: D['logical_not'](a) if np_asarray(a).k == 'b' else _unsup('np.invert'), 'bitwise_and': ewb('bitwise_and', '&'), 'bitwise_or': ewb('bitwise_or', '|'),
        'swapaxes': lambda a, i, j: arr_attr(I, np_asarray(a), 'swapaxes')(i, j), 'isscalar': lambda a: not isinstance(a, (np.ndarray, list, tuple, dict, set)),
        'fromiter': np_fromiter, 'apply_along_axis': np_along, 'vectorize': np_vectorize, 'ndindex': np_ndindex, 'copyto': np_copyto,
        'ndenumerate': lambda a: [(ix, np_asarray(a)[ix]) for ix in np.ndindex(*np_asarray(a).shape)],
        'inner': lambda a, b: np_matmul(a, b) if np_asarray(a).ndim == 1 and np_asarray(b).ndim == 1 else _unsup('np.inner'),
        'vdot': lambda a, b: np_matmul(np_ravel(a), np_ravel(b)), 'fmax': D['maximum'], 'fmin': D['minimum'],
        'int_': D['int64'], 'intp': D['int64'],
    })
    for nm, rf in (('add', np_sum), ('multiply', D['prod']), ('maximum', D['max']), ('minimum', D['min']), ('logical_and', np_all), ('logical_or', np_any)):
        D[nm].reduce = (lambda h: lambda a, axis=0, **k: h(a, axis=axis, **k))(rf)
    D['multiply'].outer = np_outer
    D['add'].accumulate = lambda a, axis=0: np_cumsum(a, axis)
    D['add'].at = lambda *a: _unsup('np.add.at')
    NP = Shim('numpy', D, None)
    D['random'] = Shim('numpy.random', {'rand': rnd_rand, 'random': rnd_rand, 'randint': rnd_int, 'seed': lambda *a: None})
    I.np = NP
    ident = ShimFn(lambda x=None, *a, **k: x)

    chain = type('chain', (), {'from_iterable': staticmethod(lambda it: [y for x in I.iterate(it) for y in I.iterate(x)]),
                               '__call__': lambda self, *xs: [y for x in xs for y in I.iterate(x)]})()
    def _accumulate(it, f=None, **k):
        out = []
        for x in I.iterate(it):
            out.append(x if not out else I.call(f, [out[-1], x], {}) if f else I.binop('+', out[-1], x, None, None, _DUM))
        return out

    itns = {
        'combinations': lambda it, r: list(itertools.combinations(I.iterate(it), r)),
        'chain': chain,
        'product': lambda *its, **k: list(itertools.product(*[I.iterate(x) for x in its], **k)),
        'zip_longest': lambda *its, **k: list(itertools.zip_longest(*[I.iterate(x) for x in its], **k)),
        'combinations_with_replacement': lambda it, r: list(itertools.combinations_with_replacement(I.iterate(it), r)),
        'compress': lambda it, sel: [x for x, q in zip(I.iterate(it), I.iterate(sel)) if c.decide(truth(q))],
        'accumulate': lambda it, *f: _accumulate(it, *f),
        'islice': lambda it, *a: list(itertools.islice(I.iterate(it), *[None if q is None else int(q) for q in a])),
        'repeat': lambda x, n: [x] * int(n),
        'starmap': lambda f, it: [I.call(f, list(I.iterate(x)), {}) for x in I.iterate(it)],
        'permutations': lambda it, r=None: list(itertools.permutations(I.iterate(it), r)),
    }

    def logit(p):
        if not isinstance(p, (int, float, Fraction)):
            raise Unsupported('logit of a symbolic value')
        return Fraction(math.log(p / (1 - p)))

    def comb(n, k, exact=False, **kw):
        if isinstance(n, U) or isinstance(k, U):
            A = n.alts if isinstance(n, U) else [(n, T)]
            Bs = k.alts if isinstance(k, U) else [(k, T)]
            return mkU([(comb(x, y), band(g, h)) for x, g in A for y, h in Bs])
        n, k = int(n), int(k)
        v = math.comb(n, k) if 0 <= k <= n else 0
        return v if exact else Fraction(v)

    sh = {
        'numpy': NP, 'np': NP, 'numpy.random': D['random'], 'itertools': Shim('itertools', itns), 'tqdm': Shim('tqdm', {'tqdm': ident, 'tqdm_notebook': ident, 'trange': lambda *a, **k: list(range(*a))}),
        'scipy.special': Shim('scipy.special', {'comb': comb, 'logit': logit, 'special': Shim('scipy.special', {'comb': comb, 'logit': logit})}),
        'scipy': Shim('scipy', {'special': Shim('scipy.special', {'comb': comb, 'logit': logit})}),
        'warnings': Shim('warnings', {'warn': lambda *a, **k: None, 'filterwarnings': lambda *a, **k: None, 'catch_warnings': lambda *a, **k: _Null(), 'simplefilter': lambda *a, **k: None}),
        'copy': Shim('copy', {'deepcopy': lambda x: deepcopy(I, x), 'copy': lambda x: (list(x) if isinstance(x, list) else dict(x) if isinstance(x, dict) else x.copy())}),
        'cext_acv': Shim('cext_acv', {'compute_expectations': cext_compute_expectations, 'dense_tree_predict': cext_dense_tree_predict}),
        'math': Shim('math', {'sqrt': np_sqrt, 'log': np_log, 'exp': np_exp, 'inf': INF, 'factorial': lambda n: math.factorial(int(n)), 'floor': lambda x: math.floor(x), 'ceil': lambda x: math.ceil(x),
                               'prod': lambda it: D['prod'](np_asarray(list(I.iterate(it)))), 'fsum': lambda it: arith('+', b_sum(I)(it), Fraction(0)), 'comb': lambda n, k: comb(n, k, exact=True),
                               'isnan': np_isnan, 'fabs': np_abs, 'pow': lambda a, b: arith('**', arith('+', a, Fraction(0)), b), 'isclose': lambda a, b, **k: _unsup('math.isclose')}),
        'operator': Shim('operator', {**{nm: (lambda op: lambda a, b: I.binop(op, a, b, None, None, _DUM))(op) for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%'), ('and_', '&'), ('or_', '|'))},
                                      'itemgetter': lambda *i: (lambda x: I.getitem(x, i[0]) if len(i) == 1 else tuple(I.getitem(x, j) for j in i))}),
        'collections': Shim('collections', {'Counter': IN.Opaque('Counter')}, __import__('collections')),
        'functools': Shim('functools', {}, __import__('functools')),
        'random': Shim('random', {}),
        'time': Shim('time', {'time': lambda: 0}),
        'abc': Shim('abc', {'abstractmethod': lambda f: f, 'ABCMeta': type}),
        'multiprocess': Shim('multiprocess', {'Pool': IN.Opaque('Pool')}),
        'sys': Shim('sys', {'modules': {}, 'maxsize': __import__('sys').maxsize}),
        'acv_explainers': Shim('acv_explainers', {}),
        '__future__': Shim('__future__', {}),
        'sklearn.utils.validation': skval(I),
        'sklearn.exceptions': Shim('sklearn.exceptions', {'NotFittedError': ValueError}),
    }
    return sh


NPX = {}


def merge_arrays(u):
    """alternatives that are arrays of one shape -> one array"""
    if isinstance(u, U) and all(isinstance(v, np.ndarray) for v, g in u.alts) and len({v.shape for v, g in u.alts}) == 1:
        r = u.alts[0][0].copy()
        k = [v.k for v, g in u.alts]
        for v, g in u.alts[1:]:
            for ix in np.ndindex(*r.shape):
                r[ix] = ite(g, v[ix], r[ix])
        r.k = 'f' if 'f' in k else k[0]
        return r
    return u


def _deep(I, x):
    x = merge_arrays(x)
    if isinstance(x, (IN.CVec, IN.VRef)):
        x = I.topy(x)
    if isinstance(x, (list, tuple)):
        return [_deep(I, y) for y in x]
    return x


def _shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, list):
        if not x:
            return (0,)
        ss = [_shape(y) for y in x]
        if any(s is None for s in ss) or len(set(ss)) != 1:
            return None
        return (len(x),) + ss[0]
    return ()


def _ragged(x):
    return _shape(x) is None


class _Null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def deepcopy(I, x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, list):
        r = memo[id(x)] = []
        r.extend(deepcopy(I, y, memo) for y in x)
        return r
    if isinstance(x, tuple):
        return tuple(deepcopy(I, y, memo) for y in x)
    if isinstance(x, dict):
        return {k: deepcopy(I, v, memo) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        r = x.copy()
        if isinstance(x, SArr):
            r.k = x.k
        return r
    if isinstance(x, IN.SObj):
        r = memo[id(x)] = IN.SObj(x._c)
        r.a.update({k: deepcopy(I, v, memo) for k, v in x.a.items()})
        return r
    return x


# ------------------------------------------------------------------ attributes of arrays
def arr_attr(I, o, a):
    D = I.np.ns

    def m(f):
        return f
    k = getattr(o, 'k', 'o')
    if a == 'shape':
        return tuple(o.shape)
    if a == 'ndim':
        return o.ndim
    if a == 'size':
        return o.size
    if a == 'T':
        r = o.T
        r.k = k
        return r
    if a == 'dtype':
        cdt = getattr(o, 'cdt', None)
        nm = {'f': 'float64', 'i': 'int64', 'b': 'bool', 'o': 'object'}[k]
        if cdt == 'float':
            nm = 'float32'
        if cdt == 'int':
            nm = 'int32'
        return DT(nm, k, cdt)
    if a == 'copy':
        def cp(*x, **kw):
            r = o.copy()
            r.k = k
            return r
        return cp
    if a == 'astype':
        def at(dt, *x, **kw):
            kk = mk_kind(dt)
            r = castarr(o, kk) if kk != k else o.copy()
            r.k = kk
            r.cdt = _cdt(dt)
            return r
        return at
    if a in ('sum', 'prod', 'mean', 'max', 'min', 'var', 'argmax', 'argmin', 'all', 'any', 'argsort', 'cumsum', 'round'):
        return lambda *x, **kw: D[a](o, *x, **kw)
    if a in ('reshape', 'flatten', 'ravel', 'transpose', 'swapaxes', 'squeeze'):
        def rs(*x, **kw):
            x = tuple(tuple(int(I.c.concretize(q)) if isinstance(q, U) else q for q in y) if isinstance(y, tuple) else (int(I.c.concretize(y)) if isinstance(y, U) else y) for y in x)
            try:
                r = getattr(np.ndarray, a)(o, *x, **kw)
            except ValueError as e:
                raise IN.PyExc(e, I.c.where)
            r.k = k
            return r
        return rs
    if a == 'tolist':
        return lambda: o.tolist() if o.ndim else o[()]
    if a == 'item':
        return lambda *x: o.reshape(-1)[0]
    if a == 'fill':
        return lambda v: I.setslice(o, (Ellipsis,), v, None)
    if a == 'dot':
        return lambda b: D['matmul'](o, b)
    if a == 'values' or a == 'iloc' or a == 'columns':
        raise IN.PyExc(AttributeError("'numpy.ndarray' object has no attribute '%s'" % a))
    if a == 'sort':
        def so(*x, **kw):
            idx = f_argsort(list(o))
            vals = [o[i] for i in idx]
            for i, v in enumerate(vals):
                I.c.write('A', o, (i,), v)
        return so
    if a in ('nonzero', 'take', 'clip', 'repeat'):
        return lambda *x, **kw: D[a](o, *x, **kw)
    if a == 'flat':
        return D['ravel'](o)
    if a in ('base', 'flags', 'strides'):
        return getattr(o, a)
    if a == '__class__':
        return np.ndarray
    if hasattr(np.ndarray, a):
        raise Unsupported('array attribute %s' % a)
    raise IN.PyExc(AttributeError("'numpy.ndarray' object has no attribute '%s'" % a), I.c.where)


def scal1(o):
    a = mkarr((1,), 0, kind_of(o))
    a[0] = o
    return a


SCALAR_ATTR = {
    'shape': lambda I, o: (),
    'dtype': lambda I, o: DT({'f': 'float64', 'i': 'int64', 'b': 'bool', 'o': 'object'}[kind_of(o)], kind_of(o)),
    'astype': lambda I, o: (lambda dt, *a, **k: cast(o, mk_kind(dt))),
    'item': lambda I, o: (lambda: o),
    'sum': lambda I, o: (lambda *a, **k: o),
    'all': lambda I, o: (lambda *a, **k: o),
    'any': lambda I, o: (lambda *a, **k: o),
    'copy': lambda I, o: (lambda *a, **k: o),
    'reshape': lambda I, o: (lambda *a: arr_attr(I, scal1(o), 'reshape')(*a)),
    'size': lambda I, o: 1,
    'ndim': lambda I, o: 0,
}


# ------------------------------------------------------------------ builtins
def b_range(I):
    def f(*a):
        a = [I.c.simp(x) if isinstance(x, U) else x for x in a]
        if any(isinstance(x, U) for x in a):
            return IN.SymRange(I, *a)
        for x in a:
            if isinstance(x, (Fraction, R)):
                raise IN.PyExc(TypeError("'float' object cannot be interpreted as an integer"), I.c.where)
        return range(*[int(x) for x in a])
    return f


def b_next(I):
    def f(it, *d):
        try:
            if hasattr(it, '__next__'):
                return next(it)
            if isinstance(it, list):            # a generator expression, held as the list of what it yields
                if it:
                    return it.pop(0)
                raise StopIteration
        except StopIteration as e:
            if d:
                return d[0]
            raise IN.PyExc(e, I.c.where)
        raise Unsupported('next of %s' % type(it).__name__)
    return f


def b_len(I):
    def f(x):
        if isinstance(x, np.ndarray):
            return x.shape[0]
        if isinstance(x, (IN.CVec, IN.VRef)):
            return IN.CMeth(I, x, 'size')()
        if isinstance(x, U):
            if all(isinstance(v, (tuple, list, np.ndarray)) for v, g in x.alts):
                return mkU([(len(v), g) for v, g in x.alts])
        if isinstance(x, (int, Fraction, R, U)) or x is None:
            raise IN.PyExc(TypeError('object has no len()'), I.c.where)
        return len(x)
    return f


def b_sum(I):
    def f(x, start=0):
        r = start
        for v in I.iterate(x):
            if isinstance(r, (list, tuple)) or isinstance(v, (list, tuple)):
                r = r + v
            elif isinstance(v, np.ndarray) or isinstance(r, np.ndarray):
                r = arr_binop(I, '+', r, v)
            else:
                r = arith('+', r, _num(v))
        return r
    return f


def b_minmax(I, fm):
    def f(*a, **k):
        if 'key' in k:
            xs = I.iterate(a[0]) if len(a) == 1 else list(a)
            ks = [k['key'](x) for x in xs]
            best = 0
            for i in range(1, len(xs)):
                if I.c.decide(tob(cmp('<' if fm is smin else '>', ks[i], ks[best]))):
                    best = i
            return xs[best]
        xs = I.iterate(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if 'default' in k:
                return k['default']
            raise IN.PyExc(ValueError('arg is an empty sequence'), I.c.where)
        r = xs[0]
        for x in xs[1:]:
            r = fm(r, x)
        return r
    return f


def b_isinstance(I):
    def f(o, t):
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, ShimFn):
                x = x.pytype
            if isinstance(x, DT):
                if x.k == kind_of(o) and not isinstance(o, np.ndarray):
                    return True
                continue
            if isinstance(x, IN.Cls):
                q = o._c if isinstance(o, IN.SObj) else None
                st = [q]
                while st:
                    z = st.pop()
                    if z is x:
                        return True
                    if isinstance(z, IN.Cls):
                        st.extend(z.bases)
                continue
            if isinstance(x, IN.Opaque) or x is None:
                continue
            if x is int and isinstance(o, (int,)):
                return True
            if x is float and isinstance(o, (Fraction, float, R)):
                return True
            if x is float and isinstance(o, U) and kind_of(o) == 'f':
                return True
            if x is int and isinstance(o, U) and kind_of(o) == 'i':
                return True
            if isinstance(x, type) and x not in (int, float) and isinstance(o, x):
                return True
        return False
    return f


def b_sorted(I):
    def f(x, key=None, reverse=False):
        xs = I.iterate(x)
        ks = [key(v) for v in xs] if key is not None else xs
        out = []
        for i in range(len(xs)):
            j = len(out)
            while j > 0:
                a, b = (ks[i], ks[out[j - 1]])
                q = I.c.decide(tob(I.scmp('>' if reverse else '<', a, b)))
                if not q:
                    break
                j -= 1
            out.insert(j, i)
        return [xs[i] for i in out]
    return f


def b_float(I):
    def f(x=0):
        if isinstance(x, str):
            v = float(x)
            return v if v in (INF, -INF) or v != v else dec(v)
        return cast(x, 'f')
    return ShimFn(f, 'f', float)


def b_int(I):
    def f(x=0, base=None):
        if isinstance(x, str):
            return int(x)
        return cast(x, 'i')
    return ShimFn(f, 'i', int)


def b_all(I, anyp=False):
    def f(x):
        xs = [IN.truth_(I, v) for v in I.iterate(x)]
        return _b(bor(*xs) if anyp else band(*xs))
    return f


def b_hasattr(I):
    def f(o, a):
        try:
            I.getattr(o, a)
            return True
        except IN.PyExc:
            return False
    return f


def b_getattr(I):
    def f(o, a, *d):
        try:
            return I.getattr(o, a)
        except IN.PyExc:
            if d:
                return d[0]
            raise
    return f


def b_type(I):
    def f(o):
        if isinstance(o, IN.SObj):
            return o._c
        if isinstance(o, SArr):
            return np.ndarray
        return type(o)
    return f


def b_str(I):
    def f(o=''):
        if isinstance(o, IN.SObj):
            return "<class 'obj'>"
        return str(o)
    return ShimFn(f, 'o', str)


def cext_compute_expectations(left, right, weight, values):
    """contract of the C extension (decided on acv_tree.h by C20): the depth of the tree, no effect on the values"""
    def depth(i):
        l, r = CTX[0].concretize(left[i]), CTX[0].concretize(right[i])
        return 0 if r < 0 else 1 + max(depth(l), depth(r))
    return depth(0)


def cext_dense_tree_predict(left, right, default, features, thresholds, values, max_depth, limit, offset, X, missing, out):
    """contract of the C extension (decided on acv_tree.h by C20): offset plus the value of the leaf each tree sends the row to"""
    I = CTX[0].concretize
    for i in range(X.shape[0]):
        for k in range(out.shape[1]):
            out[i, k] = arith('+', out[i, k], offset[k])
        for b in range(I(limit)):
            def go(n):
                l = I(left[b, n])
                if l < 0:
                    return [values[b, n, k] for k in range(out.shape[1])]
                f = I(features[b, n])
                lo, hi, g = go(l), go(I(right[b, n])), tob(cmp('<=', X[i, f], thresholds[b, n]))
                g = bor(band(tob(missing[i, f]), tob(cmp('==', default[b, n], l))), band(bnot(tob(missing[i, f])), g))
                return [ite(g, p, q) for p, q in zip(lo, hi)]
            for k, v in enumerate(go(0)):
                out[i, k] = arith('+', out[i, k], v)


BUILTINS = {
    'range': Lazy(b_range), 'xrange': Lazy(b_range), 'len': Lazy(b_len), 'sum': Lazy(b_sum), 'min': Lazy(lambda I: b_minmax(I, smin)),
    'max': Lazy(lambda I: b_minmax(I, smax)), 'isinstance': Lazy(b_isinstance), 'sorted': Lazy(b_sorted), 'float': Lazy(b_float),
    'int': Lazy(b_int), 'long': Lazy(b_int), 'all': Lazy(lambda I: b_all(I)), 'any': Lazy(lambda I: b_all(I, True)),
    'hasattr': Lazy(b_hasattr), 'getattr': Lazy(b_getattr), 'setattr': Lazy(lambda I: (lambda o, a, v: I.setattr(o, a, v))),
    'list': Lazy(lambda I: ShimFn(lambda x=(): list(I.iterate(x)), 'o', list)),
    'tuple': Lazy(lambda I: ShimFn(lambda x=(): tuple(I.iterate(x)), 'o', tuple)),
    'set': Lazy(lambda I: ShimFn(lambda x=(): _mkset(I, x), 'o', set)), 'dict': Lazy(lambda I: ShimFn(lambda *a, **k: dict(*[I.iterate(x) if not isinstance(x, dict) else x for x in a], **k), 'o', dict)), 'frozenset': frozenset,
    'enumerate': Lazy(lambda I: (lambda x, start=0: list(enumerate(I.iterate(x), start)))),
    'zip': Lazy(lambda I: (lambda *xs: list(zip(*[I.iterate(x) for x in xs])))),
    'map': Lazy(lambda I: (lambda f, *xs: [f(*q) for q in zip(*[I.iterate(x) for x in xs])])),
    'filter': Lazy(lambda I: (lambda f, xs: [x for x in I.iterate(xs) if I.c.decide(IN.truth_(I, f(x)))])),
    'reversed': Lazy(lambda I: (lambda x: list(reversed(I.iterate(x))))),
    'abs': sabs, 'print': lambda *a, **k: None, 'str': Lazy(b_str), 'bool': Lazy(lambda I: ShimFn(lambda x=False: _b(IN.truth_(I, x)), 'b', bool)), 'type': Lazy(b_type), 'object': object,
    'round': lambda x, d=0: round(x, d), 'pow': lambda a, b: arith('**', a, b),
    'True': True, 'False': False, 'None': None, 'Exception': Exception, 'ValueError': ValueError, 'TypeError': TypeError,
    'KeyError': KeyError, 'IndexError': IndexError, 'AttributeError': AttributeError, 'ImportError': ImportError,
    'NotImplementedError': NotImplementedError, 'RuntimeError': RuntimeError, 'AssertionError': AssertionError,
    'ZeroDivisionError': ZeroDivisionError, 'StopIteration': StopIteration, 'Warning': Warning, 'UserWarning': UserWarning,
    'callable': callable, 'id': id, 'repr': repr, 'iter': lambda x: iter(x), 'next': Lazy(b_next), 'slice': slice, 'super': None, 'open': None, 'bytes': bytes,
    'ord': ord, 'chr': chr, 'divmod': divmod, 'complex': complex, 'vars': lambda o: o.a,
}


class LooseSet:
    """a set of reals some of which may be equal: may be extended and listed, nothing else"""
    def __init__(self, xs):
        self.xs = list(xs)

    def __iter__(self):
        return iter(list(self.xs))

    def add(self, x):
        self.xs.append(x)

    loose = True

    def __contains__(self, x):
        raise Unsupported('membership in a set of symbolic reals')


def _mkset(I, x):
    xs = I.iterate(x)
    if any(isinstance(v, R) for v in xs) or any(isinstance(v, U) and any(isinstance(w, R) for w, _ in v.alts) for v in xs):
        return LooseSet(xs)
    return set(_setify(I, xs))


def _setify(I, x):
    out = []
    for v in I.iterate(x):
        if isinstance(v, U):
            v = I.c.concretize(v)
        if isinstance(v, R):
            raise Unsupported('set of symbolic reals')
        out.append(v)
    return out


def skval(I):
    """sklearn input validation on finite inputs: shape checks and a conversion to double"""
    def toarr(x, nd=None):
        a = arr(x) if not isinstance(x, SArr) else x
        if nd is not None and a.ndim != nd:
            raise IN.PyExc(ValueError('Expected %dD array, got %dD array instead' % (nd, a.ndim)), CTX[0].where)
        return a

    def check_array(x, dtype='numeric', **kw):
        a = toarr(x, 2)
        if a.shape[0] < 1 or a.shape[1] < 1:
            raise IN.PyExc(ValueError('Found array with 0 sample(s)'), CTX[0].where)
        dts = [d for d in (dtype if isinstance(dtype, (list, tuple)) else [dtype]) if isinstance(d, DT)]
        if dts:
            return a.copy() if a.k in [d.k for d in dts] else castarr(a, dts[0].k)
        return a.copy() if a.k == 'f' else castarr(a, 'f')

    def check_consistent_length(*xs):
        ls = {len(x) for x in xs if x is not None}
        if len(ls) > 1:
            raise IN.PyExc(ValueError('Found input variables with inconsistent numbers of samples'), CTX[0].where)

    def check_X_y(X, y, *a, **kw):
        X = check_array(X)
        y = toarr(y)
        if y.ndim == 2 and y.shape[1] == 1:
            y = y.reshape(-1)           # column_or_1d
        y = toarr(y, 1)
        check_consistent_length(X, y)
        return X, y.copy()

    def as_float_array(x, **kw):
        a = toarr(x)
        return a.copy() if a.k == 'f' else castarr(a, 'f')

    return Shim('sklearn.utils.validation', dict(check_array=check_array, check_X_y=check_X_y, as_float_array=as_float_array,
                check_consistent_length=check_consistent_length, check_is_fitted=lambda *a, **k: None, column_or_1d=lambda x, **k: toarr(x, 1)))
