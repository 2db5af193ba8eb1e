"""Execution context: path condition, undo log + merging, obligations, forks, solver queries."""
from fractions import Fraction
import time
import numpy as np
import z3
from .terms import *
from . import terms as TM

ABSENT = type('Absent', (), {'__repr__': lambda s: 'ABSENT'})()
POISON = type('Poison', (), {'__repr__': lambda s: 'POISON'})()
NAN = float('nan')


class Restart(Exception):
    pass


class Event:
    __slots__ = ('kind', 'where', 'guard')

    def __init__(self, kind, where, guard):
        self.kind, self.where, self.guard = kind, where, guard

    def __repr__(self):
        return 'Event(%s @ %s)' % (self.kind, self.where)


class SArr(np.ndarray):
    """object ndarray tagged with an element kind: f (double), i (int), b (bool), o"""
    def __array_finalize__(self, obj):
        self.k = getattr(obj, 'k', 'o')
        self.cdt = getattr(obj, 'cdt', None)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous')


def mkarr(shape, fill, k):
    a = np.empty(shape, dtype=object).view(SArr)
    a.k = k
    f = a.reshape(-1)
    for i in range(f.size):
        f[i] = fill
    return a


def arr(x, k=None):
    """nested lists/arrays -> SArr"""
    if isinstance(x, SArr):
        a = x.copy()
    elif isinstance(x, np.ndarray) and x.dtype != object:
        a = np.empty(x.shape, dtype=object)
        kind = 'b' if x.dtype == bool else 'i' if x.dtype.kind in 'iu' else 'f' if x.dtype.kind == 'f' else 'o'
        fa, fx = a.reshape(-1), x.reshape(-1)
        for i in range(fx.size):
            v = fx[i].item()
            fa[i] = pynum(v)
        k = k or kind
        a = a.view(SArr)
        a.k = kind
    else:
        a = np.array(_strip(x), dtype=object).view(SArr)
        a.k = guess_kind(a)
    if k and k != a.k:
        a = castarr(a, k)
    return a


def pynum(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        if v != v or v in (INF, -INF):
            return v
        return dec(v)
    return v


def dec(v):
    """a float literal read as the decimal it prints as"""
    return Fraction(repr(v))


def _strip(x):
    if isinstance(x, (list, tuple)):
        return [_strip(y) for y in x]
    return x


def kind_of(v):
    if isinstance(v, (B, bool)):
        return 'b'
    if isinstance(v, int):
        return 'i'
    if isinstance(v, (Fraction, float, R)):
        return 'f'
    if isinstance(v, U):
        ks = {kind_of(x) for x, g in v.alts}
        for k in 'ofib':
            if k in ks:
                return k
    return 'o'


def guess_kind(a):
    ks = {kind_of(v) for v in a.reshape(-1)}
    if not ks:
        return 'f'
    for k in 'ofib':
        if k in ks:
            return k


def cast(v, k):
    if k == 'f':
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, int):
            return Fraction(v)
        if isinstance(v, float):
            return v if v != v or v in (INF, -INF) else Fraction(v)
        if isinstance(v, B):
            v = b2u(v)
        if isinstance(v, U):
            return mkU([(cast(x, k), g) for x, g in v.alts]) if any(not isinstance(x, (Fraction, float, R)) for x, g in v.alts) else v
        if isinstance(v, (Fraction, R)):
            return v
        if isinstance(v, np.ndarray) and v.size == 1:
            return cast(v.reshape(-1)[0], k)
        if v is POISON or v is None:
            return v
        if isinstance(v, str):
            return dec(float(v))
        raise Unsupported('cast %r to double' % (v,))
    if k == 'i':
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Fraction):
            return int(v)
        if isinstance(v, B):
            return b2u(v)
        if isinstance(v, U):
            return mkU([(cast(x, k), g) for x, g in v.alts]) if any(type(x) is not int for x, g in v.alts) else v
        if isinstance(v, float):
            return -2147483648 if not (-2e9 < v < 2e9) else int(v)
        if isinstance(v, np.ndarray) and v.size == 1:
            return cast(v.reshape(-1)[0], k)
        if v is POISON or v is None:
            return v
        if isinstance(v, R):
            # truncation of a symbolic real: fork on concrete candidates is not possible in general
            if v.isconst():
                return int(v.cval())
            u = r2u(v)
            if u is not None:
                return cast(u, 'i')
            return CTX[0].opaque_trunc(v)
        raise Unsupported('cast %r to int' % (v,))
    if k == 'b':
        return _b(truth(v))
    return v


def _b(b):
    return True if b is T else False if b is F else b


def castarr(a, k):
    out = np.empty(a.shape, dtype=object).view(SArr)
    out.k = k
    fo, fa = out.reshape(-1), np.asarray(a, dtype=object).reshape(-1)
    for i in range(fa.size):
        fo[i] = cast(fa[i], k)
    return out


class Flow:
    __slots__ = ('n', 'b', 'c', 'r')

    def __init__(self, n=T, b=F, c=F, r=F):
        self.n, self.b, self.c, self.r = n, b, c, r


FN = Flow()
FB = Flow(F, T, F, F)
FC = Flow(F, F, T, F)
FR = Flow(F, F, F, T)


class _Under:
    __slots__ = ('c', 'g', 'live')

    def __init__(self, c, g):
        self.c, self.g = c, g

    def __enter__(self):
        self.live = self.c.push(self.g)
        return self.live

    def __exit__(self, *a):
        self.c.pop()


_MUL = z3.Function('mul', z3.RealSort(), z3.RealSort(), z3.RealSort())
_DIV = z3.Function('div', z3.RealSort(), z3.RealSort(), z3.RealSort())


class Ctx:
    def __init__(self, timeout_ms=120000, prune=False):
        self.log = []
        self.pcs = [T]
        self.events = []
        self.assumptions = []       # B or z3 terms
        self.defs = []              # z3 constraints defining opaque symbols
        self.fresh = 0
        self.timeout_ms = timeout_ms
        self.prefix = []            # decisions to replay: list of (B, bool)
        self.dec_i = 0
        self.pending = []           # alternative prefixes
        self.taken = []
        self.prune = prune
        self.stats = dict(queries=0, solver_s=0.0, forks=0, paths=0, branches=0, merges=0, calls=0, unknown=0)
        self.fnset = set()
        self.where = '?'
        self.max_unwind = 64
        self.access = None          # prange access recorder
        self.floor = Fraction(0)
        self.lazydiv = None
        self.nzmemo = {}
        self.fac, self.infac = {}, False
        self.qdefs, self.qmemo, self.qz = {}, {}, []

    # ---------------------------------------------------------------- pc
    @property
    def pc(self):
        return self.pcs[-1]

    def push(self, g):
        p = band(self.pcs[-1], g)
        self.pcs.append(p)
        return p is not F

    def pop(self):
        self.pcs.pop()

    def under(self, g):
        return _Under(self, g)

    def simp(self, v):
        """restrict a union to the alternatives compatible with the path condition (syntactic)"""
        p = self.pcs[-1]
        if p is T:
            return v
        if isinstance(v, U):
            if len(v.alts) > 24:
                return v
            keep = [(x, g) for x, g in v.alts if band(p, g) is not F]
            if len(keep) == len(v.alts):
                return v
            if not keep:
                return v
            if len(keep) == 1:
                return keep[0][0]
            return U(keep)
        if isinstance(v, B):
            if v is T or v is F:
                return v
            if band(p, v) is F:
                return F
            if v._neg is not None and band(p, v._neg) is F:
                return T
            return v
        if isinstance(v, R) and len(v.t) <= 16:
            t = None
            for k in v.t:
                g = k[1]
                if g is T:
                    continue
                if band(p, g) is F:
                    t = t if t is not None else dict(v.t)
                    t.pop(k)
                elif band(p, bnot(g)) is F:
                    t = t if t is not None else dict(v.t)
                    c = t.pop(k)
                    kk = (k[0], T)
                    t[kk] = t.get(kk, 0) + c
            return v if t is None else mkR(t)
        return v

    # ---------------------------------------------------------------- events
    def event(self, kind, where=None):
        g = self.pcs[-1]
        if g is F:
            return
        self.events.append(Event(kind, where or self.where, g))

    def div_zero(self, a, b, op):
        self.event('div0')
        if op != '/':
            return 0
        if a == 0 or a != a:
            return NAN
        return INF if a > 0 else -INF

    def newvar(self, hint='v'):
        self.fresh += 1
        return '%s!%d' % (hint, self.fresh)

    def nonzero(self, b):
        """b is not 0 on the current path condition"""
        zero = tob(cmp('==', b, Fraction(0)))
        if zero is F or entails(self.pc, bnot(zero)):
            return True
        if zero is T:
            return False
        k = (self.pc.id, zero.id, len(self.taken))
        if k not in self.nzmemo:
            self.nzmemo[k] = self.check([self.pc, zero]) == z3.unsat
        return self.nzmemo[k]

    def lazy_div(self, a, b, nz=False):
        """quotient as an uninterpreted function of its operands; the solver's models are checked against its meaning and refined (see check)"""
        zero = tob(cmp('==', b, Fraction(0)))
        A, Bq = mkR(toR(a)), mkR(toR(b))
        lin = not any(x in self.qdefs for m, g in toR(A) for x in m)
        if lin:
            v = arith('*', A, self._quot(Fraction(1), Bq)) if isinstance(A, R) or A != 1 else self._quot(Fraction(1), Bq)
        else:
            v = self._quot(A, Bq)
        if nz:
            return v
        with self.under(zero):
            self.event('div0')
        return ite(zero, NAN, v)

    def lazy_mul(self, a, b):
        if sorted(map(repr, a.key())) > sorted(map(repr, b.key())):
            a, b = b, a
        return self._quot(a, b, True)

    def _quot(self, a, b, mul=False):
        k = (a.key() if isinstance(a, R) else a, b.key() if isinstance(b, R) else b, mul)
        q = self.qmemo.get(k)
        if q is None:
            q = self.qmemo[k] = self.newvar('q')
            za, zb = zR(a), zR(b)
            self.qdefs[q] = (a, b, mul)
            self.qz.append((zreal(q), za, zb, mul))
            self.defs.append(zreal(q) == (_MUL if mul else _DIV)(za, zb))
        return R.var(q)

    def opaque_div(self, a, b):
        zero = tob(cmp('==', b, Fraction(0)))
        q = self.newvar('q')
        zb, za = zR(b), zR(a)
        self.defs.append(z3.Implies(zb != 0, zreal(q) * zb == za))
        if entails(self.pc, bnot(zero)):
            return R.var(q)
        with self.under(zero):
            self.event('div0')
        return ite(zero, NAN, R.var(q))

    def opaque_pow(self, a, b):
        if b == Fraction(1, 2):
            return self.sqrt(a)
        raise Unsupported('pow %r ** %r' % (a, b))

    def sqrt(self, a):
        q = self.newvar('sqrt')
        self.defs.append(zreal(q) * zreal(q) == zR(a))
        self.defs.append(zreal(q) >= 0)
        return R.var(q)

    def opaque_trunc(self, v):
        raise Unsupported('float->int truncation of %r' % (v,))

    # ---------------------------------------------------------------- forks
    def _zassume(self):
        out = []
        for a in self.assumptions:
            out.append(zB(a) if isinstance(a, B) else a)
        return out + self.defs

    def refine(self, s, limit=None):
        """check; a model that gives a quotient the wrong value is excluded by the linear fact it violates"""
        t0 = time.time()
        limit = (limit or self.timeout_ms) / 1000.0
        for k in range(1500):
            if k and time.time() - t0 > limit:
                return z3.unknown
            r = s.check()
            if r != z3.sat or not self.qz:
                return r
            m, bad = s.model(), 0
            for q, za, zb, mul in self.qz:
                b = m.eval(zb, model_completion=True)
                a = m.eval(za, model_completion=True)
                v = m.eval(q, model_completion=True)
                bf, af, vf = b.as_fraction(), a.as_fraction(), v.as_fraction()
                if mul:
                    if af * bf != vf:
                        for lem in (z3.Implies(zb == b, q == b * za), z3.Implies(za == a, q == a * zb)):
                            self.defs.append(lem)
                            s.add(lem)
                        bad += 1
                elif bf != 0 and vf * bf != af:
                    lem = z3.Implies(zb == b, q * b == za)
                    self.defs.append(lem)
                    s.add(lem)
                    bad += 1
            if not bad:
                return r
        return z3.unknown

    def check(self, extra, timeout=None, model=False):
        """satisfiability of assumptions + decisions + extra (list of B / z3)"""
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout_ms)
        for a in self._zassume():
            s.add(a)
        for b, v in self.taken:
            s.add(zB(b) if v else z3.Not(zB(b)))
        for e in extra:
            s.add(zB(e) if isinstance(e, B) else e)
        t0 = time.time()
        r = self.refine(s, timeout)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        if r == z3.unknown:
            self.stats['unknown'] += 1
        if model:
            return r, (s.model() if r == z3.sat else None)
        return r

    def decide(self, b):
        b = self.simp(b)
        if b is T:
            return True
        if b is F:
            return False
        nb = bnot(b)
        replaying = self.dec_i < len(self.prefix)
        if replaying:
            pb, v = self.prefix[self.dec_i]
            if pb == b.id:
                self.dec_i += 1
                self._take(b, v)
                return v
        extra = [self.pc] if self.pc is not T else []
        t = self.check(extra + [b])
        if t == z3.unsat:
            # implied (or dead path)
            f = self.check(extra + [nb])
            if f == z3.unsat:
                return False
            if replaying and not extra:
                raise Unsupported('non-deterministic fork replay')
            if not extra:
                self._rec(b, False)
            return False
        f = self.check(extra + [nb])
        if replaying and not (f == z3.unsat and extra):
            raise Unsupported('non-deterministic fork replay')
        if f == z3.unsat:
            if not extra:
                self._rec(b, True)
            return True
        # both feasible: split the whole run on b
        self.stats['forks'] += 1
        self.pending.append(self.taken_list() + [(b.id, False)])
        self._rec(b, True)
        return True

    def taken_list(self):
        return [(b.id, v) for b, v in self.taken]

    def _rec(self, b, v):
        self.prefix = self.prefix + [(b.id, v)]
        self.dec_i = len(self.prefix)
        self._take(b, v)

    def _take(self, b, v):
        self.taken.append((b, v))
        lit = b if v else bnot(b)
        # strengthen every path condition on the stack
        self.pcs = [band(p, lit) for p in self.pcs]

    def concretize(self, u):
        u = self.simp(u)
        if not isinstance(u, U):
            return u
        for v, g in u.alts[:-1]:
            if self.decide(g):
                return v
        return u.alts[-1][0]

    # ---------------------------------------------------------------- write log
    # entry: (key, kind, obj, sub, old)
    def _get(self, kind, obj, sub):
        if kind == 'D':
            return obj.get(sub, ABSENT)
        if kind == 'A':
            return obj[sub]
        if kind == 'L':
            return list(obj)
        if kind == 'S':
            return obj.d.get(sub, F)
        if kind == 'V':
            return obj.st
        if kind == 'O':
            return dict(obj)

    def _put(self, kind, obj, sub, v):
        if kind == 'D':
            if v is ABSENT:
                obj.pop(sub, None)
            else:
                obj[sub] = v
        elif kind == 'A':
            obj[sub] = v
        elif kind == 'L':
            obj[:] = v
        elif kind == 'S':
            if v is F:
                obj.d.pop(sub, None)
            else:
                obj.d[sub] = v
        elif kind == 'V':
            obj.st = v

    @staticmethod
    def _key(kind, obj, sub):
        if kind == 'A':
            p = obj.__array_interface__['data'][0]
            for i, st in zip(sub, obj.strides):
                p += i * st
            return ('A', p)
        return (kind, id(obj), sub)

    def write(self, kind, obj, sub, v):
        if len(self.pcs) > 1 or self.access is not None:
            self.log.append((self._key(kind, obj, sub), kind, obj, sub, self._get(kind, obj, sub)))
        self._put(kind, obj, sub, v)

    def snapshot_list(self, lst):
        if len(self.pcs) > 1:
            self.log.append((('L', id(lst), None), 'L', lst, None, list(lst)))

    def begin(self, g):
        self.stats['branches'] += 1
        self.push(g)
        return len(self.log)

    def end(self, mark):
        """restore state at mark, returning the writes made since"""
        w = {}
        for ent in self.log[mark:]:
            key, kind, obj, sub, old = ent
            if key not in w:
                w[key] = [kind, obj, sub, old, None]
        for key, e in w.items():
            e[4] = self._get(e[0], e[1], e[2])
        for key, kind, obj, sub, old in reversed(self.log[mark:]):
            self._put(kind, obj, sub, old)
        del self.log[mark:]
        self.pop()
        return w

    def abort(self, mark):
        for key, kind, obj, sub, old in reversed(self.log[mark:]):
            self._put(kind, obj, sub, old)
        del self.log[mark:]

    def reopen(self, g, w):
        mark = self.begin(g)
        for key, (kind, obj, sub, old, new) in w.items():
            self.log.append((key, kind, obj, sub, old))
            self._put(kind, obj, sub, new)
        return mark

    def merge(self, c, w1, w2):
        """state := c ? w1 : w2"""
        self.stats['merges'] += 1
        for key in list(w1) + [k for k in w2 if k not in w1]:
            e1, e2 = w1.get(key), w2.get(key)
            kind, obj, sub, old, _ = e1 or e2
            a = e1[4] if e1 else old
            b = e2[4] if e2 else old
            v = self.mergev(c, kind, a, b)
            if len(self.pcs) > 1 or self.access is not None:
                self.log.append((key, kind, obj, sub, old))
            self._put(kind, obj, sub, v)

    def mergev(self, c, kind, a, b):
        if a is b:
            return a
        if kind == 'L':
            if len(a) == len(b):
                return [self.mergev(c, 'D', x, y) for x, y in zip(a, b)]
            raise NeedFork(c)
        if kind == 'S':
            return bite(c, a, b)
        if a is ABSENT or a is POISON:
            return b
        if b is ABSENT or b is POISON:
            return a
        return merge_vals(c, a, b)


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


def merge_vals(c, a, b):
    if a is b:
        return a
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b) and isinstance(a, tuple):
        return tuple(merge_vals(c, x, y) for x, y in zip(a, b))
    return ite(c, a, b)
