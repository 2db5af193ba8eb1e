"""Symbolic values.

B  : hash-consed boolean guards (n-ary AND / NOT over atoms).
R  : exact real value = sum of  coef * [guard] * monomial  (monomial = product of real variables).
U  : guarded union  {value_i if guard_i}  (guards exclusive + exhaustive under the path condition),
     used for small integers, exact rationals, None, +-inf, objects.
Concrete: bool, int (C/Python ints), Fraction (doubles, read as exact reals), float +-inf, str, ...
"""
from fractions import Fraction
import itertools

INF = float('inf')


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ booleans
class B:
    __slots__ = ('op', 'args', 'id', '_neg', 'z', '__weakref__')
    _tab = {}
    _cnt = 0

    def __new__(cls, op, args):
        key = (op, args)
        o = cls._tab.get(key)
        if o is not None:
            return o
        o = object.__new__(cls)
        o.op = op
        o.args = args
        o._neg = None
        o.z = None
        B._cnt += 1
        o.id = B._cnt
        cls._tab[key] = o
        return o

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        if isinstance(other, B):
            return self is other
        return NotImplemented

    def __lt__(self, o):      # ordering only for canonical sort
        return self.id < o.id

    def __invert__(self):
        return bnot(self)

    def __and__(self, o):
        return band(self, tobool_val(o))
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, tobool_val(o))
    __ror__ = __or__

    def __bool__(self):
        if self is T:
            return True
        if self is F:
            return False
        return CTX[0].decide(self)

    def __repr__(self):
        return show_b(self)


def show_b(b, depth=4):
    if b.op in ('T', 'F'):
        return b.op
    if b.op == 'bv':
        return str(b.args)
    if b.op in ('le', 'lt', 'eq'):
        return '(%s %s %s)' % (' + '.join('%s*%s' % (c, '*'.join(m)) for m, c in b.args[0]) if isinstance(b.args[0], tuple) else 'R#%d' % id(b.args[0]),
                               {'le': '<=', 'lt': '<', 'eq': '=='}[b.op], b.args[1])
    if depth == 0:
        return '...'
    if b.op == 'not':
        return '!' + show_b(b.args, depth - 1)
    if b.op == 'and':
        return '(' + ' & '.join(show_b(x, depth - 1) for x in sorted(b.args, key=lambda q: q.id)[:8]) + ')'
    return b.op


T = B('T', ())
F = B('F', ())
T._neg = F
F._neg = T


def bvar(name):
    return B('bv', name)


def bnot(a):
    if a._neg is not None:
        return a._neg
    n = B('not', a)
    a._neg = n
    n._neg = a
    return n


def _disj(b):
    """disjunct set of a negated conjunction, or None."""
    if b.op == 'not' and b.args.op == 'and':
        return b.args.args
    return None


_and_cache = {}


def band(*xs):
    xs = [x for x in xs if x is not T]
    if not xs:
        return T
    if len(xs) == 1:
        return xs[0]
    if len(xs) > 2:
        r = xs[0]
        for x in xs[1:]:
            r = band(r, x)
        return r
    a, b = xs
    if a is b:
        return a
    if a is F or b is F or a._neg is b:
        return F
    key = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _and_cache.get(key)
    if r is None:
        r = _band2(a, b)
        _and_cache[key] = r
    return r


def _band2(a, b):
    s = set()
    for x in (a, b):
        if x.op == 'and':
            s |= x.args
        else:
            s.add(x)
    # complement
    for x in s:
        if x._neg is not None and x._neg in s:
            return F
    # unit propagation into disjunctions (bounded)
    changed = True
    rounds = 0
    while changed and rounds < 4:
        changed = False
        rounds += 1
        for x in list(s):
            d = _disj(x)          # x = not(and(d)) = or(not d_i)
            if d is None or len(d) > 12:
                continue
            nd = None
            drop = False
            for y in d:
                if y in s:        # literal y true => disjunct not y false
                    if nd is None:
                        nd = set(d)
                    nd.discard(y)
                elif y._neg is not None and y._neg in s:
                    drop = True   # disjunct true
                    break
            if drop:
                s.discard(x)
                changed = True
            elif nd is not None:
                s.discard(x)
                if not nd:
                    return F
                n = bnot(_mkand(frozenset(nd)))
                if n is F:
                    return F
                if n.op == 'and':
                    s |= n.args
                else:
                    s.add(n)
                changed = True
                for z in s:
                    if z._neg is not None and z._neg in s:
                        return F
    r = _theory(s)
    if r is False:
        return F
    return _mkand(frozenset(s))


def _theory(s):
    """cheap interval reasoning on single linear forms sharing the same left side; detects conflicts only."""
    lo = None
    for x in s:
        y = x.args if x.op == 'not' else x
        if y.op in ('le', 'lt', 'eq') and isinstance(y.args[0], tuple):
            if lo is None:
                lo = {}
            lhs, c = y.args
            l, u = lo.get(lhs, ((None, False), (None, False)))  # (bound, strict)
            if y.op == 'eq':
                if x.op == 'not':
                    continue
                nl, nu = (c, False), (c, False)
            elif x.op == 'not':   # lhs > c (le) or lhs >= c (lt)
                nl, nu = (c, y.op == 'le'), (None, False)
            else:
                nl, nu = (None, False), (c, y.op == 'lt')
            if nl[0] is not None and (l[0] is None or nl[0] > l[0] or (nl[0] == l[0] and nl[1])):
                l = nl
            if nu[0] is not None and (u[0] is None or nu[0] < u[0] or (nu[0] == u[0] and nu[1])):
                u = nu
            lo[lhs] = (l, u)
            if l[0] is not None and u[0] is not None:
                if l[0] > u[0] or (l[0] == u[0] and (l[1] or u[1])):
                    return False
    if lo is None:
        return True
    # drop implied (weaker) bounds so guards stay canonical
    for x in list(s):
        y = x.args if x.op == 'not' else x
        if y.op in ('le', 'lt') and isinstance(y.args[0], tuple):
            lhs, c = y.args
            l, u = lo[lhs]
            if x.op == 'not':
                strict = y.op == 'le'
                if l[0] is not None and (l[0] > c or (l[0] == c and l[1] and not strict)):
                    s.discard(x)
            else:
                strict = y.op == 'lt'
                if u[0] is not None and (u[0] < c or (u[0] == c and u[1] and not strict)):
                    s.discard(x)
    return True


def _mkand(fs):
    if not fs:
        return T
    if len(fs) == 1:
        return next(iter(fs))
    return B('and', fs)


def bor(*xs):
    r = F
    for x in xs:
        r = _bor2(r, x)
    return r


_or_cache = {}


def _bor2(a, b):
    if a is F:
        return b
    if b is F or a is b:
        return a
    if a is T or b is T or a._neg is b:
        return T
    key = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _or_cache.get(key)
    if r is not None:
        return r
    A = a.args if a.op == 'and' else frozenset((a,))
    Bs = b.args if b.op == 'and' else frozenset((b,))
    r = None
    if A <= Bs:
        r = a
    elif Bs <= A:
        r = b
    else:
        common = A & Bs
        da, db = A - common, Bs - common
        if common:
            r = band(_mkand(common), _bor2(_mkand(da), _mkand(db)))
    if r is None:
        # resolution: a | (not a & c) = a | c
        if len(A) == 1:
            x = next(iter(A))
            if x._neg is not None and x._neg in Bs:
                b = _mkand(Bs - {x._neg})
                r = _bor2(a, b)
        if r is None and len(Bs) == 1:
            x = next(iter(Bs))
            if x._neg is not None and x._neg in A:
                a = _mkand(A - {x._neg})
                r = _bor2(a, b)
    if r is None:
        r = bnot(band(bnot(a), bnot(b)))
    _or_cache[key] = r
    return r


def implies(a, b):
    return bor(bnot(a), b)


def bite(c, a, b):
    if c is T or a is b:
        return a
    if c is F:
        return b
    return bor(band(c, a), band(bnot(c), b))


def entails(pc, b):
    """syntactic: pc => b"""
    return band(pc, bnot(b)) is F


# ------------------------------------------------------------------ reals
def num(x):
    """normalise a concrete number for real arithmetic"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        if x in (INF, -INF):
            return x
        if x != x:
            return x
        return Fraction(x)
    raise Unsupported('num(%r)' % (x,))


class R:
    __slots__ = ('t', '_h', 'z')

    def __init__(self, t):
        self.t = t          # dict (mono, guard) -> Fraction
        self._h = None
        self.z = None

    @staticmethod
    def var(name):
        return R({((name,), T): Fraction(1)})

    @staticmethod
    def const(c):
        c = Fraction(c)
        return R({((), T): c} if c else {})

    def key(self):
        if self._h is None:
            self._h = frozenset((m, g.id, c) for (m, g), c in self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def isconst(self):
        if not self.t:
            return True
        return len(self.t) == 1 and ((), T) in self.t

    def cval(self):
        return self.t.get(((), T), Fraction(0))

    # operators (for native python / numpy object code)
    def __add__(self, o): return arith('+', self, o)
    def __radd__(self, o): return arith('+', o, self)
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    def __mul__(self, o): return arith('*', self, o)
    def __rmul__(self, o): return arith('*', o, self)
    def __truediv__(self, o): return arith('/', self, o)
    def __rtruediv__(self, o): return arith('/', o, self)
    def __pow__(self, o): return arith('**', self, o)
    def __neg__(self): return arith('-', Fraction(0), self)
    def __pos__(self): return self
    def __abs__(self): return sabs(self)
    def __le__(self, o): return cmp('<=', self, o)
    def __lt__(self, o): return cmp('<', self, o)
    def __ge__(self, o): return cmp('>=', self, o)
    def __gt__(self, o): return cmp('>', self, o)
    def __eq__(self, o): return cmp('==', self, o)
    def __ne__(self, o): return cmp('!=', self, o)
    def __bool__(self): return bool(cmp('!=', self, Fraction(0)))

    def __float__(self):
        raise Unsupported('float(R)')

    def __repr__(self):
        return 'R(' + ' + '.join('%s%s%s' % (c, ''.join('*' + v for v in m), '' if g is T else '[%s]' % show_b(g, 2)) for (m, g), c in list(self.t.items())[:6]) + ')'


def mkR(t):
    t = {k: c for k, c in t.items() if c != 0 and k[1] is not F}
    if not t:
        return Fraction(0)
    if len(t) == 1 and ((), T) in t:
        return t[((), T)]
    return R(t)


def toR(x):
    """any finite numeric value -> dict form"""
    if isinstance(x, R):
        return x.t
    if isinstance(x, (bool, int, Fraction)):
        c = Fraction(int(x)) if isinstance(x, bool) else Fraction(x)
        return {((), T): c} if c else {}
    if isinstance(x, float) and x == x and x not in (INF, -INF):
        c = Fraction(x)
        return {((), T): c} if c else {}
    if isinstance(x, B):
        if x is T:
            return {((), T): Fraction(1)}
        if x is F:
            return {}
        return {((), x): Fraction(1)}
    if isinstance(x, U):
        t = {}
        for v, g in x.alts:
            for (m, h), c in toR(v).items():
                k = (m, band(g, h))
                if k[1] is F:
                    continue
                t[k] = t.get(k, 0) + c
        return t
    raise Unsupported('toR(%r)' % (x,))


def radd(a, b, sb=1):
    t = dict(a)
    for k, c in b.items():
        n = t.get(k, 0) + sb * c
        if n == 0:
            t.pop(k, None)
        else:
            t[k] = n
    return t


def rmul(a, b):
    t = {}
    for (m1, g1), c1 in a.items():
        for (m2, g2), c2 in b.items():
            g = band(g1, g2)
            if g is F:
                continue
            k = (tuple(sorted(m1 + m2)), g)
            n = t.get(k, 0) + c1 * c2
            if n == 0:
                t.pop(k, None)
            else:
                t[k] = n
    return t


def rite(c, a, b):
    t = {}
    for k in set(a) | set(b):
        ca, cb = a.get(k, 0), b.get(k, 0)
        m, h = k
        if ca == cb:
            t[k] = t.get(k, 0) + ca
        else:
            if ca:
                kk = (m, band(c, h))
                if kk[1] is not F:
                    t[kk] = t.get(kk, 0) + ca
            if cb:
                kk = (m, band(bnot(c), h))
                if kk[1] is not F:
                    t[kk] = t.get(kk, 0) + cb
    return {k: v for k, v in t.items() if v != 0}


# ------------------------------------------------------------------ unions
def vkey(v):
    if isinstance(v, (bool, int, Fraction, float, str, bytes, type(None))):
        return (type(v).__name__, v)
    if isinstance(v, R):
        return ('R', v.key())
    if isinstance(v, tuple):
        return ('t',) + tuple(vkey(x) for x in v)
    k = getattr(v, '__vkey__', None)
    if k is not None:
        return k()
    return ('o', id(v))


class U:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __hash__(self):
        return id(self)

    def __vkey__(self):
        return ('U',) + tuple((vkey(v), g.id) for v, g in self.alts)

    def __add__(self, o): return arith('+', self, o)
    def __radd__(self, o): return arith('+', o, self)
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    def __mul__(self, o): return arith('*', self, o)
    def __rmul__(self, o): return arith('*', o, self)
    def __truediv__(self, o): return arith('/', self, o)
    def __rtruediv__(self, o): return arith('/', o, self)
    def __floordiv__(self, o): return arith('//', self, o)
    def __mod__(self, o): return arith('%', self, o)
    def __pow__(self, o): return arith('**', self, o)
    def __neg__(self): return arith('-', 0, self)
    def __abs__(self): return sabs(self)
    def __le__(self, o): return cmp('<=', self, o)
    def __lt__(self, o): return cmp('<', self, o)
    def __ge__(self, o): return cmp('>=', self, o)
    def __gt__(self, o): return cmp('>', self, o)
    def __eq__(self, o): return cmp('==', self, o)
    def __ne__(self, o): return cmp('!=', self, o)

    def __bool__(self):
        return bool(truth(self))

    def __index__(self):
        return CTX[0].concretize(self)

    def __int__(self):
        v = CTX[0].concretize(self)
        return int(v)

    def __repr__(self):
        return 'U{' + ', '.join('%r:%s' % (v, show_b(g, 2)) for v, g in self.alts[:8]) + '}'


def isnum(v):
    return isinstance(v, (bool, int, Fraction, R, B)) or (isinstance(v, float))


def mkU(pairs):
    """pairs: iterable of (value, guard) -> simplified value (maybe concrete / R / U)"""
    d = {}
    order = []
    for v, g in pairs:
        if g is F:
            continue
        if isinstance(v, U):
            for v2, g2 in v.alts:
                g3 = band(g, g2)
                if g3 is F:
                    continue
                k = vkey(v2)
                if k in d:
                    d[k] = (v2, bor(d[k][1], g3))
                else:
                    d[k] = (v2, g3)
        elif isinstance(v, B):
            raise Unsupported('B in U')
        else:
            k = vkey(v)
            if k in d:
                d[k] = (v, bor(d[k][1], g))
            else:
                d[k] = (v, g)
    alts = list(d.values())
    if len(alts) == 1:
        return alts[0][0]
    if not alts:
        raise Unsupported('empty union (infeasible guards)')
    anyR = any(isinstance(v, R) for v, g in alts)
    fin = [(v, g) for v, g in alts if isinstance(v, (bool, int, Fraction, R))]
    if anyR and len(fin) >= 1 and len(fin) != 0:
        infs = [(v, g) for v, g in alts if isinstance(v, float)]
        if len(fin) + len(infs) == len(alts):
            if len(fin) > 1:
                t = {}
                for v, g in fin:
                    for (m, h), c in toR(v).items():
                        k = (m, band(g, h))
                        if k[1] is F:
                            continue
                        t[k] = t.get(k, 0) + c
                r = mkR(t)
            else:
                r = fin[0][0]
            if not infs:
                return r
            gf = bor(*[g for v, g in fin])
            return U(infs + [(r, gf)])
    if len(alts) > CAP[0] and all(isinstance(v, (bool, int, Fraction)) for v, g in alts):
        if any(isinstance(v, Fraction) for v, g in alts):
            return mkR(toR(U(alts)))
    return U(alts)


CAP = [96]
CTX = [None]


def is_sym(v):
    return isinstance(v, (B, R, U))


def ite(c, a, b):
    """value-level if-then-else for scalars / objects"""
    if c is T or a is b:
        return a
    if c is F:
        return b
    if type(a) is type(b) and not is_sym(a):
        if isinstance(a, (bool, int, Fraction, str, float, type(None))) and a == b:
            return a
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        return bite(c, tob(a), tob(b))
    if isinstance(a, R) and isinstance(b, (R, int, Fraction)) or isinstance(b, R) and isinstance(a, (int, Fraction)):
        return mkR(rite(c, toR(a), toR(b)))
    if isinstance(a, B):
        a = b2u(a)
    if isinstance(b, B):
        b = b2u(b)
    if isinstance(a, bool) and not isinstance(b, bool) and isnum_like(b):
        a = int(a)
    if isinstance(b, bool) and not isinstance(a, bool) and isnum_like(a):
        b = int(b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    return mkU([(a, c), (b, bnot(c))])


def isnum_like(v):
    return isinstance(v, (int, Fraction, float, R)) or (isinstance(v, U) and all(isinstance(x, (int, Fraction, float, R)) for x, _ in v.alts))


def tob(x):
    if isinstance(x, B):
        return x
    return T if x else F


def b2u(b):
    if b is T:
        return 1
    if b is F:
        return 0
    return U([(1, b), (0, bnot(b))])


def tobool_val(x):
    return truth(x)


def truth(v):
    if isinstance(v, B):
        return v
    if isinstance(v, bool):
        return T if v else F
    if isinstance(v, R):
        return cmp('!=', v, Fraction(0))
    if isinstance(v, U):
        return bor(*[band(g, truth(x)) for x, g in v.alts])
    if v is None:
        return F
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.size == 1:
            return truth(v.reshape(-1)[0])
        raise Unsupported('truth of array')
    return T if v else F


def is_real(v):
    return isinstance(v, (Fraction, float, R)) or (isinstance(v, U) and any(is_real(x) for x, g in v.alts))


def _conc(op, a, b):
    """concrete arithmetic; ints stay ints; '/' gives Fraction (true division)"""
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if op in ('/', '//', '%'):
        if b == 0:
            return CTX[0].div_zero(a, b, op)
    if isinstance(a, float) and a not in (INF, -INF):
        a = Fraction(a) if a == a else a
    if isinstance(b, float) and b not in (INF, -INF):
        b = Fraction(b) if b == b else b
    if op == '+':
        r = a + b if not (isinstance(a, float) or isinstance(b, float)) else float(a) + float(b)
    elif op == '-':
        r = a - b if not (isinstance(a, float) or isinstance(b, float)) else float(a) - float(b)
    elif op == '*':
        r = a * b if not (isinstance(a, float) or isinstance(b, float)) else float(a) * float(b)
    elif op == '/':
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(b, float) and not isinstance(a, float):
                return Fraction(0)
            r = float(a) / float(b)
        else:
            r = Fraction(a) / Fraction(b)
    elif op == '//':
        r = a // b
    elif op == '%':
        r = a % b
    elif op == '**':
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
            if isinstance(a, int):
                a = Fraction(a)
        if isinstance(b, int):
            if b < 0:
                if a == 0:
                    return CTX[0].div_zero(a, b, op)
                r = Fraction(a) ** b
            else:
                r = a ** b
        else:
            r = CTX[0].opaque_pow(a, b)
    else:
        raise Unsupported('op ' + op)
    return r


def arith(op, a, b):
    if isinstance(a, B):
        a = b2u(a)
    if isinstance(b, B):
        b = b2u(b)
    sa, sb = isinstance(a, (R, U)), isinstance(b, (R, U))
    if not sa and not sb:
        if hasattr(a, '__array__') or hasattr(b, '__array__') or not (isnum(a) and isnum(b)):
            return NotImplemented
        return _conc(op, a, b)
    if op == '*' and sa and sb and CTX[0].lazydiv is not None and not CTX[0].infac:
        CTX[0].infac = True
        try:
            r = arith(op, a, b)
        finally:
            CTX[0].infac = False
        if isinstance(r, (R, U)):
            CTX[0].fac[vkey(r)] = (a, b)
        return r
    ua, ub = isinstance(a, U), isinstance(b, U)
    if (sa and not (sb or isnum(b))) or (sb and not (sa or isnum(a))):
        return NotImplemented
    # trivial identities
    if op == '*':
        if not sa and a == 0 and isinstance(a, (int, Fraction)):
            return Fraction(0) if (isinstance(a, Fraction) or is_real(b)) else 0
        if not sb and b == 0 and isinstance(b, (int, Fraction)):
            return Fraction(0) if (isinstance(b, Fraction) or is_real(a)) else 0
    if op == '/' and sb and CTX[0].lazydiv is not None:
        if not ub:
            u = r2u(b, 3)
            if u is not None and not isinstance(u, R):
                b = u
                ub = isinstance(b, U)
                if not ub:
                    return arith(op, a, b)
        if not any(isinstance(v, float) for x in (a, b) if isinstance(x, U) for v, g in x.alts):
            nz = CTX[0].nonzero(b)
            if nz and ub:
                b = mkU([(v, g) for v, g in b.alts if isinstance(v, R) or v != 0])
                ub = isinstance(b, U)
                if not ub and not isinstance(b, R):
                    return arith(op, a, b)
            na = len(a.alts) if ua else 99 if sa else 1
            nb = len(b.alts) if ub else 99
            if nb * na > CTX[0].lazydiv:
                return CTX[0].lazy_div(a, b, nz)
    if ua or ub:
        special = (ua and any(not isinstance(v, (int, Fraction, R)) for v, g in a.alts)) or (ub and any(not isinstance(v, (int, Fraction, R)) for v, g in b.alts))
        ra, rb = isinstance(a, R), isinstance(b, R)
        if not special and op in '+-*' and (ra or rb or (ua and ub and len(a.alts) * len(b.alts) > 4 * CAP[0])):
            return _rarith(op, a, b)
        A = a.alts if ua else [(a, T)]
        Bb = b.alts if ub else [(b, T)]
        if op in ('/', '//', '%') and ub:
            pass
        out = []
        for v, g in A:
            for w, h in Bb:
                gh = band(g, h)
                if gh is F:
                    continue
                with CTX[0].under(gh) as live:
                    if not live:
                        continue
                    out.append((arith(op, v, w), gh))
        return mkU(out)
    # at least one R, no U
    if op in ('+', '-', '*'):
        if isinstance(a, float) or isinstance(b, float):
            x = a if isinstance(a, float) else b
            if op == '+':
                return x
            if op == '-':
                return x if x is a else -x
            # inf * R : sign matters
            o = b if x is a else a
            return mkU([(x, cmp('>', o, Fraction(0))), (-x, cmp('<', o, Fraction(0))), (float('nan'), cmp('==', o, Fraction(0)))])
        return _rarith(op, a, b)
    if op == '/':
        if not isinstance(b, R):
            if isinstance(b, float):
                return Fraction(0)
            if b == 0:
                return CTX[0].div_zero(a, b, op)
            bi = 1 / Fraction(b)
            return mkR({k: c * bi for k, c in a.t.items()})
        u = r2u(b)
        if u is not None:
            return arith('/', a, u)
        return CTX[0].opaque_div(a, b)
    if op == '**':
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
        if isinstance(b, int) and b >= 0:
            r = Fraction(1)
            for _ in range(b):
                r = arith('*', r, a)
            return r
        return CTX[0].opaque_pow(a, b)
    raise Unsupported('arith %s on R' % op)


def _rarith(op, a, b):
    A, Bt = toR(a), toR(b)
    if op == '+':
        return mkR(radd(A, Bt))
    if op == '-':
        return mkR(radd(A, Bt, -1))
    if len(A) > 1 and len(Bt) > 1 and len(A) * len(Bt) > 40 and CTX[0].lazydiv is not None:
        return CTX[0].lazy_mul(mkR(A), mkR(Bt))
    return mkR(rmul(A, Bt))


def r2u(r, cap=None):
    """constant-monomial R -> U by enumerating guard combinations; None if not possible"""
    cap = cap or CAP[0]
    if any(m for (m, g) in r.t):
        return None
    cur = {Fraction(0): T}
    items = sorted(r.t.items(), key=lambda kv: kv[0][1].id)
    for (m, g), c in items:
        nxt = {}
        for v, h in cur.items():
            g1 = band(h, g)
            if g1 is not F:
                nxt[v + c] = bor(nxt[v + c], g1) if v + c in nxt else g1
            g2 = band(h, bnot(g))
            if g2 is not F:
                nxt[v] = bor(nxt[v], g2) if v in nxt else g2
        cur = nxt
        if len(cur) > cap:
            return None
    alts = [(v, g) for v, g in cur.items()]
    return alts[0][0] if len(alts) == 1 else U(alts)


def sabs(a):
    if not is_sym(a):
        return abs(a)
    if isinstance(a, B):
        return b2u(a)
    return ite(cmp('>=', a, 0), a, arith('-', 0, a))


_FLIP = {'<=': '>=', '<': '>', '>=': '<=', '>': '<', '==': '==', '!=': '!='}


def _ccmp(op, a, b):
    if op == '<=':
        return a <= b
    if op == '<':
        return a < b
    if op == '>=':
        return a >= b
    if op == '>':
        return a > b
    if op == '==':
        return a == b
    return a != b


def _guarded(cs):
    """disjunction of guard & condition; the guards are exclusive and exhaustive"""
    t = [g for c, g in cs if c is T]
    f = [g for c, g in cs if c is F]
    if len(t) + len(f) == len(cs) and len(f) < len(t):
        return bnot(bor(*f))
    return bor(*[band(g, c) for c, g in cs])


def cmp(op, a, b):
    """returns bool or B"""
    if isinstance(a, B) or isinstance(b, B):
        if isinstance(a, (B, bool)) and isinstance(b, (B, bool)) and op in ('==', '!='):
            a, b = tob(a), tob(b)
            r = bor(band(a, b), band(bnot(a), bnot(b)))
            return r if op == '==' else bnot(r)
        if isinstance(a, B):
            a = b2u(a)
        if isinstance(b, B):
            b = b2u(b)
    if not is_sym(a) and not is_sym(b):
        return _ccmp(op, a, b)
    if op in ('==', '!=') and CTX[0].lazydiv is not None and isinstance(a, (R, U)) and not is_sym(b) and b == 0 and CTX[0].fac:
        f = CTX[0].fac.get(vkey(a))
        if f is not None:
            r = band(tob(cmp('!=', f[0], Fraction(0))), tob(cmp('!=', f[1], Fraction(0))))
            return r if op == '!=' else bnot(r)
    if isinstance(a, U):
        cs = []
        for v, g in a.alts:
            c = cmp(op, v, b)
            if c is NotImplemented:
                return c
            cs.append((tob(c), g))
        return _guarded(cs)
    if isinstance(b, U):
        return _guarded([(tob(cmp(op, a, v)), g) for v, g in b.alts])
    # R involved
    if not (isnum(a) and isnum(b)):
        if op == '==':
            return F
        if op == '!=':
            return T
        return NotImplemented
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
        return T if op == '!=' else F
    for x, y, o in ((a, b, op), (b, a, _FLIP[op])):
        if isinstance(x, float) and x in (INF, -INF):
            # x o y with y finite
            return tob(_ccmp(o, x, 0))
    if op == '!=':
        return bnot(cmp('==', a, b))
    if op == '>=':
        return bnot(cmp('<', a, b))
    if op == '>':
        return bnot(cmp('<=', a, b))
    d = radd(toR(a), toR(b), -1)
    d = {k: c for k, c in d.items() if c != 0}
    return cmp0(op, d)


def cmp0(op, d):
    """d (<=,<,==) 0 with d dict form"""
    if all(g is T for (m, g) in d):
        const = d.get(((), T), Fraction(0))
        lin = sorted((m, c) for (m, g), c in d.items() if m != ())
        if not lin:
            return tob(_ccmp(op, const, 0))
        lead = lin[0][1]
        neg = lead < 0
        s = abs(lead)
        if neg:
            lhs = tuple((m, -c / s) for m, c in lin)
            rhs = const / s
            # lead<0 : -(lhs)*s + const <= 0  <=> lhs >= const/s
            if op == '<=':
                return bnot(B('lt', (lhs, rhs)))
            if op == '<':
                return bnot(B('le', (lhs, rhs)))
            return B('eq', (lhs, rhs))
        lhs = tuple((m, c / s) for m, c in lin)
        rhs = -const / s
        return B({'<=': 'le', '<': 'lt', '==': 'eq'}[op], (lhs, rhs))
    if all(m == () for (m, g) in d):
        u = r2u(R(d), 64 if CTX[0] is None or CTX[0].lazydiv is None else 8)
        if u is not None:
            return tob(cmp(op, u, Fraction(0)))
    r = R(d)
    key = r.key()
    o = _Rtab.get(key)
    if o is None:
        _Rtab[key] = o = r
    return B({'<=': 'le', '<': 'lt', '==': 'eq'}[op], (RKey(o), Fraction(0)))


_Rtab = {}


class RKey:
    __slots__ = ('r',)
    _t = {}

    def __new__(cls, r):
        o = cls._t.get(id(r))
        if o is None:
            o = object.__new__(cls)
            o.r = r
            cls._t[id(r)] = o
        return o

    def __hash__(self):
        return id(self.r)

    def __eq__(self, o):
        return isinstance(o, RKey) and self.r is o.r


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a <= b else b
    return ite(tob(cmp('<=', a, b)), a, b)


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a >= b else b
    return ite(tob(cmp('>=', a, b)), a, b)


def ssum(xs, start=0):
    r = start
    for x in xs:
        r = arith('+', r, x)
    return r


# ------------------------------------------------------------------ z3 translation
import z3 as _z3

_zv = {}


def zreal(name):
    v = _zv.get(name)
    if v is None:
        v = _zv[name] = _z3.Real(name)
    return v


def zq(c):
    return _z3.RealVal('%d/%d' % (c.numerator, c.denominator)) if c.denominator != 1 else _z3.RealVal(c.numerator)


def zmono(m):
    r = zreal(m[0])
    for v in m[1:]:
        r = r * zreal(v)
    return r


def zR(x):
    if isinstance(x, R):
        if x.z is not None:
            return x.z
        by = {}
        for (m, g), c in x.t.items():
            by.setdefault(g, []).append(zq(c) if m == () else (zmono(m) if c == 1 else zq(c) * zmono(m)))
        parts = []
        for g, ts in by.items():
            s = ts[0] if len(ts) == 1 else _z3.Sum(ts)
            parts.append(s if g is T else _z3.If(zB(g), s, zq(Fraction(0))))
        x.z = parts[0] if len(parts) == 1 else _z3.Sum(parts)
        return x.z
    if isinstance(x, U):
        if any(isinstance(v, float) for v, g in x.alts):
            raise Unsupported('zR of inf union')
        r = None
        for v, g in reversed(x.alts):
            r = zR(v) if r is None else _z3.If(zB(g), zR(v), r)
        return r
    if isinstance(x, B):
        return _z3.If(zB(x), zq(Fraction(1)), zq(Fraction(0)))
    return zq(Fraction(x))


def zB(b):
    if b.z is not None:
        return b.z
    # iterative to avoid deep recursion
    stack = [b]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop()
            continue
        if x.op == 'T':
            x.z = _z3.BoolVal(True)
        elif x.op == 'F':
            x.z = _z3.BoolVal(False)
        elif x.op == 'bv':
            x.z = _z3.Bool(x.args)
        elif x.op == 'not':
            if x.args.z is None:
                stack.append(x.args)
                continue
            x.z = _z3.Not(x.args.z)
        elif x.op == 'and':
            need = [y for y in x.args if y.z is None]
            if need:
                stack.extend(need)
                continue
            x.z = _z3.And([y.z for y in sorted(x.args, key=lambda q: q.id)])
        else:
            lhs, c = x.args
            if isinstance(lhs, RKey):
                # guards inside may be deep
                need = [g for (m, g) in lhs.r.t if g.z is None]
                if need:
                    stack.extend(need)
                    continue
                l = zR(lhs.r)
            else:
                ts = [zmono(m) if c2 == 1 else zq(c2) * zmono(m) for m, c2 in lhs]
                l = ts[0] if len(ts) == 1 else _z3.Sum(ts)
            r = zq(c)
            x.z = l <= r if x.op == 'le' else l < r if x.op == 'lt' else l == r
        stack.pop()
    return b.z


def reset_terms():
    """drop the hash-consing tables (between independent harness runs)"""
    for d in (B._tab, _and_cache, _or_cache, _Rtab, RKey._t, _zv):
        d.clear()
    B._tab[('T', ())] = T
    B._tab[('F', ())] = F
    B._cnt = 2


# ------------------------------------------------------------------ evaluation under a model (dict var->Fraction, bool name->bool)
def _mv(m, x, memo):
    """value of a real variable: quotient variables are computed from their operands"""
    qd = CTX[0].qdefs if CTX[0] is not None else None
    if qd and x in qd:
        k = ('q', x)
        if k not in memo:
            a, b, mul = qd[x]
            bv = evV(b, m, memo)
            memo[k] = Fraction(evV(a, m, memo)) * bv if mul else Fraction(evV(a, m, memo)) / bv if bv else Fraction(0)
        return memo[k]
    return m[x]


def evB(b, m, memo=None):
    memo = {} if memo is None else memo
    if b in memo:
        return memo[b]
    if b.op == 'T':
        r = True
    elif b.op == 'F':
        r = False
    elif b.op == 'bv':
        r = m[b.args]
    elif b.op == 'not':
        r = not evB(b.args, m, memo)
    elif b.op == 'and':
        r = all(evB(x, m, memo) for x in b.args)
    else:
        lhs, c = b.args
        if isinstance(lhs, RKey):
            l = evV(lhs.r, m, memo)
        else:
            l = Fraction(0)
            for mono, k in lhs:
                t = k
                for v in mono:
                    t *= _mv(m, v, memo)
                l += t
        r = l <= c if b.op == 'le' else l < c if b.op == 'lt' else l == c
    memo[b] = r
    return r


def evV(v, m, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, B):
        return evB(v, m, memo)
    if isinstance(v, R):
        s = Fraction(0)
        for (mono, g), c in v.t.items():
            if g is T or evB(g, m, memo):
                t = c
                for x in mono:
                    t *= _mv(m, x, memo)
                s += t
        return s
    if isinstance(v, U):
        for x, g in v.alts:
            if evB(g, m, memo):
                return evV(x, m, memo)
        return ('undefined',)
    if isinstance(v, tuple):
        return tuple(evV(x, m, memo) for x in v)
    if isinstance(v, list):
        return [evV(x, m, memo) for x in v]
    import numpy as np
    if isinstance(v, np.ndarray):
        return [evV(x, m, memo) for x in v]
    return v
