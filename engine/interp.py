"""Symbolic interpreter for the Cython / Python ASTs of the repository."""
from fractions import Fraction
import itertools, math, operator, os, traceback
import numpy as np
from .terms import *
from .ctx import *
from .ctx import _b, _strip
from . import front
from .front import parse_source

EXTERN = {'ULONG_MAX': 2**64 - 1, 'LONG_MAX': 2**63 - 1, 'LONG_MIN': -2**63, 'INT_MAX': 2**31 - 1, 'INT_MIN': -2**31, 'UINT_MAX': 2**32 - 1}
INTS = {'int', 'long', 'unsigned', 'bint', 'short', 'char', 'Py_ssize_t', 'size_t', 'longlong'}


DEBUG = bool(os.environ.get('VERIF_TB'))


class PyExc(Exception):
    """an exception raised by interpreted code"""
    def __init__(self, exc, where=None):
        Exception.__init__(self, repr(exc))
        self.exc, self.where = exc, where


# ------------------------------------------------------------------ C++ containers
class CSet:
    def __init__(self, d=None):
        self.d = dict(d or {})

    def copy(self):
        return CSet(self.d)

    def items_sorted(self):
        return sorted(self.d.items())


class CVec:
    """std::vector with value semantics; st is a tuple or a union of tuples"""
    ct = None

    def __init__(self, st=(), ct=None):
        self.st = st
        if ct is not None:
            self.ct = ct

    def copy(self):
        return CVec(self.st)

    def __repr__(self):
        return 'CVec%r' % (self.st,)


class VRef:
    """reference to a nested vector inside a CVec"""
    __slots__ = ('root', 'path', 'd')

    def __init__(self, root, path):
        self.root, self.path = root, path


class It:
    """iterator: pos is an index (vector), a key (set, 'first element >= key') or 'END'"""
    __slots__ = ('c', 'pos')

    def __init__(self, c, pos):
        self.c, self.pos = c, pos

    def cid(self):
        return (id(self.c.root), self.c.path) if isinstance(self.c, VRef) else id(self.c)

    def __vkey__(self):
        return ('it', self.cid(), self.pos)

    def __eq__(self, o):
        return isinstance(o, It) and self.cid() == o.cid() and self.pos == o.pos

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.pos)

    def __repr__(self):
        return 'It(%r)' % (self.pos,)


class Closure:
    def __init__(self, interp, mod, node, name, env=None, decls=None):
        self.interp, self.mod, self.node, self.name, self.env = interp, mod, node, name, env
        self.defaults = None
        self.cls = None
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.interp.call_closure(self, list(a), k)

    def __get__(self, obj, typ=None):
        return self


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_
        self.__name__ = getattr(fn, '__name__', '?')

    def __call__(self, *a, **k):
        return self.fn(self.self_, *a, **k)


class Cls:
    def __init__(self, name, bases, ns):
        self.name, self.bases, self.ns = name, bases, ns
        self.__name__ = name
        self.mod = None

    def lookup(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(n)
                if r is not ABSENT:
                    return r
        return ABSENT

    def __call__(self, *a, **k):
        o = SObj(self)
        init = self.lookup('__init__')
        if init is not ABSENT:
            init(o, *a, **k)
        return o


class SObj:
    def __init__(self, cls=None, **kw):
        self.__dict__['_c'] = cls
        self.__dict__['a'] = dict(kw)

    def __repr__(self):
        return '<SObj %s>' % (self._c.name if self._c else '')


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Mod:
    def __init__(self, name):
        self.name = name
        self.ns = {}
        self.is_pyx = False
        self.tree = None


class Opaque:
    """an imported thing the encoding does not model; calling or using it is an error of the check"""
    def __init__(self, name):
        self.__dict__['name'] = name

    def __call__(self, *a, **k):
        raise Unsupported('call of unmodelled %s' % self.name)

    def __repr__(self):
        return 'Opaque(%s)' % self.name


class Frame:
    __slots__ = ('mod', 'fn', 'v', 'ct', 'bounds', 'wrap', 'cdiv', 'pyx', 'parent', 'globals_')

    def __init__(self, mod, fn):
        self.mod, self.fn = mod, fn
        self.v = {}
        self.ct = {}
        self.bounds = True
        self.wrap = True
        self.cdiv = False
        self.pyx = mod.is_pyx
        self.parent = None
        self.globals_ = set()


# ------------------------------------------------------------------ C types
class CT:
    __slots__ = ('k', 'elem', 'ref', 'unsigned', 'nd', 'name', 'const', 'dim')

    def __init__(self, k, elem=None, unsigned=False, nd=0, name=None):
        self.k, self.elem, self.unsigned, self.nd, self.name = k, elem, unsigned, nd, name
        self.ref = False
        self.dim = None

    def __repr__(self):
        return 'CT(%s)' % self.k


def ctype(node):
    n = type(node).__name__
    if n == 'CSimpleBaseTypeNode':
        nm = node.name
        if nm is None:
            return None
        if nm == 'int' and getattr(node, 'longness', 0):
            nm = 'long'
        if node.is_basic_c_type or nm in ('double', 'float', 'int', 'long', 'bint', 'size_t', 'Py_ssize_t'):
            if nm in ('double', 'float'):
                return CT('f', name=nm)
            return CT('i', unsigned=(node.signed == 0 or nm == 'size_t'), name=nm)
        if node.module_path and nm.endswith('_t'):
            return CT('f' if 'float' in nm or 'double' in nm else 'i', name=nm)
        return CT('o', name=nm)
    if n == 'MemoryViewSliceTypeNode':
        return CT('mv', elem=ctype(node.base_type_node), nd=len(node.axes))
    if n == 'TemplatedTypeNode':
        b = node.base_type_node.name
        if b in ('vector', 'set'):
            return CT('vec' if b == 'vector' else 'set', elem=ctype(node.positional_args[0]))
        return CT('o', name=b)
    if n == 'CNestedBaseTypeNode':
        return CT('it', name=node.name)
    if n in ('CConstTypeNode', 'CConstOrVolatileTypeNode'):
        return ctype(node.base_type)
    if n == 'CComplexBaseTypeNode':
        return ctype(node.base_type)
    raise Unsupported('ctype ' + n)


def declname(d):
    ref = False
    dim = None
    while type(d).__name__ != 'CNameDeclaratorNode':
        t = type(d).__name__
        if t == 'CReferenceDeclaratorNode':
            ref = True
        elif t == 'CPtrDeclaratorNode':
            ref = True
        elif t == 'CArrayDeclaratorNode':
            dim = d.dimension
        d = d.base
    return d.name, ref, dim, d.default


# ------------------------------------------------------------------ interpreter
class Interp:
    def __init__(self, ctx, shims=None, overrides=None):
        from . import shims as SH
        self.c = ctx
        CTX[0] = ctx
        self.mods = {}
        self.SH = SH
        self.overrides = overrides or {}     # 'mod.fn' -> python callable
        self.shims = SH.make(self)
        if shims:
            self.shims.update(shims)
        self.depth = 0
        self.trace_pr = None
        self.forkat = getattr(ctx, 'forkat', None)
        if self.forkat is None:
            self.forkat = ctx.forkat = set()

    # ---------------------------------------------------------------- modules
    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        m = self.mods[name] = Mod(name)
        m.is_pyx = front.PATHS[name].endswith('.pyx')
        m.tree = _parsed(name)
        fr = Frame(m, None)
        fr.v = m.ns
        m.ns['__name__'] = name
        if m.is_pyx:
            m.ns.update(EXTERN)
        for st in m.tree.body.stats if type(m.tree.body).__name__ == 'StatListNode' else [m.tree.body]:
            self.mod_stmt(m, fr, st)
        for k, f in self.overrides.items():
            mn, fnm = k.rsplit('.', 1)
            if mn == name:
                m.ns[fnm] = f
        return m

    def mod_stmt(self, m, fr, st):
        t = type(st).__name__
        if t == 'StatListNode':
            for s in st.stats:
                self.mod_stmt(m, fr, s)
            return
        if t in ('CTypeDefNode', 'CDefExternNode', 'CImportStatNode', 'FromCImportStatNode'):
            return
        try:
            self.stmt(st, fr)
        except Unsupported as e:
            tgt = getattr(getattr(st, 'lhs', None), 'name', None)
            if tgt:
                m.ns[tgt] = Opaque(tgt)
        except ImportError:
            pass

    def imp(self, name, frm=None):
        """resolve an import"""
        if name in self.shims:
            return self.shims[name]
        if name in front.PATHS:
            return self.module(name)
        if 'acv_explainers.' + name in front.PATHS:
            return self.module('acv_explainers.' + name)
        if name == 'acv_explainers':
            return self.shims.get('acv_explainers') or Opaque(name)
        top = name.split('.')[0]
        if top in self.shims:
            return self.shims[top]
        return Opaque(name)

    def fn(self, mod, name):
        return self.getattr(self.module(mod), name)

    # ---------------------------------------------------------------- calls
    def call_closure(self, f, args, kwargs):
        if self.depth > 200:
            raise Unsupported('recursion depth')
        self.c.stats['calls'] += 1
        node, mod = f.node, f.mod
        self.c.fnset.add(mod.name + '.' + f.name)
        fr = Frame(mod, f)
        fr.parent = f.env
        t = type(node).__name__
        if t == 'CFuncDefNode':
            d = node.declarator
            while type(d).__name__ != 'CFuncDeclaratorNode':
                d = d.base
            argnodes = d.args
        else:
            argnodes = node.args
        if f.mod.is_pyx and t != 'LambdaNode':
            for dec_ in (getattr(node, 'decorators', None) or []):
                dd = dec_.decorator
                if type(dd).__name__ == 'SimpleCallNode' and type(dd.function).__name__ == 'AttributeNode':
                    v = getattr(dd.args[0], 'value', None)
                    if dd.function.attribute == 'boundscheck':
                        fr.bounds = v
                    elif dd.function.attribute == 'wraparound':
                        fr.wrap = v
                    elif dd.function.attribute == 'cdivision':
                        fr.cdiv = v
        if f.defaults is None:
            f.defaults = {}
            for i, a in enumerate(argnodes):
                df = getattr(a, 'default', None)
                nm, ref, dim, df2 = declname(a.declarator)
                df = df if df is not None else df2
                if df is not None:
                    dfr = Frame(mod, f)
                    dfr.parent = f.env
                    f.defaults[i] = self.ev(df, dfr)
        args = list(args)
        kwargs = dict(kwargs)
        star = getattr(node, 'star_arg', None)
        pos_i = 0
        for i, a in enumerate(argnodes):
            nm, ref, dim, _ = declname(a.declarator)
            ct = ctype(a.base_type) if a.base_type is not None else None
            if nm == '' and ct is not None:
                nm, ct = ct.name, None
            if getattr(a, 'kw_only', 0):
                if nm in kwargs:
                    v = kwargs.pop(nm)
                elif i in f.defaults:
                    v = f.defaults[i]
                else:
                    raise PyExc(TypeError('missing kw ' + nm))
            elif pos_i < len(args):
                v = args[pos_i]
                pos_i += 1
                if nm in kwargs:
                    raise PyExc(TypeError('multiple values for argument ' + nm))
            elif nm in kwargs:
                v = kwargs.pop(nm)
            elif i in f.defaults:
                v = f.defaults[i]
            else:
                raise PyExc(TypeError('%s() missing argument %s' % (f.name, nm)))
            if ct is not None:
                ct.ref = ref
                fr.ct[nm] = ct
                if ct.k in ('vec', 'set') and isinstance(v, (CSet, CVec, VRef)):
                    v = v if ref else self.ccopy(v)
                else:
                    v = self.coerce(v, ct)
            fr.v[nm] = v
        if pos_i < len(args):
            if star is None:
                raise PyExc(TypeError('%s() takes %d positional arguments but %d were given' % (f.name, pos_i, len(args))))
            fr.v[star.name] = tuple(args[pos_i:])
        elif star is not None:
            fr.v[star.name] = ()
        ss = getattr(node, 'starstar_arg', None)
        if ss is not None:
            fr.v[ss.name] = kwargs
        elif kwargs:
            raise PyExc(TypeError('%s() got an unexpected keyword argument %s' % (f.name, list(kwargs))))
        self.depth += 1
        try:
            if t == 'LambdaNode':
                return self.ev(node.result_expr, fr)
            if t == 'GenLambda':
                return node.run(fr)
            fl = self.block(node.body, fr)
        finally:
            self.depth -= 1
        rv = fr.v.get('#ret', None)
        if t == 'CFuncDefNode':
            rt = ctype(node.base_type)
            if rt is not None and rt.k in ('f', 'i'):
                if rv is None:
                    rv = 0
                rv = self.coerce(rv, rt)
        return rv

    def ccopy(self, v):
        if isinstance(v, CSet):
            return v.copy()
        if isinstance(v, CVec):
            return v.copy()
        if isinstance(v, VRef):
            return CVec(self.vstate(v))
        return v

    def coerce(self, v, ct):
        k = ct.k
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.reshape(-1)[0]
        if k == 'f':
            return cast(v, 'f')
        if k == 'i':
            if v is POISON:
                return v
            if ct.name == 'bint':
                b = truth(v)
                return b2u(b)
            if isinstance(v, np.ndarray) or isinstance(v, (list, str)):
                raise PyExc(TypeError('an integer is required'))
            if v is None:
                raise PyExc(TypeError('an integer is required'))
            if isinstance(v, R):
                v = cast(v, 'i')
            v = cast(v, 'i')
            if ct.unsigned:
                if isinstance(v, int) and v < 0:
                    return v % (1 << (64 if ct.name in ('long', 'size_t') else 32))
                if isinstance(v, U) and any(x < 0 for x, g in v.alts):
                    w = 1 << (64 if ct.name in ('long', 'size_t') else 32)
                    return mkU([(x % w, g) for x, g in v.alts])
            return v
        if k == 'mv':
            if v is None or v is POISON:
                return v
            if isinstance(v, U):
                return v
            if not isinstance(v, np.ndarray):
                raise PyExc(TypeError('a bytes-like object is required, not %s' % type(v).__name__))
            if v.ndim != ct.nd:
                raise PyExc(ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (ct.nd, v.ndim)))
            if isinstance(v, SArr) and ct.elem is not None and v.k in 'fi' and ct.elem.k in 'fi' and v.k != ct.elem.k:
                raise PyExc(ValueError("Buffer dtype mismatch, expected '%s' but got %s" % (ct.elem.name, v.k)))
            cdt = getattr(v, 'cdt', None)
            if cdt is not None and ct.elem is not None and ct.elem.name in ('int', 'long', 'double') and cdt != ct.elem.name:
                raise PyExc(ValueError("Buffer dtype mismatch, expected '%s' but got '%s'" % (ct.elem.name, cdt)))
            return v
        if k == 'vec':
            return self.tovec(v, ct)
        if k == 'set':
            if isinstance(v, CSet):
                return v.copy()
            return CSet({int(x): T for x in v})
        return v

    def vecval(self, v, ct):
        """value stored inside a vector of element type ct"""
        if ct is not None and ct.k == 'vec':
            if isinstance(v, CVec):
                return v.st
            if isinstance(v, VRef):
                return self.vstate(v)
            if isinstance(v, (U,)):
                return mkU([(self.vecval(x, ct), g) for x, g in v.alts])
            if isinstance(v, tuple):
                return tuple(self.vecval(x, ct.elem) for x in v)
            return tuple(self.vecval(x, ct.elem) for x in v)
        if ct is not None and ct.k in 'fi':
            return self.coerce(v, ct)
        if isinstance(v, (CVec, VRef)):
            return self.vstate(v)
        return v

    def tovec(self, v, ct):
        if isinstance(v, (CVec, VRef)):
            return CVec(self.vstate(v), ct)
        if isinstance(v, (list, tuple, np.ndarray)):
            return CVec(tuple(self.vecval(x, ct.elem) for x in v), ct)
        raise PyExc(TypeError('cannot convert %s to vector' % type(v).__name__))

    # ---------------------------------------------------------------- vector state access
    def vstate(self, v):
        if isinstance(v, CVec):
            return self.c.simp(v.st) if isinstance(v.st, U) else v.st
        st = self.vstate(v.root)
        for p in v.path:
            st = self.vidx(st, p)
        return st

    def vidx(self, st, i):
        if isinstance(st, U):
            out = []
            for x, g in st.alts:
                with self.c.under(g) as live:
                    if live:
                        out.append((self.vidx(x, i), g))
            return self.mku_obj(out)
        if isinstance(i, U):
            out = []
            for x, g in self.c.simp(i).alts if isinstance(self.c.simp(i), U) else [(self.c.simp(i), T)]:
                with self.c.under(g) as live:
                    if live:
                        out.append((self.vidx(st, x), g))
            return self.mku_obj(out)
        i = int(i)
        if i < 0 or i >= len(st):
            self.c.event('oob')
            return self.havoc(st)
        return st[i]

    def havoc(self, st=None):
        # garbage read: value of the same sort when it can be told, else 0
        return Fraction(0) if st and isinstance(st[0], (Fraction, R)) else () if st and isinstance(st[0], tuple) else 0

    def mku_obj(self, out):
        if not out:
            return 0
        r = out[0][0]
        for v, g in out[1:]:
            r = merge_vals(g, v, r) if v is not r else r
        return r

    def vset(self, v, new):
        """replace the state of vector v (root or nested ref) by new"""
        if isinstance(v, CVec):
            self.c.write('V', v, None, new)
            return
        root = v.root
        self.c.write('V', root, None, self.vput(self.vstate(root), v.path, new))

    def vput(self, st, path, new):
        if not path:
            return new
        if isinstance(st, U):
            out = []
            for x, g in st.alts:
                with self.c.under(g) as live:
                    if live:
                        out.append((self.vput(x, path, new), g))
            return self.mku_obj(out)
        i = path[0]
        if isinstance(i, U):
            r = st
            for x, g in i.alts:
                with self.c.under(g) as live:
                    if live:
                        n = self.vput(st, (x,) + tuple(path[1:]), new)
                        r = merge_vals(g, n, r)
            return r
        if i < 0 or i >= len(st):
            self.c.event('oob')
            return st
        return st[:i] + (self.vput(st[i], path[1:], new),) + st[i + 1:]

    def vmap(self, v, f):
        """apply a tuple->tuple function to the state"""
        st = self.vstate(v)
        if isinstance(st, U):
            out = []
            for x, g in st.alts:
                with self.c.under(g) as live:
                    if live:
                        out.append((f(x), g))
            self.vset(v, self.mku_obj(out))
        else:
            self.vset(v, f(st))

    # ---------------------------------------------------------------- statements
    def block(self, node, fr):
        if type(node).__name__ == 'StatListNode':
            return self.stats(node.stats, 0, fr)
        return self.stats([node], 0, fr)

    def stats(self, ss, i, fr):
        c = self.c
        n = len(ss)
        while i < n:
            st = ss[i]
            i += 1
            t = type(st).__name__
            if t == 'StatListNode':
                fl = self.stats(st.stats, 0, fr)
            elif t == 'IfStatNode':
                fl, done = self.s_if(st, fr, ss, i)
                if done:
                    return fl
            else:
                self.c.where = (fr.mod.name, st.pos[1] if st.pos else 0)
                fl = self.stmt(st, fr)
            if fl is FN or fl is None or fl.n is T:
                continue
            if fl.n is F:
                return fl
            if i >= n:
                return fl
            return self.seq(fl, lambda: self.stats(ss, i, fr), st)
        return FN

    def seq(self, fl, rest, site):
        """run rest under fl.n and combine"""
        g = fl.n
        r = self.branch(g, rest, site)
        return Flow(band(g, r.n), bor(fl.b, band(g, r.b)), bor(fl.c, band(g, r.c)), bor(fl.r, band(g, r.r)))

    def branch(self, g, f, site):
        """run f() under guard g; merge with the unchanged state otherwise"""
        c = self.c
        if g is T:
            return f()
        mark = c.begin(g)
        if c.pc is F:
            c.end(mark)
            return FN
        if site is not None and site in self.forkat:
            c.end(mark)
            if c.decide(g):
                return f()
            return FN
        try:
            r = f()
        except PyExc:
            if site is None:
                raise Unsupported('exception under a symbolic guard')
            self.forkat.add(site)
            raise Restart()
        w = c.end(mark)
        self.merge(g, w, {}, site)
        return r

    def merge(self, g, w1, w2, site):
        try:
            self.c.merge(g, w1, w2)
        except NeedFork:
            if site is None:
                raise Unsupported('merge of unmergeable states')
            self.forkat.add(site)
            raise Restart()

    def s_if(self, st, fr, ss, i):
        """returns (flow, rest_done)"""
        return self.if_clauses(st, st.if_clauses, 0, st.else_clause, fr, ss, i)

    def if_clauses(self, st, cl, k, els, fr, ss, i):
        c = self.c
        if k == len(cl):
            if els is None:
                return FN, False
            return self.block(els, fr), False
        self.c.where = (fr.mod.name, cl[k].pos[1])
        cond = c.simp(truth_(self, self.ev(cl[k].condition, fr)))
        if cond is not T and cond is not F and st in self.forkat:
            cond = T if c.decide(cond) else F
        if cond is T:
            return self.block(cl[k].body, fr), False
        if cond is F:
            return self.if_clauses(st, cl, k + 1, els, fr, ss, i)
        if c.prune:
            r = c.check([c.pc, cond])
            if str(r) == 'unsat':
                return self.if_clauses(st, cl, k + 1, els, fr, ss, i)
            r = c.check([c.pc, bnot(cond)])
            if str(r) == 'unsat':
                return self.block(cl[k].body, fr), False
        nc = bnot(cond)
        try:
            m = c.begin(cond)
            fa = self.block(cl[k].body, fr) if c.pc is not F else FN
            wa = c.end(m)
            m = c.begin(nc)
            if c.pc is not F:
                fb, d = self.if_clauses(st, cl, k + 1, els, fr, ss, i)
            else:
                fb = FN
            rest = i < len(ss)
            if rest and fa.n is F and fb.n is not F:
                # the rest runs only in the else side: keep it inside that branch
                if fb.n is T:
                    fb = self.stats(ss, i, fr)
                else:
                    fb = self.seq(fb, lambda: self.stats(ss, i, fr), st)
                wb = c.end(m)
                self.merge(cond, wa, wb, st)
                return self.fmix(cond, fa, fb), True
            wb = c.end(m)
            if rest and fb.n is F and fa.n is not F:
                m = c.reopen(cond, wa)
                if fa.n is T:
                    fa = self.stats(ss, i, fr)
                else:
                    fa = self.seq(fa, lambda: self.stats(ss, i, fr), st)
                wa = c.end(m)
                self.merge(cond, wa, wb, st)
                return self.fmix(cond, fa, fb), True
        except PyExc:
            self.forkat.add(st)
            raise Restart()
        self.merge(cond, wa, wb, st)
        return self.fmix(cond, fa, fb), False

    def fmix(self, c, a, b):
        if a is FN and b is FN:
            return FN
        return Flow(bite(c, a.n, b.n), bite(c, a.b, b.b), bite(c, a.c, b.c), bite(c, a.r, b.r))

    def stmt(self, st, fr):
        m = _STMT.get(type(st).__name__)
        if m is None:
            raise Unsupported('statement %s at %s:%s' % (type(st).__name__, fr.mod.name, st.pos[1] if st.pos else '?'))
        return m(self, st, fr)

    def st_list(self, st, fr):
        return self.stats(st.stats, 0, fr)

    def st_if(self, st, fr):
        fl, done = self.s_if(st, fr, [], 0)
        return fl

    def st_expr(self, st, fr):
        self.ev(st.expr, fr)
        return FN

    def st_assign(self, st, fr):
        v = self.ev(st.rhs, fr)
        self.assign(st.lhs, v, fr)
        return FN

    def st_cascade(self, st, fr):
        v = self.ev(st.rhs, fr)
        for l in st.lhs_list:
            self.assign(l, v, fr)
        return FN

    def st_inplace(self, st, fr):
        op = st.operator
        l = st.lhs
        t = type(l).__name__
        rhs = self.ev(st.rhs, fr)
        if t == 'NameNode':
            cur = self.ev(l, fr)
            if isinstance(cur, list) and op == '+':
                self.c.snapshot_list(cur)
                cur.extend(rhs)
                return FN
            if isinstance(cur, np.ndarray) and l.name not in fr.ct:
                v = self.binop(op, cur, rhs, l, st.rhs, fr)
                self.setslice(cur, (Ellipsis,), v, fr)
                return FN
            v = self.binop(op, cur, rhs, l, st.rhs, fr)
            self.assign(l, v, fr)
        elif t == 'IndexNode':
            base = self.ev(l.base, fr)
            idx = self.ev(l.index, fr)
            cur = self.getitem(base, idx, fr)
            v = self.binop(op, cur, rhs, l, st.rhs, fr)
            self.setitem(base, idx, v, fr)
        elif t == 'SliceIndexNode':
            base = self.ev(l.base, fr)
            sl = slice(self.ev(l.start, fr) if l.start else None, self.ev(l.stop, fr) if l.stop else None)
            v = self.binop(op, self.getitem(base, sl, fr), rhs, l, st.rhs, fr)
            self.setitem(base, sl, v, fr)
        elif t == 'AttributeNode':
            o = self.ev(l.obj, fr)
            cur = self.getattr(o, l.attribute)
            self.setattr(o, l.attribute, self.binop(op, cur, rhs, l, st.rhs, fr))
        else:
            raise Unsupported('inplace ' + t)
        return FN

    def assign(self, l, v, fr):
        t = type(l).__name__
        if t == 'NameNode':
            self.setname(l.name, v, fr)
        elif t == 'IndexNode':
            base = self.ev(l.base, fr)
            idx = self.ev(l.index, fr)
            self.setitem(base, idx, v, fr)
        elif t == 'SliceIndexNode':
            base = self.ev(l.base, fr)
            sl = slice(self.ev(l.start, fr) if l.start else None, self.ev(l.stop, fr) if l.stop else None)
            self.setitem(base, sl, v, fr)
        elif t == 'AttributeNode':
            self.setattr(self.ev(l.obj, fr), l.attribute, v)
        elif t in ('TupleNode', 'ListNode'):
            vs = self.iterate(v)
            stars = [i for i, a in enumerate(l.args) if type(a).__name__ == 'StarredUnpackingNode']
            if stars:
                i = stars[0]
                k = len(vs) - (len(l.args) - i - 1)
                vs = vs[:i] + [list(vs[i:k])] + vs[k:]
                tg = [a.target if type(a).__name__ == 'StarredUnpackingNode' else a for a in l.args]
            else:
                tg = l.args
            if len(vs) != len(tg):
                raise PyExc(ValueError('not enough/too many values to unpack'))
            for a, x in zip(tg, vs):
                self.assign(a, x, fr)
        else:
            raise Unsupported('assign to ' + t)

    def setname(self, n, v, fr):
        ct = fr.ct.get(n)
        if ct is not None:
            if ct.k in ('vec', 'set'):
                cur = fr.v.get(n)
                # value assignment copies into the existing container object
                if ct.k == 'vec':
                    nv = self.tovec(v, ct)
                    if isinstance(cur, (CVec, VRef)):
                        self.vset(cur, nv.st)
                        return
                    v = nv
                else:
                    nv = self.coerce(v, ct)
                    if isinstance(cur, CSet):
                        for e in list(cur.d):
                            if e not in nv.d:
                                self.c.write('S', cur, e, F)
                        for e, g in nv.d.items():
                            self.c.write('S', cur, e, g)
                        return
                    v = nv
            else:
                v = self.coerce(v, ct)
        f = fr
        if n in fr.globals_:
            self.c.write('D', fr.mod.ns, n, v)
            return
        self.c.write('D', f.v, n, v)

    def st_cvar(self, st, fr):
        ct0 = ctype(st.base_type)
        for d in st.declarators:
            if type(d).__name__ == 'CFuncDeclaratorNode':
                continue
            nm, ref, dim, df = declname(d)
            if ct0 is None or ct0.k == 'o':
                if ct0 is not None and ct0.name == 'iter':
                    pass
                if df is not None:
                    self.c.write('D', fr.v, nm, self.ev(df, fr))
                continue
            ct = CT(ct0.k, ct0.elem, ct0.unsigned, ct0.nd, ct0.name)
            if ct.k == 'it':
                fr.v[nm] = fr.v.get(nm, POISON)
                if df is not None:
                    self.c.write('D', fr.v, nm, self.ev(df, fr))
                continue
            if dim is not None:
                n = int(self.ev(dim, fr))
                self.c.write('D', fr.v, nm, mkarr((n,), POISON, ct.k))
                continue
            fr.ct[nm] = ct
            if df is not None:
                v = self.ev(df, fr)
                self.c.write('D', fr.v, nm, self.coerce(v, ct))
            elif ct.k == 'vec':
                self.c.write('D', fr.v, nm, CVec((), ct))
            elif ct.k == 'set':
                self.c.write('D', fr.v, nm, CSet())
            else:
                if nm not in fr.v:
                    fr.v[nm] = POISON
        return FN

    def st_return(self, st, fr):
        v = None if st.value is None else self.ev(st.value, fr)
        if isinstance(v, (CVec, CSet, VRef)) and fr.pyx:
            v = self.ccopy(v)
            rt = None
            nd = fr.fn.node
            if type(nd).__name__ == 'CFuncDefNode':
                rt = ctype(nd.base_type)
            if rt is None or rt.k == 'o':
                v = self.topy(v)
        self.c.write('D', fr.v, '#ret', v)
        return FR

    def topy(self, v):
        """C++ container -> python object"""
        if isinstance(v, (CVec, VRef)):
            st = self.vstate(v)
            if isinstance(st, U):
                st = self.c.concretize(st)
            return [self.topy(x) if isinstance(x, tuple) else x for x in st]
        if isinstance(v, tuple):
            return [self.topy(x) if isinstance(x, tuple) else x for x in v]
        if isinstance(v, CSet):
            return {k for k, g in v.d.items() if self.c.decide(g)}
        return v

    def st_for(self, st, fr):
        seq = st.iterator.sequence
        t = type(seq).__name__
        if t in ('SimpleCallNode', 'GeneralCallNode') and type(seq.function).__name__ == 'NameNode' and seq.function.name == 'prange' and fr.pyx:
            return self.prange(st, seq, fr)
        items = self.items(self.ev(seq, fr))
        fl = self.loop(items, 0, st, fr)
        if st.else_clause is not None:
            raise Unsupported('for-else')
        return fl

    def items(self, v):
        """list of (value, presence guard)"""
        v = self.c.simp(v) if isinstance(v, U) else v
        if isinstance(v, SymRange):
            return v.items()
        if isinstance(v, CSet):
            return [(e, g) for e, g in v.items_sorted()]
        if isinstance(v, (CVec, VRef)):
            st = self.vstate(v)
            if isinstance(st, U):
                n = max(len(x) for x, g in st.alts)
                out = []
                for k in range(n):
                    g = bor(*[g for x, g in st.alts if len(x) > k])
                    with self.c.under(g):
                        out.append((self.vidx(U([(x, h) for x, h in st.alts if len(x) > k]), k), g))
                return out
            return [(VRef(v if isinstance(v, CVec) else v.root, (() if isinstance(v, CVec) else v.path) + (k,)) if isinstance(x, tuple) else x, T) for k, x in enumerate(st)]
        return [(x, T) for x in self.iterate(v)]

    def iterate(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, np.ndarray):
            return [v[i] for i in range(v.shape[0])]
        if isinstance(v, U):
            v = self.c.concretize(v)
            return self.iterate(v)
        if isinstance(v, (CVec, CSet, VRef, SymRange)):
            it = self.items(v)
            for x, g in it:
                if g is not T:
                    self_dec = [x2 for x2, g2 in it if self.c.decide(g2)]
                    return self_dec
            return [x for x, g in it]
        if isinstance(v, SObj):
            raise Unsupported('iterating an object')
        if v is None or isinstance(v, (int, Fraction, B, R)):
            raise PyExc(TypeError('%r object is not iterable' % type(v).__name__))
        return list(v)

    def loop(self, items, i, st, fr):
        c = self.c
        tgt = st.target
        n = len(items)
        while i < n:
            x, g = items[i]
            i += 1

            def body():
                self.assign(tgt, x, fr)
                return self.block(st.body, fr)
            g = c.simp(g)
            if g is F:
                continue
            if g is T:
                f = body()
            else:
                r = self.branch(g, body, st)
                f = Flow(bor(bnot(g), r.n), band(g, r.b), band(g, r.c), band(g, r.r)) if r is not FN else FN
            if f is FN:
                continue
            alive = bor(f.n, f.c)
            if alive is T:
                continue
            if alive is F:
                return Flow(f.b, F, F, f.r) if f.r is not T else FR
            if i >= n:
                return Flow(bnot(f.r), F, F, f.r)
            r = self.branch(alive, lambda: self.loop(items, i, st, fr), st)
            rr = bor(f.r, band(alive, r.r))
            return Flow(bnot(rr), F, F, rr)
        return FN

    def st_while(self, st, fr):
        return self.wloop(st, fr, 0)

    def wloop(self, st, fr, k):
        c = self.c
        while True:
            if k > c.max_unwind:
                # unwinding assertion
                c.event('unwind', (fr.mod.name, st.pos[1]))
                return FN
            k += 1
            self.c.where = (fr.mod.name, st.pos[1])
            itn = self.iter_cond(st.condition, fr)
            if itn is not None:
                nm, it, S = itn
                e, g, nxt = self.set_next(S, it.pos)
                if e is None:
                    self.setname(nm, It(S, 'END'), fr)
                    return FN
                g = c.simp(g)
                if g is F:
                    self.setname(nm, It(S, nxt), fr)
                    continue
                self.setname(nm, It(S, e), fr)
                if g is T:
                    f = self.block(st.body, fr)
                else:
                    m = c.begin(g)
                    try:
                        r = self.block(st.body, fr) if c.pc is not F else FN
                    except PyExc:
                        raise Unsupported('exception under a symbolic guard')
                    wa = c.end(m)
                    m = c.begin(bnot(g))
                    self.setname(nm, It(S, nxt), fr)
                    wb = c.end(m)
                    self.merge(g, wa, wb, st)
                    f = Flow(bor(bnot(g), r.n), band(g, r.b), band(g, r.c), band(g, r.r)) if r is not FN else FN
            else:
                cond = c.simp(truth_(self, self.ev(st.condition, fr)))
                if cond is F:
                    return FN
                if cond is not T:
                    if st in self.forkat or k > 6:
                        # beyond a few merged unrollings, fork
                        if not c.decide(cond):
                            return FN
                        f = self.block(st.body, fr)
                    else:
                        kk = k

                        def rest():
                            f0 = self.block(st.body, fr)
                            al = bor(f0.n, f0.c)
                            if al is F:
                                return Flow(f0.b, F, F, f0.r)
                            if al is T:
                                return self.wloop(st, fr, kk)
                            r0 = self.branch(al, lambda: self.wloop(st, fr, kk), st)
                            rr0 = bor(f0.r, band(al, r0.r))
                            return Flow(bnot(rr0), F, F, rr0)
                        r = self.branch(cond, rest, st)
                        rr = band(cond, r.r)
                        return Flow(bnot(rr), F, F, rr)
                else:
                    f = self.block(st.body, fr)
            if f is FN:
                continue
            alive = bor(f.n, f.c)
            if alive is T:
                continue
            if alive is F:
                return Flow(f.b, F, F, f.r) if f.r is not T else FR
            kk2 = k
            r = self.branch(alive, lambda: self.wloop(st, fr, kk2), st)
            rr = bor(f.r, band(alive, r.r))
            return Flow(bnot(rr), F, F, rr)

    def iter_cond(self, cond, fr):
        """`it != S.end()` over a set with `it` a plain set position -> (name, It, set)"""
        if type(cond).__name__ != 'PrimaryCmpNode' or cond.operator != '!=' or cond.cascade:
            return None
        a, b = cond.operand1, cond.operand2
        for x, y in ((a, b), (b, a)):
            if type(x).__name__ == 'NameNode' and type(y).__name__ == 'SimpleCallNode' and type(y.function).__name__ == 'AttributeNode' and y.function.attribute == 'end':
                it = fr.v.get(x.name)
                it = self.c.simp(it) if isinstance(it, U) else it
                if isinstance(it, It) and isinstance(it.c, CSet):
                    S = self.ev(y.function.obj, fr)
                    if S is it.c:
                        return x.name, it, S
        return None

    def set_next(self, S, pos):
        if pos == 'END':
            return None, None, None
        ks = [k for k in sorted(S.d) if (pos == 'BEG' or k >= pos) and S.d[k] is not F]
        if not ks:
            return None, None, None
        return ks[0], S.d[ks[0]], (ks[1] if len(ks) > 1 else 'END')

    def set_after(self, S, e):
        ks = [k for k in sorted(S.d) if k > e and S.d[k] is not F]
        return ks[0] if ks else 'END'

    def prange(self, st, call, fr):
        args, kw = self.callargs(call, fr)
        a = [self.c.simp(x) for x in args]
        if any(isinstance(x, U) for x in a):
            rng = SymRange(self, *a)
            items = rng.items()
        else:
            items = [(i, T) for i in range(*[int(x) for x in a])]
        names, inplace = assigned(st.body)
        tn = st.target.name
        priv = [n for n in names if n not in inplace and n != tn]
        rec = None
        if self.c.access is None and getattr(self.c, 'races', None) is not None:
            rec = self.c.access = []
        for x, g in items:
            for n in priv:
                ct = fr.ct.get(n)
                if ct is None or ct.k in ('f', 'i'):
                    if n in fr.v:
                        self.c.write('D', fr.v, n, POISON)
            if rec is not None:
                rec.append({})
            one = [(x, g)]
            f = self.loop(one, 0, st, fr)
            if f is not FN and f.r is not F:
                raise Unsupported('return inside prange')
        if rec is not None:
            self.c.races.append(((fr.mod.name, st.pos[1]), fr.fn.name if fr.fn else '?', rec))
            self.c.access = None
        return FN

    def st_break(self, st, fr):
        return FB

    def st_continue(self, st, fr):
        return FC

    def st_pass(self, st, fr):
        return FN

    def st_gil(self, st, fr):
        return self.block(st.body, fr)

    def st_def(self, st, fr):
        nm = st.name if hasattr(st, 'name') and isinstance(st.name, str) else declname_fn(st.declarator)
        f = Closure(self, fr.mod, st, nm, env=fr if fr.fn is not None else None)
        f.cls = fr.ct.get('#class')
        decs = [d.decorator for d in (getattr(st, 'decorators', None) or [])]
        v = f
        for d in decs:
            if type(d).__name__ == 'NameNode' and d.name in ('staticmethod', 'classmethod', 'property'):
                v = (d.name, v)
        self.c.write('D', fr.v, nm, v)
        return FN

    def st_class(self, st, fr):
        bases = []
        if st.bases is not None:
            for b in st.bases.args:
                try:
                    bases.append(self.ev(b, fr))
                except (Unsupported, PyExc):
                    pass
        cls = Cls(st.name, bases, {})
        cls.mod = fr.mod.name
        cf = Frame(fr.mod, None)
        cf.v = cls.ns
        cf.ct['#class'] = cls
        body = st.body.stats if type(st.body).__name__ == 'StatListNode' else [st.body]
        for s in body:
            try:
                self.stmt(s, cf)
            except Unsupported:
                pass
        self.c.write('D', fr.v, st.name, cls)
        return FN

    def st_import_from(self, st, fr):
        mn = st.module.module_name.value
        m = self.imp(mn)
        for nm, target in st.items:
            tn = target.name if hasattr(target, 'name') else nm
            if nm == '*':
                if isinstance(m, Mod):
                    for k, v in m.ns.items():
                        if not k.startswith('_'):
                            fr.v[k] = v
                elif isinstance(m, self.SH.Shim):
                    for k, v in m.ns.items():
                        fr.v[k] = v
                continue
            sub = mn + '.' + nm
            if sub in front.PATHS or sub in self.shims:
                v = self.imp(sub)
            else:
                try:
                    v = self.getattr(m, nm)
                except (Unsupported, PyExc, AttributeError):
                    v = Opaque(sub)
            fr.v[tn] = v
        return FN

    def st_try(self, st, fr):
        c = self.c
        mark_pc = len(c.pcs)
        logn = len(c.log)
        try:
            fl = self.block(st.body, fr)
            return fl
        except (Restart, Unsupported, NeedFork):
            raise
        except Exception as e:
            if len(c.pcs) != mark_pc:
                raise
            exc = e.exc if isinstance(e, PyExc) else e
            for cl in st.except_clauses:
                if cl.pattern is None or self.matches(exc, cl.pattern, fr):
                    if cl.target is not None:
                        self.assign(cl.target, exc, fr)
                    return self.block(cl.body, fr)
            raise

    def matches(self, exc, pats, fr):
        for p in pats if isinstance(pats, list) else [pats]:
            try:
                t = self.ev(p, fr)
            except (Unsupported, PyExc):
                continue
            if isinstance(t, type) and isinstance(exc, t):
                return True
            if isinstance(t, tuple) and any(isinstance(x, type) and isinstance(exc, x) for x in t):
                return True
        return False

    def st_tryfin(self, st, fr):
        try:
            fl = self.block(st.body, fr)
        finally:
            self.block(st.finally_clause, fr)
        return fl

    def st_raise(self, st, fr):
        v = self.ev(st.exc_type, fr) if st.exc_type is not None else RuntimeError('re-raise')
        if isinstance(v, type):
            v = v()
        if st.exc_value is not None:
            try:
                v = self.ev(st.exc_type, fr)(self.ev(st.exc_value, fr))
            except TypeError:
                pass
        self.raise_(PyExc(v if isinstance(v, BaseException) else Exception(str(v)), self.c.where))

    def raise_(self, e):
        raise e

    def st_assert(self, st, fr):
        v = truth_(self, self.ev(st.cond, fr))
        v = self.c.simp(v)
        if v is T:
            return FN
        if v is not F and self.c.decide(v):
            return FN
        self.raise_(PyExc(AssertionError(self.ev(st.value, fr) if st.value is not None else ''), self.c.where))

    def st_print(self, st, fr):
        return FN

    def st_del(self, st, fr):
        for a in st.args:
            t = type(a).__name__
            if t == 'NameNode':
                self.c.write('D', fr.v, a.name, ABSENT)
            elif t == 'IndexNode':
                b = self.ev(a.base, fr)
                i = self.ev(a.index, fr)
                if isinstance(b, list):
                    self.c.snapshot_list(b)
                    del b[self.c.concretize(i) if isinstance(i, U) else i]
                elif isinstance(b, dict):
                    self.c.write('D', b, i, ABSENT)
                else:
                    raise Unsupported('del')
            elif t == 'SliceIndexNode':
                b = self.ev(a.base, fr)
                self.c.snapshot_list(b)
                del b[(self.ev(a.start, fr) if a.start else None):(self.ev(a.stop, fr) if a.stop else None)]
            else:
                raise Unsupported('del ' + t)
        return FN

    def st_with(self, st, fr):
        m = self.ev(st.manager, fr)
        if st.target is not None:
            en = getattr(m, '__enter__', None)
            self.assign(st.target, en() if en else m, fr)
        return self.block(st.body, fr)

    def st_global(self, st, fr):
        fr.globals_ |= set(st.names)
        return FN

    # ---------------------------------------------------------------- expressions
    def ev(self, n, fr):
        m = _EXPR.get(type(n).__name__)
        if m is None:
            raise Unsupported('expression %s at %s:%s' % (type(n).__name__, fr.mod.name, n.pos[1]))
        return m(self, n, fr)

    def e_name(self, n, fr):
        nm = n.name
        f = fr
        while f is not None:
            if nm in f.v:
                v = f.v[nm]
                if v is POISON:
                    ct = f.ct.get(nm)
                    if ct is not None and ct.k in ('f', 'i'):
                        self.c.event('uninit:' + nm)
                        return NAN if ct.k == 'f' else 0
                    return v
                if isinstance(v, (U, B, R)):
                    return self.c.simp(v)
                return v
            f = f.parent
        v = fr.mod.ns.get(nm, ABSENT)
        if v is not ABSENT:
            return v
        v = self.SH.BUILTINS.get(nm, ABSENT)
        if v is not ABSENT:
            return v(self) if isinstance(v, self.SH.Lazy) else v
        if nm in fr.ct:
            self.c.event('uninit:' + nm)
            return 0
        if fr.pyx and nm in ('prange',):
            return 'prange'
        raise PyExc(NameError("name '%s' is not defined" % nm), (fr.mod.name, n.pos[1]))

    def e_int(self, n, fr):
        return int(n.value, 0) if not n.value.startswith('0') or len(n.value) == 1 else int(n.value.rstrip('LlUu'), 0)

    def e_float(self, n, fr):
        return Fraction(n.value.lower()) if 'inf' not in n.value else float(n.value)

    def e_str(self, n, fr):
        u = getattr(n, 'unicode_value', None)
        return str(u) if u is not None else str(n.value)

    def e_bytes(self, n, fr):
        v = n.value
        return v if isinstance(v, bytes) else v.encode('latin1')

    def e_none(self, n, fr):
        return None

    def e_bool(self, n, fr):
        return n.value

    def e_ellipsis(self, n, fr):
        return Ellipsis

    def e_tuple(self, n, fr):
        return tuple(self.ev_args(n.args, fr))

    def e_list(self, n, fr):
        return self.ev_args(n.args, fr)

    def ev_args(self, args, fr):
        out = []
        for a in args:
            if type(a).__name__ == 'StarredUnpackingNode':
                out.extend(self.iterate(self.ev(a.target, fr)))
            else:
                out.append(self.ev(a, fr))
        return out

    def e_set(self, n, fr):
        return set(self.ev(a, fr) for a in n.args)

    def e_dict(self, n, fr):
        return {self.ev(it.key, fr): self.ev(it.value, fr) for it in n.key_value_pairs}

    def e_slice(self, n, fr):
        return slice(self.ev(n.start, fr), self.ev(n.stop, fr), self.ev(n.step, fr))

    def e_attr(self, n, fr):
        o = self.ev(n.obj, fr)
        return self.getattr(o, n.attribute)

    def getattr(self, o, a):
        if isinstance(o, Mod):
            if a in o.ns:
                return o.ns[a]
            raise PyExc(AttributeError('module %s has no attribute %s' % (o.name, a)), self.c.where)
        if isinstance(o, SObj):
            if a in o.a:
                v = o.a[a]
                return self.c.simp(v) if isinstance(v, (U, B, R)) else v
            if o._c is not None:
                v = o._c.lookup(a)
                if v is not ABSENT:
                    return self.bind(v, o, o._c)
            if a == '__class__':
                return o._c
            if a == '__dict__':
                return o.a
            raise PyExc(AttributeError("object has no attribute '%s'" % a), self.c.where)
        if isinstance(o, Super):
            for b in o.cls.bases:
                if isinstance(b, Cls):
                    v = b.lookup(a)
                    if v is not ABSENT:
                        return self.bind(v, o.obj, b)
            if a == '__init__':
                return lambda *x, **k: None
            raise PyExc(AttributeError('super has no ' + a))
        if isinstance(o, Cls):
            v = o.lookup(a)
            if v is ABSENT:
                raise PyExc(AttributeError('class has no ' + a))
            return v[1] if isinstance(v, tuple) else v
        if isinstance(o, (CVec, CSet, VRef)):
            return CMeth(self, o, a)
        if isinstance(o, U):
            o2 = self.c.simp(o)
            if not isinstance(o2, U):
                return self.getattr(o2, a)
            if all(isinstance(x, tuple) for x, g in o2.alts):
                return CMeth(self, CVec(o2), a)
            if any(isinstance(x, (np.ndarray, list, SObj)) for x, g in o2.alts):
                return self.getattr(self.c.concretize(o2), a)
            if a in self.SH.SCALAR_ATTR:
                return self.SH.SCALAR_ATTR[a](self, o2)
            return self.getattr(self.c.concretize(o2), a)
        if isinstance(o, np.ndarray):
            return self.SH.arr_attr(self, o, a)
        if isinstance(o, (R, B, int, Fraction, float)) and a in self.SH.SCALAR_ATTR:
            return self.SH.SCALAR_ATTR[a](self, o)
        if isinstance(o, self.SH.Shim):
            if o.name == 'acv_explainers' and a not in o.ns:
                if 'acv_explainers.' + a in front.PATHS:
                    return self.module('acv_explainers.' + a)
                for mn in ('acv_tree', 'acv_agnosticX'):
                    m = self.module('acv_explainers.' + mn)
                    if a in m.ns:
                        return m.ns[a]
            return o.get(a)
        if isinstance(o, list):
            return ListMeth(self, o, a)
        if isinstance(o, dict):
            return DictMeth(self, o, a)
        if isinstance(o, (set,)) and a in ('add', 'remove', 'discard', 'update'):
            if len(self.c.pcs) > 1:
                raise Unsupported('python set mutation under a symbolic guard')
        if isinstance(o, Opaque):
            return Opaque(o.name + '.' + a)
        try:
            return getattr(o, a)
        except AttributeError as e:
            raise PyExc(e, self.c.where)

    def bind(self, v, obj, cls):
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], Closure):
            if v[0] == 'staticmethod':
                return v[1]
            if v[0] == 'property':
                return v[1](obj)
            return Bound(v[1], obj._c)
        if isinstance(v, Closure):
            return Bound(v, obj)
        return v

    def setattr(self, o, a, v):
        if isinstance(o, SObj):
            self.c.write('D', o.a, a, v)
        elif isinstance(o, (CVec, CSet)):
            raise Unsupported('setattr on container')
        elif isinstance(o, Mod):
            self.c.write('D', o.ns, a, v)
        elif isinstance(o, np.ndarray) and a == 'shape':
            o.shape = v
        else:
            try:
                setattr(o, a, v)
            except AttributeError as e:
                raise PyExc(e)

    def e_index(self, n, fr):
        b = self.ev(n.base, fr)
        i = self.ev(n.index, fr)
        return self.getitem(b, i, fr)

    def e_sliceidx(self, n, fr):
        b = self.ev(n.base, fr)
        s = slice(self.ev(n.start, fr) if n.start else None, self.ev(n.stop, fr) if n.stop else None)
        return self.getitem(b, s, fr)

    def getitem(self, b, i, fr=None):
        c = self.c
        if isinstance(b, U):
            b = c.simp(b)
        if isinstance(b, U):
            if all(isinstance(x, tuple) for x, g in b.alts) and isinstance(i, (int, U)):
                return self.vidx(b, i)
            out = []
            for x, g in b.alts:
                with c.under(g) as live:
                    if live:
                        out.append((self.getitem(x, i, fr), g))
            return self.mku_obj(out)
        if isinstance(b, (CVec, VRef)):
            if isinstance(i, slice):
                sl = slice(*[None if q is None else c.simp(q) for q in (i.start, i.stop, i.step)])
                st = self.vstate(b)
                if isinstance(st, tuple) and not any(is_sym(q) for q in (sl.start, sl.stop, sl.step)):
                    return list(st[sl])
                raise Unsupported('vector slice')
            i = c.simp(i)
            st = self.vstate(b)
            v = self.vidx(st, i)
            if isinstance(v, tuple) or (isinstance(v, U) and any(isinstance(x, tuple) for x, g in v.alts)):
                root = b if isinstance(b, CVec) else b.root
                path = (() if isinstance(b, CVec) else b.path) + (i,)
                return VRef(root, path)
            return v
        if isinstance(b, np.ndarray):
            return self.arrget(b, i, fr)
        if isinstance(b, (list, tuple, str, bytes)):
            if isinstance(i, slice):
                i = slice(*[self.idx(q) if q is not None else None for q in (i.start, i.stop, i.step)])
                return b[i]
            if isinstance(i, np.ndarray) and i.size == 1:
                i = i.reshape(-1)[0]
            i = c.simp(i)
            if isinstance(i, B):
                i = b2u(i)
            if isinstance(i, U):
                out = []
                for x, g in i.alts:
                    with c.under(g) as live:
                        if live:
                            if -len(b) <= x < len(b):
                                out.append((b[x], g))
                            else:
                                c.event('oob')
                if not out:
                    raise PyExc(IndexError('list index out of range'))
                return self.mku_obj(out)
            if isinstance(i, Fraction):
                raise PyExc(TypeError('list indices must be integers'))
            try:
                return b[i]
            except IndexError as e:
                raise PyExc(e, c.where)
            except TypeError as e:
                raise PyExc(e, c.where)
        if isinstance(b, dict):
            i = c.simp(i) if is_sym(i) else i
            if isinstance(i, U):
                return self.mku_obj([(b[x], g) for x, g in i.alts])
            try:
                return b[i]
            except KeyError as e:
                raise PyExc(e, c.where)
        if b is None:
            raise PyExc(TypeError("'NoneType' object is not subscriptable"), c.where)
        if hasattr(b, '__getitem__'):
            return b[i]
        raise PyExc(TypeError('%s object is not subscriptable' % type(b).__name__), c.where)

    def idx(self, q):
        q = self.c.simp(q) if is_sym(q) else q
        if isinstance(q, (U, B)):
            q = b2u(q) if isinstance(q, B) else q
            q = self.c.concretize(q)
        if isinstance(q, np.ndarray):
            q = q.reshape(-1)[0]
        if isinstance(q, Fraction):
            if q.denominator == 1:
                raise PyExc(TypeError('slice indices must be integers'))
        return q

    def arrget(self, b, i, fr):
        c = self.c
        pyx = fr is not None and fr.pyx and not fr.bounds
        tup = tuple(self.flat(x) if isinstance(x, U) else x for x in i) if isinstance(i, tuple) else (self.flat(i) if isinstance(i, U) else i,)
        if pyx or all(isinstance(x, (int, U)) and not isinstance(x, bool) for x in tup):
            if all(isinstance(x, (int, U)) for x in tup) and len(tup) <= b.ndim:
                return self.cellget(b, tup, pyx and not fr.wrap)
        nt = []
        for x in tup:
            if isinstance(x, slice):
                nt.append(slice(*[self.idx(q) if q is not None else None for q in (x.start, x.stop, x.step)]))
            elif isinstance(x, U):
                nt.append(c.concretize(c.simp(x)))
            elif isinstance(x, (list, np.ndarray)):
                a = x if isinstance(x, np.ndarray) else arr(x)
                if a.size and isinstance(a.reshape(-1)[0], (B, bool, np.bool_)):
                    m = np.empty(a.shape, dtype=bool)
                    fm, fa = m.reshape(-1), a.reshape(-1)
                    for k in range(fa.size):
                        fm[k] = c.decide(tob(fa[k])) if not isinstance(fa[k], np.bool_) else bool(fa[k])
                    nt.append(m)
                else:
                    m = np.empty(a.shape, dtype=int)
                    fm, fa = m.reshape(-1), a.reshape(-1)
                    for k in range(fa.size):
                        q = fa[k]
                        q = c.concretize(q) if isinstance(q, U) else q
                        if isinstance(q, Fraction):
                            raise PyExc(IndexError('arrays used as indices must be of integer (or boolean) type'), c.where)
                        fm[k] = q
                    nt.append(m)
            elif isinstance(x, CVec):
                nt.append(np.array([int(q) for q in self.iterate(x)], dtype=int))
            elif isinstance(x, Fraction):
                raise PyExc(IndexError('only integers, slices ... are valid indices'), c.where)
            elif isinstance(x, B):
                nt.append(c.decide(x))
            else:
                nt.append(x)
        try:
            return b[tuple(nt)]
        except IndexError as e:
            raise PyExc(e, c.where)

    def cellget(self, b, tup, nowrap):
        c = self.c
        for k, x in enumerate(tup):
            if isinstance(x, U):
                x = c.simp(x)
                if isinstance(x, U):
                    out = []
                    for v, g in x.alts:
                        with c.under(g) as live:
                            if live:
                                out.append((self.cellget(b, tup[:k] + (v,) + tup[k + 1:], nowrap), g))
                    if not out:
                        raise Unsupported('no feasible index')
                    return self.mku_obj(out)
                tup = tup[:k] + (x,) + tup[k + 1:]
        for k, x in enumerate(tup):
            n = b.shape[k]
            if x >= n or x < (0 if nowrap else -n):
                if nowrap:
                    c.event('oob')
                    return self.garbage(b, tup)
                if len(c.pcs) > 1:
                    c.event('indexerror')
                    return self.garbage(b, tup)
                raise PyExc(IndexError('index %d is out of bounds for axis %d with size %d' % (x, k, n)), c.where)
        v = b[tup]
        if c.access is not None and len(tup) == b.ndim:
            self.note(b, tup, 'r')
        if isinstance(v, (U, B, R)):
            v = c.simp(v)
        return v

    def garbage(self, b, tup):
        """out-of-bounds read: an arbitrary value (fresh symbol for reals)"""
        if len(tup) < b.ndim:
            a = mkarr(b.shape[len(tup):], 0, b.k)
            return a
        k = getattr(b, 'k', 'o')
        if k == 'f':
            return R.var(self.c.newvar('oob'))
        return self.c.oob_int if hasattr(self.c, 'oob_int') else 0

    def note(self, b, tup, rw):
        key = Ctx._key('A', b, tup)
        d = self.c.access[-1]
        e = d.get(key)
        if e is None:
            d[key] = e = [F, F, b, tup]
        j = 0 if rw == 'r' else 1
        e[j] = bor(e[j], self.c.pc)

    def setitem(self, b, i, v, fr=None):
        c = self.c
        if isinstance(b, U):
            b = c.simp(b)
        if isinstance(b, U) and any(isinstance(x, np.ndarray) for x, g in b.alts) and len({getattr(x, 'shape', None) for x, g in b.alts}) > 1:
            b = c.concretize(b)
        if isinstance(b, U):
            for x, g in b.alts:
                self.branch(g, lambda: (self.setitem(x, i, v, fr), FN)[1], None)
            return
        if isinstance(b, (CVec, VRef)):
            root = b if isinstance(b, CVec) else b.root
            path = (() if isinstance(b, CVec) else b.path) + (c.simp(i),)
            st = self.vstate(b)
            if isinstance(v, (CVec, VRef)):
                v = self.vstate(v)
            elif isinstance(v, (list, tuple, np.ndarray)):
                v = self.vecval(v, CT('vec', CT('o')))
            else:
                s0 = st.alts[0][0] if isinstance(st, U) else st
                if s0 and isinstance(s0[0], (Fraction, R)):
                    v = cast(v, 'f')
            self.c.write('V', root, None, self.vput(self.vstate(root), path, v))
            return
        if isinstance(b, np.ndarray):
            return self.arrset(b, i, v, fr)
        if isinstance(b, list):
            if isinstance(i, slice):
                c.snapshot_list(b)
                b[i] = self.iterate(v)
                return
            if isinstance(i, U):
                i = c.concretize(c.simp(i))
            c.snapshot_list(b)
            try:
                b[i] = v
            except (IndexError, TypeError) as e:
                raise PyExc(e, c.where)
            return
        if isinstance(b, dict):
            i = c.concretize(i) if isinstance(i, U) else i
            c.write('D', b, i, v)
            return
        if hasattr(b, '__setitem__'):
            b[i] = v
            return
        raise Unsupported('setitem on %s' % type(b).__name__)

    def arrset(self, b, i, v, fr):
        c = self.c
        if isinstance(v, U) and isinstance(v.alts[0][0], np.ndarray):
            from engine.shims import merge_arrays
            v = merge_arrays(v)
        pyx = fr is not None and fr.pyx and not fr.bounds
        tup = i if isinstance(i, tuple) else (i,)
        tup = tuple(self.flat(x) if isinstance(x, U) else x for x in tup)
        if all(isinstance(x, (int, U)) and not isinstance(x, bool) for x in tup) and len(tup) == b.ndim:
            k = getattr(b, 'k', 'o')
            if isinstance(v, np.ndarray) and v.size == 1 and k != 'o':
                v = v.reshape(-1)[0]
            self.cellset(b, tup, cast(v, k) if k != 'o' else v, pyx and not fr.wrap)
            return
        nt = []
        for x in tup:
            if isinstance(x, slice):
                nt.append(slice(*[self.idx(q) if q is not None else None for q in (x.start, x.stop, x.step)]))
            elif isinstance(x, U):
                nt.append(c.concretize(c.simp(x)))
            elif isinstance(x, (list, np.ndarray)):
                a = x if isinstance(x, np.ndarray) else arr(x)
                if a.size and isinstance(a.reshape(-1)[0], (B, bool, np.bool_)):
                    # masked write: cell-wise ite
                    if len(tup) == 1 and a.shape == b.shape:
                        fv = v
                        for ix in np.ndindex(*b.shape):
                            g = tob(a[ix]) if not isinstance(a[ix], np.bool_) else (T if a[ix] else F)
                            if g is F:
                                continue
                            if isinstance(fv, np.ndarray) and fv.size != 1:
                                raise Unsupported('masked array write')
                            w = fv.reshape(-1)[0] if isinstance(fv, np.ndarray) else fv
                            c.write('A', b, ix, ite(g, cast(w, b.k) if b.k != 'o' else w, b[ix]))
                        return
                    m = np.array([c.decide(tob(q)) if not isinstance(q, np.bool_) else bool(q) for q in a.reshape(-1)], dtype=bool).reshape(a.shape)
                    nt.append(m)
                else:
                    nt.append(np.array([c.concretize(q) if isinstance(q, U) else q for q in a.reshape(-1)], dtype=int).reshape(a.shape))
            else:
                nt.append(x)
        self.setslice(b, tuple(nt), v, fr)

    def setslice(self, b, nt, v, fr):
        c = self.c
        try:
            ids = np.arange(b.size).reshape(b.shape)[nt]
        except IndexError as e:
            raise PyExc(e, c.where)
        ids = np.asarray(ids)
        k = getattr(b, 'k', 'o')
        if isinstance(v, (list, tuple)):
            v = arr(v)
        if isinstance(v, np.ndarray):
            try:
                vv = np.broadcast_to(v, ids.shape)
            except ValueError as e:
                raise PyExc(e, c.where)
            vals = [vv[ix] for ix in np.ndindex(*ids.shape)]
        else:
            vals = [v] * ids.size
        for ix, val in zip(np.ndindex(*ids.shape), vals):
            cell = np.unravel_index(int(ids[ix]), b.shape)
            c.write('A', b, tuple(int(q) for q in cell), cast(val, k) if k != 'o' else val)

    def cellset(self, b, tup, v, nowrap):
        c = self.c
        for k, x in enumerate(tup):
            if isinstance(x, U):
                x = c.simp(x)
                if isinstance(x, U):
                    for val, g in x.alts:
                        def one(val=val):
                            self.cellset(b, tup[:k] + (val,) + tup[k + 1:], v, nowrap)
                            return FN
                        self.branch(g, one, None)
                    return
                tup = tup[:k] + (x,) + tup[k + 1:]
        for k, x in enumerate(tup):
            n = b.shape[k]
            if x >= n or x < (0 if nowrap else -n):
                if nowrap:
                    c.event('oobw')
                    return
                if len(c.pcs) > 1:
                    c.event('indexerror')
                    return
                raise PyExc(IndexError('index %d is out of bounds for axis %d with size %d' % (x, k, n)), c.where)
        tup = tuple(x if x >= 0 else x + b.shape[k] for k, x in enumerate(tup))
        if c.access is not None:
            self.note(b, tup, 'w')
        c.write('A', b, tup, v)

    # calls
    def callargs(self, n, fr):
        if type(n).__name__ == 'SimpleCallNode':
            return [self.ev(a, fr) for a in n.args], {}
        pa = n.positional_args
        args = list(self.iterate(self.ev(pa, fr))) if type(pa).__name__ != 'TupleNode' else self.ev_args(pa.args, fr)
        kw = self.kwargs(n.keyword_args, fr) if n.keyword_args is not None else {}
        return args, kw

    def kwargs(self, n, fr):
        t = type(n).__name__
        if t == 'DictNode':
            return {self.ev(i.key, fr): self.ev(i.value, fr) for i in n.key_value_pairs}
        if t == 'MergedDictNode':
            d = {}
            for x in n.keyword_args:
                d.update(self.kwargs(x, fr))
            return d
        return dict(self.ev(n, fr))

    def e_call(self, n, fr):
        fnode = n.function
        t = type(fnode).__name__
        if t == 'NameNode':
            nm = fnode.name
            if fr.pyx:
                if nm in ('deref', 'dereference'):
                    return self.deref(self.ev(n.args[0], fr))
                if nm in ('inc', 'preincrement'):
                    return self.inc(n.args[0], fr)
                if nm in ('std_find', 'std_remove'):
                    return self.algo(nm, [self.ev(a, fr) for a in n.args])
            if nm == 'super':
                f = fr
                while f.parent is not None:
                    f = f.parent
                first = next(iter(f.v.values()))
                return Super(first, f.fn.cls)
            if nm == 'locals':
                return dict(fr.v)
        elif t == 'IndexNode' and fr.pyx and type(fnode.base).__name__ == 'NameNode' and fnode.base.name in ('std_find', 'std_remove'):
            return self.algo(fnode.base.name, [self.ev(a, fr) for a in n.args])
        f = self.ev(fnode, fr)
        args, kw = self.callargs(n, fr)
        self.c.where = (fr.mod.name, n.pos[1])
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, U):
            f = self.c.concretize(f)
        if getattr(f, '__module__', '') == 'engine.shims' and any(isinstance(x, U) for x in args):
            args = [self.flat(x) if isinstance(x, U) else x for x in args]
        try:
            return f(*args, **kw)
        except (Restart, Unsupported, PyExc, NeedFork, RecursionError, MemoryError, AssertionError):
            raise
        except (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError) as e:
            if isinstance(f, (Closure, Bound, Cls)):
                raise
            if DEBUG:
                traceback.print_exc()
            raise PyExc(e, self.c.where)

    def deref(self, it):
        if isinstance(it, U):
            it = self.c.simp(it)
        if isinstance(it, U):
            out = []
            for x, g in it.alts:
                with self.c.under(g) as live:
                    if live:
                        out.append((self.deref(x), g))
            return self.mku_obj(out)
        if isinstance(it.c, CSet):
            if it.pos == 'END':
                self.c.event('oob')
                return 0
            S = it.c
            out = []
            none = T
            for k in sorted(S.d):
                if it.pos != 'BEG' and k < it.pos:
                    continue
                g = self.c.simp(S.d[k])
                gg = band(none, g)
                if gg is not F:
                    out.append((k, gg))
                none = band(none, bnot(g))
                if none is F:
                    break
            # an iterator positioned inside a loop body is on a present element
            if not out:
                self.c.event('oob')
                return 0
            if none is not F:
                if len(out) == 1:
                    return out[0][0]
                with self.c.under(none) as live:
                    if live:
                        self.c.event('oob')
            return mkU(out)
        st = self.vstate(it.c)
        if it.pos == 'END':
            self.c.event('oob')
            return 0
        return self.vidx(st, it.pos)

    def inc(self, node, fr):
        it = self.ev(node, fr)

        def nx(it):
            if isinstance(it.c, CSet):
                e = self.deref(it)
                if isinstance(e, U):
                    return mkU([(It(it.c, self.set_after(it.c, x)), g) for x, g in e.alts])
                return It(it.c, self.set_after(it.c, e))
            st = self.vstate(it.c)
            if isinstance(st, U):
                raise Unsupported('vector iterator over symbolic vector')
            return It(it.c, it.pos + 1 if it.pos != 'END' and it.pos + 1 < len(st) else 'END')
        if isinstance(it, U):
            r = mkU([(nx(x), g) for x, g in it.alts])
        else:
            r = nx(it)
        self.assign(node, r, fr)
        return r

    def algo(self, nm, args):
        b, e, val = args
        val = self.c.simp(val) if is_sym(val) else val
        if isinstance(val, (CVec, VRef)):
            val = self.vstate(val)
        if isinstance(b, U):
            b = b.alts[0][0]
        cont = b.c
        if nm == 'std_find':
            if isinstance(cont, CSet):
                out = []
                none = T
                for k in sorted(cont.d):
                    g = band(cont.d[k], tob(cmp('==', k, val)))
                    gg = band(none, g)
                    if gg is not F:
                        out.append((It(cont, k), gg))
                    none = band(none, bnot(g))
                if none is not F:
                    out.append((It(cont, 'END'), none))
                return mkU(out)
            st = self.vstate(cont)
            alts = st.alts if isinstance(st, U) else [(st, T)]
            out = []
            for x, g in alts:
                none = g
                for k, q in enumerate(x):
                    h = tob(veq(q, val))
                    gg = band(none, h)
                    if gg is not F:
                        out.append((It(cont, k), gg))
                    none = band(none, bnot(h))
                    if none is F:
                        break
                if none is not F:
                    out.append((It(cont, 'END'), none))
            return mkU(out)
        # std::remove: stable compaction, tail keeps its old contents (moved-from vectors are empty)
        def rem(x):
            acc = [((), T)]
            for q in x:
                h = self.c.simp(tob(veq(q, val)))
                nacc = []
                for kept, g in acc:
                    if h is not T:
                        g2 = band(g, bnot(h))
                        if g2 is not F:
                            nacc.append((kept + (q,), g2))
                    if h is not F:
                        g2 = band(g, h)
                        if g2 is not F:
                            nacc.append((kept, g2))
                acc = nacc
            out = []
            for kept, g in acc:
                n = len(kept)
                tail = x[n:] if not (x and isinstance(x[0], tuple)) else tuple(() for _ in x[n:])
                out.append((kept + tuple(tail), g))
            return self.mku_obj(out)
        self.vmap(cont, rem)
        return It(cont, 'END')

    # operators
    def e_binop(self, n, fr):
        a = self.ev(n.operand1, fr)
        b = self.ev(n.operand2, fr)
        return self.binop(n.operator, a, b, n.operand1, n.operand2, fr)

    def static_int(self, n, fr):
        """is the expression statically a C integer (Cython typing)?"""
        t = type(n).__name__
        if t == 'IntNode':
            return True
        if t == 'NameNode':
            ct = fr.ct.get(n.name)
            return ct is not None and ct.k == 'i'
        if t == 'IndexNode':
            b = n.base
            while type(b).__name__ == 'IndexNode':
                b = b.base
            if type(b).__name__ == 'NameNode':
                ct = fr.ct.get(b.name)
                if ct is None:
                    return False
                if ct.k == 'mv':
                    return ct.elem.k == 'i'
                while ct is not None and ct.k == 'vec':
                    ct = ct.elem
                return ct is not None and ct.k == 'i'
            if type(b).__name__ == 'AttributeNode' and b.attribute == 'shape':
                return True
            return False
        if t == 'SimpleCallNode':
            f = n.function
            return type(f).__name__ == 'AttributeNode' and f.attribute == 'size'
        if t in ('AddNode', 'SubNode', 'MulNode', 'DivNode', 'ModNode', 'IntBinopNode', 'NumBinopNode'):
            return self.static_int(n.operand1, fr) and self.static_int(n.operand2, fr)
        if t == 'PowNode':
            return self.static_int(n.operand1, fr) and self.static_int(n.operand2, fr)
        if t == 'UnaryMinusNode':
            return self.static_int(n.operand, fr)
        return False

    def flat(self, v):
        '''an array known only up to a choice between arrays of one shape, read as a value: merged cell by cell'''
        return self.SH.merge_arrays(v)

    def binop(self, op, a, b, na, nb, fr):
        if isinstance(a, U):
            a = self.flat(a)
        if isinstance(b, U):
            b = self.flat(b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return self.SH.arr_binop(self, op, a, b)
        if op == '/':
            if fr.pyx and na is not None and self.static_int(na, fr) and self.static_int(nb, fr):
                op = '//c'
        if op == '//c':
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    self.c.event('div0')
                    return 0
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            op = '//'
        if is_sym(a) or is_sym(b) or isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
            if op in ('+', '-', '*', '/', '//', '%', '**'):
                if op in ('/', '//', '%') and not fr.pyx and not is_sym(b) and b == 0:
                    if len(self.c.pcs) == 1 and not self.np_scalar:
                        raise PyExc(ZeroDivisionError('division by zero'), self.c.where)
                if op == '+' and isinstance(a, bool) and isinstance(b, bool):
                    return int(a) + int(b)
                r = arith(op, a, b)
                if r is NotImplemented:
                    raise Unsupported('arith %r %s %r' % (a, op, b))
                return r
            if op in ('&', '|', '^'):
                if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
                    x, y = tob(a), tob(b)
                    if op == '&':
                        return _b(band(x, y))
                    if op == '|':
                        return _b(bor(x, y))
                    return _b(bor(band(x, bnot(y)), band(bnot(x), y)))
            if op in ('&', '|', '^', '<<', '>>'):
                f = {'&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift}[op]
                if isinstance(a, U) or isinstance(b, U):
                    A = a.alts if isinstance(a, U) else [(a, T)]
                    Bs = b.alts if isinstance(b, U) else [(b, T)]
                    return mkU([(f(x, y), band(g, h)) for x, g in A for y, h in Bs])
                return f(a, b)
        if isinstance(a, (list, tuple)) and op == '*' and isinstance(b, U):
            b = self.c.concretize(b)
        f = _PYOPS[op]
        try:
            return f(a, b)
        except TypeError as e:
            raise PyExc(e, self.c.where)

    np_scalar = True

    def e_neg(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(v, np.ndarray):
            return self.SH.arr_binop(self, '-', 0, v)
        if is_sym(v):
            return arith('-', 0, v)
        return -v

    def e_pos(self, n, fr):
        return self.ev(n.operand, fr)

    def e_inv(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(v, np.ndarray):
            return self.SH.elementwise(lambda x: _b(bnot(tob(x))) if isinstance(x, (B, bool, np.bool_)) else ~x, v, k=v.k)
        if isinstance(v, B):
            return bnot(v)
        return ~v

    def e_not(self, n, fr):
        return _b(bnot(truth_(self, self.ev(n.operand, fr))))

    def e_boolop(self, n, fr):
        a = self.ev(n.operand1, fr)
        ta = self.c.simp(truth_(self, a))
        if n.operator == 'and':
            if ta is F:
                return a
            if ta is T:
                return self.ev(n.operand2, fr)
            with self.c.under(ta) as live:
                b = self.ev_guard(n.operand2, fr)
            tb = truth_(self, b)
            return _b(band(ta, tb)) if isinstance(a, (B, bool)) and isinstance(b, (B, bool)) else _b(band(ta, tb))
        if ta is T:
            return a
        if ta is F:
            return self.ev(n.operand2, fr)
        with self.c.under(bnot(ta)) as live:
            b = self.ev_guard(n.operand2, fr)
        return _b(bor(ta, truth_(self, b)))

    def ev_guard(self, node, fr):
        """evaluate a sub-expression under an extra guard; side effects inside must not occur"""
        n0 = len(self.c.log)
        v = self.ev(node, fr)
        if len(self.c.log) != n0:
            raise Unsupported('side effect in a conditionally evaluated expression')
        return v

    def e_cond(self, n, fr):
        t = self.c.simp(truth_(self, self.ev(n.test, fr)))
        if t is T:
            return self.ev(n.true_val, fr)
        if t is F:
            return self.ev(n.false_val, fr)
        with self.c.under(t) as live:
            a = self.ev_guard(n.true_val, fr) if live else None
            la = live
        with self.c.under(bnot(t)) as live:
            b = self.ev_guard(n.false_val, fr) if live else None
        if not la:
            return b
        if not live:
            return a
        if isinstance(a, (list, np.ndarray, SObj)) or isinstance(b, (list, np.ndarray, SObj)):
            return a if self.c.decide(t) else b
        if is_real(a) or is_real(b):
            if isinstance(a, (int, U)) and not isinstance(a, bool):
                a = cast(a, 'f')
            if isinstance(b, (int, U)) and not isinstance(b, bool):
                b = cast(b, 'f')
        return ite(t, a, b)

    def e_cmp(self, n, fr):
        a = self.ev(n.operand1, fr)
        b = self.ev(n.operand2, fr)
        r = self.compare(n.operator, a, b)
        cas = n.cascade
        while cas is not None:
            a = b
            b = self.ev(cas.operand2, fr)
            r2 = self.compare(cas.operator, a, b)
            if isinstance(r, np.ndarray) or isinstance(r2, np.ndarray):
                raise Unsupported('cascaded array comparison')
            r = _b(band(tob(r), tob(r2)))
            cas = cas.cascade
        return r

    def compare(self, op, a, b):
        if getattr(a, 'pytype', None) is not None and isinstance(b, (type, Cls)):
            a = a.pytype
        if getattr(b, 'pytype', None) is not None and isinstance(a, (type, Cls)):
            b = b.pytype
        if op in ('is', 'is_not', 'is not'):
            if isinstance(a, U) or isinstance(b, U):
                x, y = (a, b) if isinstance(a, U) else (b, a)
                g = bor(*[h for v, h in x.alts if v is y])
                return _b(g if op == 'is' else bnot(g))
            r = a is b or (type(a) is type(b) and isinstance(a, (int, str)) and a == b)
            return r if op == 'is' else not r
        if op in ('in', 'not_in', 'not in'):
            r = self.contains(b, a)
            return _b(r) if op == 'in' else _b(bnot(r))
        if op == '<>':
            op = '!='
        if isinstance(a, U):
            a = self.flat(a)
        if isinstance(b, U):
            b = self.flat(b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return self.SH.arr_cmp(self, op, a, b)
        return self.scmp(op, a, b)

    def scmp(self, op, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op in ('==', '!='):
            if type(a) is not type(b) or len(a) != len(b):
                return op == '!='
            g = T
            for x, y in zip(a, b):
                q = self.scmp('==', x, y) if not isinstance(x, np.ndarray) and not isinstance(y, np.ndarray) else self.SH.allb(self, self.SH.arr_cmp(self, '==', x, y))
                g = band(g, tob(q))
            return _b(g if op == '==' else bnot(g))
        if isinstance(a, (CVec, VRef)):
            a = self.vstate(a)
        if isinstance(b, (CVec, VRef)):
            b = self.vstate(b)
        if is_sym(a) or is_sym(b):
            r = cmp(op, a, b)
            if r is NotImplemented:
                if op == '==':
                    return False
                if op == '!=':
                    return True
                raise PyExc(TypeError('unorderable'))
            return _b(r) if isinstance(r, B) else r
        try:
            return _ccmp_py(op, a, b)
        except TypeError as e:
            raise PyExc(e, self.c.where)

    def contains(self, cont, x):
        if isinstance(cont, (list, tuple)):
            g = F
            for y in cont:
                if isinstance(y, np.ndarray) or isinstance(x, np.ndarray):
                    q = self.SH.arr_cmp(self, '==', x, y)
                    q = truth_(self, q)
                else:
                    q = tob(self.scmp('==', x, y))
                g = bor(g, q)
                if g is T:
                    break
            return g
        if isinstance(cont, np.ndarray):
            return self.contains(list(cont.reshape(-1)), x)
        if isinstance(cont, (CVec, VRef)):
            st = self.vstate(cont)
            alts = st.alts if isinstance(st, U) else [(st, T)]
            return bor(*[band(g, bor(*[tob(veq(q, x)) for q in s])) for s, g in alts])
        if isinstance(cont, CSet):
            return bor(*[band(g, tob(cmp('==', k, x))) for k, g in cont.d.items()])
        if isinstance(cont, SymRange):
            return self.contains(self.iterate(cont), x)
        if isinstance(cont, SObj):
            raise Unsupported('in on object')
        if isinstance(x, U):
            return bor(*[band(g, T if v in cont else F) for v, g in x.alts])
        return T if x in cont else F

    def e_comp(self, n, fr):
        ap = n.append
        t = type(ap).__name__
        isdict = t == 'DictComprehensionAppendNode'
        tn = n.type
        isset = 'set' in str(tn)
        out = {} if isdict else []
        sub = Frame(fr.mod, fr.fn)
        sub.parent = fr
        sub.pyx, sub.bounds, sub.wrap, sub.cdiv = fr.pyx, fr.bounds, fr.wrap, fr.cdiv
        sub.ct = {k: v for k, v in fr.ct.items()}
        self._comps.append((ap, out, isdict))
        try:
            self.block(n.loop, sub)
        finally:
            self._comps.pop()
        return set(out) if isset else out

    _comps = []

    def st_compappend(self, st, fr):
        for ap, out, isdict in reversed(self._comps):
            if ap is st:
                if isdict:
                    self.c.write('D', out, self.ev(st.key_expr, fr), self.ev(st.value_expr, fr))
                else:
                    v = self.ev(st.expr, fr)
                    self.c.snapshot_list(out)
                    out.append(v)
                return FN
        raise Unsupported('comprehension append')

    def e_gen(self, n, fr):
        out = []
        sub = Frame(fr.mod, fr.fn)
        sub.parent = fr
        sub.pyx, sub.bounds, sub.wrap, sub.cdiv = fr.pyx, fr.bounds, fr.wrap, fr.cdiv
        self._gens.append(out)
        try:
            self.block(n.loop, sub)
        finally:
            self._gens.pop()
        return out

    _gens = []

    def e_yield(self, n, fr):
        if not self._gens:
            raise Unsupported('generator function')
        v = self.ev(n.arg, fr)
        out = self._gens[-1]
        self.c.snapshot_list(out)
        out.append(v)
        return None

    def e_lambda(self, n, fr):
        return Closure(self, fr.mod, n, '<lambda>', env=fr)

    def e_typecast(self, n, fr):
        v = self.ev(n.operand, fr)
        ct = ctype(n.base_type)
        return self.coerce(v, ct) if ct is not None else v

    def e_joined(self, n, fr):
        return '<fstring>'

    def e_import(self, n, fr):
        return self.imp(n.module_name.value)

    def e_astuple(self, n, fr):
        return tuple(self.iterate(self.ev(n.arg, fr)))


def _ccmp_py(op, a, b):
    if op == '==':
        return a == b
    if op == '!=':
        return a != b
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    raise Unsupported(op)


def veq(q, val):
    if isinstance(q, tuple) and isinstance(val, tuple):
        if len(q) != len(val):
            return F
        g = T
        for x, y in zip(q, val):
            g = band(g, tob(veq(x, y)))
        return g
    if isinstance(q, tuple) != isinstance(val, tuple):
        if isinstance(q, U) or isinstance(val, U):
            return cmp('==', q, val)
        return F
    return cmp('==', q, val)


def truth_(I, v):
    if isinstance(v, (B, bool)):
        return tob(v)
    if isinstance(v, np.ndarray):
        if v.size == 1:
            return truth_(I, v.reshape(-1)[0])
        if v.size == 0:
            return F
        raise PyExc(ValueError('The truth value of an array with more than one element is ambiguous'), I.c.where)
    if isinstance(v, (list, tuple, dict, str, set)):
        return T if len(v) else F
    if isinstance(v, (CVec, CSet, SObj, It, Closure, Bound)):
        return T
    if isinstance(v, np.bool_):
        return T if v else F
    return truth(v)


_PYOPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
          '%': operator.mod, '**': operator.pow, '&': operator.and_, '|': operator.or_, '^': operator.xor, '@': operator.matmul}


class SymRange:
    def __init__(self, I, *a):
        self.I = I
        a = list(a)
        if len(a) == 1:
            a = [0, a[0], 1]
        elif len(a) == 2:
            a = [a[0], a[1], 1]
        self.a = a

    def items(self):
        s, e, st = self.a
        if isinstance(st, U):
            raise Unsupported('symbolic range step')
        out = []
        lo = [v for v, g in s.alts] if isinstance(s, U) else [s]
        hi = [v for v, g in e.alts] if isinstance(e, U) else [e]
        if isinstance(s, U):
            s = self.I.c.concretize(s)
        if st > 0:
            for i in range(s, max(hi), st):
                out.append((i, tob(cmp('<', i, e))))
        else:
            for i in range(s, min(hi), st):
                out.append((i, tob(cmp('>', i, e))))
        return out

    def __len__(self):
        return len(self.I.iterate(self))


class CMeth:
    """method of a C++ container"""
    def __init__(self, I, o, a):
        self.I, self.o, self.a = I, o, a

    def __call__(self, *args):
        I, o, a = self.I, self.o, self.a
        c = I.c
        if isinstance(o, CSet):
            if a == 'insert':
                v = c.simp(args[0])
                for x, g in (v.alts if isinstance(v, U) else [(v, T)]):
                    # a set insert under the current branch: presence becomes true when g
                    cur = o.d.get(int(x), F)
                    c.write('S', o, int(x), bor(cur, g))
                return None
            if a == 'erase':
                v = args[0]
                if isinstance(v, It):
                    v = I.deref(v)
                v = c.simp(v)
                for x, g in (v.alts if isinstance(v, U) else [(v, T)]):
                    if x in o.d:
                        c.write('S', o, x, band(o.d[x], bnot(g)))
                return None
            if a == 'clear':
                for x in list(o.d):
                    c.write('S', o, x, F)
                return None
            if a == 'size':
                r = 0
                for x, g in o.items_sorted():
                    r = arith('+', r, b2u(c.simp(g)))
                return r
            if a == 'count':
                return b2u(I.contains(o, args[0]))
            if a == 'empty':
                return _b(bnot(bor(*[g for g in o.d.values()])))
            if a == 'begin':
                ks = [k for k in sorted(o.d) if o.d[k] is not F]
                return It(o, ks[0] if ks else 'END')
            if a == 'end':
                return It(o, 'END')
            if a == 'find':
                return I.algo('std_find', [It(o, 'BEG'), It(o, 'END'), args[0]])
            raise Unsupported('set.' + a)
        # vector
        if a in ('size', 'length'):
            st = I.vstate(o)
            return mkU([(len(x), g) for x, g in st.alts]) if isinstance(st, U) else len(st)
        if a == 'empty':
            st = I.vstate(o)
            return _b(cmp('==', mkU([(len(x), g) for x, g in st.alts]), 0)) if isinstance(st, U) else len(st) == 0
        if a in ('push_back', 'append'):
            v = args[0]
            if isinstance(v, (CVec, VRef)):
                v = I.vstate(v)
            elif isinstance(v, (list, np.ndarray)):
                v = I.vecval(v, CT('vec', CT('o')))
            I.vmap(o, lambda x: x + (v,))
            return None
        if a == 'pop_back':
            def pop(x):
                if not x:
                    c.event('oob')
                    return x
                return x[:-1]
            I.vmap(o, pop)
            return None
        if a == 'clear':
            I.vset(o, ())
            return None
        if a == 'resize':
            n = args[0]
            n = c.concretize(n) if isinstance(n, U) else int(n)

            def rs(x):
                if len(x) >= n:
                    return x[:n]
                fill = args[1] if len(args) > 1 else _vfill(o)
                return x + tuple(fill for _ in range(n - len(x)))
            I.vmap(o, rs)
            return None
        if a == 'begin':
            st = I.vstate(o)
            if isinstance(st, U):
                return mkU([(It(o, 0 if x else 'END'), g) for x, g in st.alts])
            return It(o, 0 if st else 'END')
        if a == 'end':
            return It(o, 'END')
        if a == 'assign':
            # assign(begin, end)
            if isinstance(args[0], It):
                I.vset(o, I.vstate(args[0].c))
                return None
            I.vset(o, tuple(args[1] for _ in range(int(args[0]))))
            return None
        if a == 'erase':
            it = args[0]

            def er(x):
                if it.pos == 'END':
                    c.event('oob')
                    return x
                return x[:it.pos] + x[it.pos + 1:]
            if isinstance(it, U):
                raise Unsupported('erase at symbolic position')
            I.vmap(o, er)
            return None
        if a == 'back':
            st = I.vstate(o)
            return I.vidx(st, len(st) - 1)
        if a == 'front':
            return I.vidx(I.vstate(o), 0)
        if a == 'at':
            return I.vidx(I.vstate(o), args[0])
        raise Unsupported('vector.' + a)


VFILL = {}


def _vfill(o):
    """element value created by vector::resize, from the declared element type of the variable"""
    root = o if isinstance(o, CVec) else o.root
    depth = 0 if isinstance(o, CVec) else len(o.path)
    ct = getattr(root, 'ct', None)
    if ct is None:
        # infer from siblings
        st = root.st
        return 0
    e = ct
    for _ in range(depth + 1):
        e = e.elem
    if e.k == 'vec':
        return ()
    return Fraction(0) if e.k == 'f' else 0


class ListMeth:
    def __init__(self, I, o, a):
        self.I, self.o, self.a = I, o, a

    def __call__(self, *args, **kw):
        I, o, a = self.I, self.o, self.a
        if a in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
            I.c.snapshot_list(o)
        if a == 'remove':
            for k, y in enumerate(o):
                q = truth_(I, I.compare('==', y, args[0]))
                if I.c.decide(q):
                    del o[k]
                    return None
            raise PyExc(ValueError('list.remove(x): x not in list'), I.c.where)
        if a == 'index':
            for k, y in enumerate(o):
                if I.c.decide(truth_(I, I.compare('==', y, args[0]))):
                    return k
            raise PyExc(ValueError('not in list'), I.c.where)
        if a == 'extend':
            o.extend(I.iterate(args[0]))
            return None
        if a == 'count':
            return ssum([b2u(truth_(I, I.compare('==', y, args[0]))) for y in o])
        if a == 'pop' and args and isinstance(args[0], U):
            args = (I.c.concretize(args[0]),)
        return getattr(o, a)(*args, **kw)


class DictMeth:
    def __init__(self, I, o, a):
        self.I, self.o, self.a = I, o, a

    def __call__(self, *args, **kw):
        I, o, a = self.I, self.o, self.a
        if a in ('update', 'setdefault', 'pop', 'clear') and len(I.c.pcs) > 1:
            raise Unsupported('dict.%s under a symbolic guard' % a)
        if a in ('keys', 'values', 'items'):
            return list(getattr(o, a)())
        return getattr(o, a)(*args, **kw)


def declname_fn(d):
    while type(d).__name__ != 'CFuncDeclaratorNode':
        d = d.base
    return declname(d.base)[0]


_asg_cache = {}


def assigned(node):
    """(names assigned, names assigned in place) in a body"""
    k = id(node)
    if k in _asg_cache:
        return _asg_cache[k][1]
    names, inp = set(), set()

    def lhs(l):
        t = type(l).__name__
        if t == 'NameNode':
            names.add(l.name)
        elif t in ('TupleNode', 'ListNode'):
            for a in l.args:
                lhs(a)

    def walk(n):
        t = type(n).__name__
        if t == 'StatListNode':
            for s in n.stats:
                walk(s)
        elif t == 'SingleAssignmentNode':
            lhs(n.lhs)
        elif t == 'CascadedAssignmentNode':
            for l in n.lhs_list:
                lhs(l)
        elif t == 'InPlaceAssignmentNode':
            if type(n.lhs).__name__ == 'NameNode':
                names.add(n.lhs.name)
                inp.add(n.lhs.name)
        elif t == 'IfStatNode':
            for c in n.if_clauses:
                walk(c.body)
            if n.else_clause is not None:
                walk(n.else_clause)
        elif t in ('ForInStatNode', 'WhileStatNode'):
            if t == 'ForInStatNode':
                lhs(n.target)
            walk(n.body)
    walk(node)
    # a name both assigned and updated in place inside the body is private, not a reduction
    only_inp = set()

    def plain(n, acc):
        t = type(n).__name__
        if t == 'StatListNode':
            for s in n.stats:
                plain(s, acc)
        elif t == 'SingleAssignmentNode' and type(n.lhs).__name__ == 'NameNode':
            acc.add(n.lhs.name)
        elif t == 'IfStatNode':
            for c in n.if_clauses:
                plain(c.body, acc)
            if n.else_clause is not None:
                plain(n.else_clause, acc)
        elif t in ('ForInStatNode', 'WhileStatNode'):
            plain(n.body, acc)
    pl = set()
    plain(node, pl)
    r = (names, inp - pl)
    _asg_cache[k] = (node, r)
    return r


_parse_cache = {}


def _parsed(name):
    src = front.src_of(name)
    k = (name, hash(src))
    if k not in _parse_cache:
        _parse_cache[k] = parse_source(src, front.PATHS[name])
    return _parse_cache[k]


I_ = Interp
_STMT = {
    'StatListNode': I_.st_list, 'IfStatNode': I_.st_if, 'ExprStatNode': I_.st_expr, 'SingleAssignmentNode': I_.st_assign,
    'CascadedAssignmentNode': I_.st_cascade, 'InPlaceAssignmentNode': I_.st_inplace, 'CVarDefNode': I_.st_cvar,
    'ReturnStatNode': I_.st_return, 'ForInStatNode': I_.st_for, 'WhileStatNode': I_.st_while, 'BreakStatNode': I_.st_break,
    'ContinueStatNode': I_.st_continue, 'PassStatNode': I_.st_pass, 'GILStatNode': I_.st_gil, 'CFuncDefNode': I_.st_def,
    'DefNode': I_.st_def, 'PyClassDefNode': I_.st_class, 'FromImportStatNode': I_.st_import_from, 'TryExceptStatNode': I_.st_try,
    'TryFinallyStatNode': I_.st_tryfin, 'RaiseStatNode': I_.st_raise, 'AssertStatNode': I_.st_assert, 'PrintStatNode': I_.st_print,
    'DelStatNode': I_.st_del, 'WithStatNode': I_.st_with, 'GlobalNode': I_.st_global, 'ComprehensionAppendNode': I_.st_compappend,
    'DictComprehensionAppendNode': I_.st_compappend, 'CImportStatNode': I_.st_pass, 'FromCImportStatNode': I_.st_pass,
    'CTypeDefNode': I_.st_pass, 'CDefExternNode': I_.st_pass,
}
_EXPR = {
    'NameNode': I_.e_name, 'IntNode': I_.e_int, 'FloatNode': I_.e_float, 'StringNode': I_.e_str, 'UnicodeNode': I_.e_str,
    'IdentifierStringNode': I_.e_str, 'BytesNode': I_.e_bytes, 'NoneNode': I_.e_none, 'BoolNode': I_.e_bool, 'TupleNode': I_.e_tuple,
    'ListNode': I_.e_list, 'SetNode': I_.e_set, 'DictNode': I_.e_dict, 'SliceNode': I_.e_slice, 'AttributeNode': I_.e_attr,
    'IndexNode': I_.e_index, 'SliceIndexNode': I_.e_sliceidx, 'SimpleCallNode': I_.e_call, 'GeneralCallNode': I_.e_call,
    'AddNode': I_.e_binop, 'SubNode': I_.e_binop, 'MulNode': I_.e_binop, 'DivNode': I_.e_binop, 'ModNode': I_.e_binop,
    'PowNode': I_.e_binop, 'IntBinopNode': I_.e_binop, 'MatMultNode': I_.e_binop, 'NumBinopNode': I_.e_binop,
    'UnaryMinusNode': I_.e_neg, 'UnaryPlusNode': I_.e_pos, 'TildeNode': I_.e_inv, 'NotNode': I_.e_not, 'BoolBinopNode': I_.e_boolop,
    'CondExprNode': I_.e_cond, 'PrimaryCmpNode': I_.e_cmp, 'ComprehensionNode': I_.e_comp, 'InlinedGeneratorExpressionNode': I_.e_gen,
    'GeneratorExpressionNode': I_.e_gen, 'YieldExprNode': I_.e_yield, 'LambdaNode': I_.e_lambda, 'TypecastNode': I_.e_typecast,
    'JoinedStrNode': I_.e_joined, 'ImportNode': I_.e_import, 'AsTupleNode': I_.e_astuple, 'EllipsisNode': I_.e_ellipsis,
}
