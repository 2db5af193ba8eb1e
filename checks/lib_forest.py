"""Symbolic forests, the explainer object around them, and the independent definition of the projected forest."""
import math
from engine.driver import *
from engine.interp import SObj

# shape name -> (children_left, children_right); node ids grow with depth, as the forests of the library do
SHAPES = {
    'stump': ([1, -1, -1], [2, -1, -1]),
    'left2': ([1, 3, -1, -1, -1], [2, 4, -1, -1, -1]),
    'right2': ([1, -1, 3, -1, -1], [2, -1, 4, -1, -1]),
    'full2': ([1, 3, 5, -1, -1, -1, -1], [2, 4, 6, -1, -1, -1, -1]),
    'chain3': ([1, -1, 3, -1, 5, -1, -1], [2, -1, 4, -1, 6, -1, -1]),
    'zig3': ([1, 3, -1, -1, 5, -1, -1], [2, 4, -1, -1, 6, -1, -1]),
    'full3': ([1, 3, 5, 7, 9, 11, 13] + [-1] * 8, [2, 4, 6, 8, 10, 12, 14] + [-1] * 8),
    'leaf': ([-1], [-1]),
}


def depth_of(shape):
    cl, cr = SHAPES[shape]
    d = {0: 0}
    for n in range(len(cl)):
        for k in (cl[n], cr[n]):
            if k >= 0:
                d[k] = d[n] + 1
    return d


class Forest:
    def __init__(self, run, shapes, D, feats='sym', thr='sym', tag=''):
        """feats: 'sym' (every split feature is a solver variable) or a list of feature lists per tree"""
        self.run, self.shapes, self.D, self.B = run, shapes, D, len(shapes)
        n = max(len(SHAPES[s][0]) for s in shapes)
        self.n = n
        self.features = mkarr((self.B, n), -1, 'i')
        self.thresholds = mkarr((self.B, n), Fraction(0), 'f')
        self.cl = mkarr((self.B, n), -1, 'i')
        self.cr = mkarr((self.B, n), -1, 'i')
        for a in (self.features, self.cl, self.cr):
            a.cdt = 'int'
        for b, s in enumerate(shapes):
            l, r = SHAPES[s]
            j = 0
            for k in range(len(l)):
                self.cl[b, k], self.cr[b, k] = l[k], r[k]
                if l[k] < 0:
                    self.features[b, k] = -2
                    self.thresholds[b, k] = Fraction(-2)
                else:
                    self.features[b, k] = run.choice('%sf%d_%d' % (tag, b, k), range(D)) if feats == 'sym' else feats[b][j]
                    self.thresholds[b, k] = run.real('%st%d_%d' % (tag, b, k)) if thr == 'sym' else dec(float(thr[b][j]))
                    j += 1
        self.max_depth = max(max(depth_of(s).values()) for s in shapes)

    def order(self, b):
        d = depth_of(self.shapes[b])
        return sorted((k for k in d if self.cl[b, k] >= 0), key=lambda k: (d[k], k))

    def explainer(self, classifier=1):
        I = self.run.I
        cls = I.fn('acv_explainers.acv_agnosticX', 'ACXplainer')
        o = SObj(cls)
        A = SObj(None)
        A.a.update({'#fake': True, 'features': self.features, 'thresholds': self.thresholds, 'children_left': self.cl, 'children_right': self.cr,
                    'max_depth': self.max_depth, 'node_idx_trees': [[[]]]})
        m = SObj(None)
        m.a.update({'#fake': True})
        o.a.update(classifier=classifier, model=m, check_is_explain=True, ACXplainer=A, d=self.D, check_is_globalrule=False)
        return o


def pick(f, row):
    """row[f] for a possibly symbolic index f"""
    if isinstance(f, U):
        r = None
        for v, g in f.alts:
            if v < 0:
                continue
            r = row[v] if r is None else ite(g, row[v], r)
        return r
    return row[f]


def le(a, b):
    return tob(cmp('<=', a, b))


def lt(a, b):
    return tob(cmp('<', a, b))


def inset(f, S, D):
    """is feature f in the (symbolic) set S; S: list/tuple, or union of tuples, or list of B per feature"""
    def has(v):
        if isinstance(S, dict):
            return S[v]
        if isinstance(S, U):
            return bor(*[g for s, g in S.alts if v in s])
        return T if v in list(S) else F
    if isinstance(f, U):
        return bor(*[band(g, has(v)) for v, g in f.alts])
    return has(f)


def projection(F_, x, data, S, minsize, cond=None, intv=False):
    """Definition of the projected forest of x on S.
    Per tree: nodes in breadth-first order; a node whose variable is in S sends x to one side and keeps the background rows on that side;
    other nodes are crossed on both sides (or, with a region `cond`, on the side the region lies in); a tree stops refining once fewer than
    minsize rows remain. Returns (membership[b][i], lo[f], hi[f])."""
    D, N = F_.D, data.shape[0]
    lo = [Fraction(-10 ** 10)] * D
    hi = [Fraction(10 ** 10)] * D
    mem = []
    for b in range(F_.B):
        m = [T] * N
        reach = {0: T}
        stop = F
        first = True
        for k in F_.order(b):
            f, th = F_.features[b, k], F_.thresholds[b, k]
            act = band(reach.get(k, F), bnot(stop))
            ins = inset(f, S, D)
            left = le(pick(f, x), th)
            goL, goR = band(ins, left), band(ins, bnot(left))
            if intv:
                goL = goR = F
            if cond is not None:
                cl_ = le(pick(f, [cond[q, 1] for q in range(D)]), th)
                cr_ = lt(th, pick(f, [cond[q, 0] for q in range(D)]))
                goL = bor(goL, band(bnot(ins), cl_))
                goR = bor(goR, band(bnot(ins), bnot(cl_), cr_))
            for i in range(N):
                dl = le(pick(f, data[i]), th)
                m[i] = band(m[i], bnot(band(act, bor(band(goL, bnot(dl)), band(goR, dl)))))
            for v in range(D):
                isv = tob(cmp('==', f, v))
                gl, gr = band(act, goL, isv), band(act, goR, isv)
                if gl is not F:
                    hi[v] = ite(band(gl, lt(th, hi[v])), th, hi[v])
                if gr is not F:
                    lo[v] = ite(band(gr, lt(lo[v], th)), th, lo[v])
            l, r = F_.cl[b, k], F_.cr[b, k]
            reach[l] = band(act, bnot(goR))
            reach[r] = band(act, bnot(goL))
            if minsize is not None:
                n = ssum([b2u(q) for q in m])
                stop = bor(stop, band(act if not first else T, tob(cmp('<', n, minsize))))
            first = False
        mem.append(m)
    return mem, lo, hi


def frac_of(mem, pred, nt):
    """average over trees of the fraction of retained rows satisfying pred (empty trees contribute 0)"""
    s = Fraction(0)
    for m in mem:
        n = ssum([b2u(q) for q in m])
        inv = mapU(n, lambda a: Fraction(1, a * nt) if a else Fraction(0))
        for i, q in enumerate(m):
            k = band(q, pred[i])
            if k is not F:
                s = arith('+', s, ite(k, inv, Fraction(0)))
    return s


def weight_of(mem, i, nt):
    s = Fraction(0)
    for m in mem:
        n = ssum([b2u(q) for q in m])
        inv = mapU(n, lambda a: Fraction(1, a * nt) if a else Fraction(0))
        s = arith('+', s, ite(m[i], inv, Fraction(0)))
    return s


def mapU(u, f):
    if isinstance(u, U):
        return mkU([(f(a), g) for a, g in u.alts])
    return f(u)


def subsets(D, lo=0):
    import itertools
    out = []
    for k in range(lo, D + 1):
        out += list(itertools.combinations(range(D), k))
    return out


def symset(run, name, D, lo=0):
    return run.choice(name, subsets(D, lo))


def tree_explainer(run, F_):
    """the tree explainer over the same forest"""
    o = SObj(run.I.fn('acv_explainers.acv_tree', 'ACVTree'))
    trees = []
    for b in range(F_.B):
        q = SObj(None)
        q.a.update({'#fake': True, 'features': F_.features[b], 'thresholds': F_.thresholds[b], 'children_left': F_.cl[b], 'children_right': F_.cr[b]})
        trees.append(q)
    o.a.update(features=F_.features, thresholds=F_.thresholds, children_left=F_.cl, children_right=F_.cr, max_depth=F_.max_depth, trees=trees)
    return o


def tree_level(run, y, form):
    """the accepted squared distance as the tree explainer takes it (scalar or one per row), and the intervals it stands for"""
    n = len(y)
    if form == 'scalar':
        ts, arg = [Fraction(4)] * n, Fraction(4)
    else:
        ts = [Fraction(9, 4), Fraction(1, 4)][:n]
        arg = mkarr((n,), Fraction(0), 'f')
        for i in range(n):
            arg[i] = ts[i]
    rad = [Fraction(math.isqrt(v.numerator), math.isqrt(v.denominator)) for v in ts]
    return arg, [[arith('-', v, r), arith('+', v, r)] for v, r in zip(y, rad)]
