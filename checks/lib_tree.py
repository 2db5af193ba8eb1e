"""Symbolic decision-tree ensembles as the tree explainer stores them, and the textbook definitions over them."""
import itertools
from math import comb
from engine.driver import *
from engine.interp import SObj
from checks.lib_forest import SHAPES, depth_of, le, lt, pick, mapU, subsets, symset, tob

NINF, PINF = float('-inf'), float('inf')


class Ens:
    """shapes: list of (shape, features of the split nodes in node order). Thresholds and leaf values are solver variables."""
    def __init__(self, run, trees, D, N, d=1, values='sym', inf='inf', dup=(), stump_only=False):
        self.run, self.D, self.N, self.d, self.B = run, D, N, d, len(trees)
        self.trees = trees
        self.data = run.reals('data', N, D)
        nn = max(len(SHAPES[s][0]) for s, _ in trees)
        self.leaf_ids = []
        self.paths = []
        self.feat = []
        self.thr = []
        for b, (s, fs) in enumerate(trees):
            l, r = SHAPES[s]
            it = iter(fs)
            feat, thr = {}, {}
            for k in range(len(l)):
                if l[k] >= 0:
                    feat[k] = next(it)
                    thr[k] = run.real('t%d_%d' % (b, k))
            self.feat.append(feat)
            self.thr.append(thr)
            leaves, paths = [], []

            def walk(k, path):
                if l[k] < 0:
                    leaves.append(k)
                    paths.append(path)
                    return
                walk(l[k], path + [(feat[k], 0, thr[k])])
                walk(r[k], path + [(feat[k], 1, thr[k])])
            walk(0, [])
            o = sorted(range(len(leaves)), key=lambda i: leaves[i])
            self.leaf_ids.append([leaves[i] for i in o])
            self.paths.append([paths[i] for i in o])
        ml = max(len(x) for x in self.leaf_ids)
        self.values = mkarr((self.B, nn, d), Fraction(0), 'f')
        self.part = mkarr((self.B, ml, D, 2), Fraction(-1), 'f')
        self.leaf_idx = mkarr((self.B, ml), -1, 'i')
        self.nb = mkarr((self.B,), 0, 'i')
        self.node_idx = []
        self.box = []
        for b in range(self.B):
            self.nb[b] = len(self.leaf_ids[b])
            ni, bx = [], []
            for j, (k, path) in enumerate(zip(self.leaf_ids[b], self.paths[b])):
                self.leaf_idx[b, j] = k
                lo, hi = [NINF] * D, [PINF] * D
                for f, side, t in path:
                    if side == 0:
                        hi[f] = t if hi[f] == PINF else ite(lt(t, hi[f]), t, hi[f])
                    else:
                        lo[f] = t if lo[f] == NINF else ite(lt(lo[f], t), t, lo[f])
                for f in range(D):
                    self.part[b, j, f, 0], self.part[b, j, f, 1] = lo[f], hi[f]
                bx.append((lo, hi))
                ni.append(sorted({f for f, _, _ in path}))
                for o in range(d):
                    self.values[b, k, o] = run.real('v%d_%d_%d' % (b, k, o)) if values == 'sym' else values(run, b, k, o)
            self.node_idx.append(ni)
            self.box.append(bx)
        self.max_var = max(len(x) for ni in self.node_idx for x in ni)
        self.scal = mkarr((self.B,), Fraction(1), 'f')
        self._m = {}

    def inbox(self, b, j, row, f):
        lo, hi = self.box[b][j]
        p = T
        if hi[f] != PINF:
            p = band(p, le(row[f], hi[f]))
        if lo[f] != NINF:
            p = band(p, lt(lo[f], row[f]))
        return p

    def member(self, b, j, row, S):
        return band(*[self.inbox(b, j, row, f) for f in S]) if S else T

    def count(self, b, j, S):
        k = (b, j, tuple(sorted(S)))
        if k not in self._m:
            self._m[k] = ssum([b2u(self.member(b, j, self.data[i], S)) for i in range(self.N)])
        return self._m[k]

    def ratio(self, b, j, S):
        """share of the rows of the S-part of the leaf that lie in the leaf; 0 when there is none"""
        if not S:
            return mapU(self.count(b, j, range(self.D)), lambda a: Fraction(a, self.N))
        return div_counts(self.count(b, j, range(self.D)), self.count(b, j, S))

    def v(self, row, S, o=0, trees=None):
        """leaf estimator of E[output o | X_S = row_S]"""
        s = Fraction(0)
        for b in (range(self.B) if trees is None else trees):
            for j, k in enumerate(self.leaf_ids[b]):
                r = self.ratio(b, j, S)
                m = self.member(b, j, row, S)
                if m is F:
                    continue
                s = arith('+', s, arith('*', ite(m, r, Fraction(0)), self.values[b, k, o]))
        return s

    def pred(self, row, o=0):
        s = Fraction(0)
        for b in range(self.B):
            for j, k in enumerate(self.leaf_ids[b]):
                s = arith('+', s, ite(self.member(b, j, row, range(self.D)), self.values[b, k, o], Fraction(0)))
        return s

    def shapley(self, row, o, groups, trees=None):
        """Shapley values of the groups (players) for the game S -> v(union of S)"""
        P = len(groups)
        phi = []
        val = {}
        for k in range(P + 1):
            for S in itertools.combinations(range(P), k):
                val[S] = self.v(row, sorted(f for g in S for f in groups[g]), o, trees)
        for j in range(P):
            s = Fraction(0)
            for S, x in val.items():
                if j in S:
                    continue
                w = Fraction(1, P * comb(P - 1, len(S)))
                s = arith('+', s, arith('*', w, arith('-', val[tuple(sorted(S + (j,)))], x)))
            phi.append(s)
        return phi

    def explainer(self, **kw):
        cls = self.run.I.fn('acv_explainers.acv_tree', 'ACVTree')
        o = SObj(cls)
        m = SObj(None)
        m.a.update({'#fake': True})
        o.a.update(data=self.data, values=self.values, partition_leaves_trees=self.part, leaf_idx_trees=self.leaf_idx, leaves_nb=self.nb,
                   max_var=self.max_var, node_idx_trees=self.node_idx, scalings=self.scal, num_outputs=self.d, cache=False, cache_normalized=False,
                   C=[[]], model=m)
        o.a.update(kw)
        return o


def div_counts(a, n):
    """a / n with 0 for n == 0; both finite alternatives"""
    A = a.alts if isinstance(a, U) else [(a, T)]
    M = n.alts if isinstance(n, U) else [(n, T)]
    acc = {}
    for x, g in A:
        for y, h in M:
            if x > y:
                continue
            v = Fraction(x, y) if y else Fraction(0)
            q = band(g, h)
            if q is not F:
                acc.setdefault(v, []).append(q)
    return mkU([(v, bor(*gs)) for v, gs in acc.items()])


def groups_of(C, D):
    """players for a coalition argument: every variable alone, the variables of a coalition together"""
    seen, out = set(), []
    for f in range(D):
        if f in seen:
            continue
        c = [c for c in C if f in c]
        g = list(c[0]) if c else [f]
        seen |= set(g)
        out.append(g)
    return out


def vnorm(E, row, S, o, trees=None):
    """leaf estimator with the leaf weights renormalised to sum to one in every tree"""
    s = Fraction(0)
    for b in range(E.B):
        den = Fraction(0)
        for j in range(len(E.leaf_ids[b])):
            den = arith('+', den, ite(E.member(b, j, row, S), E.ratio(b, j, S), Fraction(0)))
        inv = mapU(den, lambda a: 1 / Fraction(a) if a else Fraction(0))
        for j, k in enumerate(E.leaf_ids[b]):
            w = arith('*', ite(E.member(b, j, row, S), E.ratio(b, j, S), Fraction(0)), inv)
            s = arith('+', s, arith('*', w, E.values[b, k, o]))
    return s


def shapley(P, val):
    """Shapley values of players 0..P-1 for val(tuple)"""
    v = {S: val(S) for k in range(P + 1) for S in itertools.combinations(range(P), k)}
    phi = []
    for j in range(P):
        s = Fraction(0)
        for S, x in v.items():
            if j not in S:
                s = arith('+', s, arith('*', Fraction(1, P * comb(P - 1, len(S))), arith('-', v[tuple(sorted(S + (j,)))], x)))
        phi.append(s)
    return phi


def union(groups, S):
    return sorted({f for g in S for f in groups[g]})


SHAP = ['shap_values', 'shap_values_nopa', 'shap_values_cache', 'shap_values_cache_nopa']
SHAPN = ['shap_values_normalized', 'shap_values_normalized_cache', 'shap_values_normalized_cache_nopa']
ACV = ['shap_values_acv', 'shap_values_acv_nopa']
ADAP = ['shap_values_acv_adap', 'shap_values_acv_adap_nopa']


def prepare(run, E, method, C):
    """the explainer, with its leaf cache filled by the library when the method reads it"""
    ex = E.explainer()
    if 'cache' in method:
        nm = 'leaves_cache' + ('_normalized' if 'normalized' in method else '') + ('_nopa' if 'nopa' in method else '')
        a, b, c = run.call((ex, nm), C)
        n = '_n' if 'normalized' in method else ''
        ex.a.update({'lm' + n: a, 'lm_s' + n: b, 'lm_si' + n: c})
    return ex


# (name, trees, D, N, outputs, coalitions)
ENS = [
    ('full2', [('full2', [0, 1, 2])], 3, 3, 1, [[]]),
    ('two', [('left2', [0, 1]), ('stump', [1])], 2, 3, 2, [[]]),
    ('pair', [('left2', [0, 1]), ('right2', [1, 0])], 2, 2, 1, [[]]),
    ('rep', [('chain3', [0, 1, 0])], 3, 3, 1, [[]]),
    ('coal', [('full2', [0, 1, 2])], 3, 3, 1, [[0, 1]]),
    ('coal2', [('zig3', [0, 3, 2])], 4, 2, 1, [[0, 1], [2, 3]]),
    ('coal3', [('right2', [2, 1]), ('stump', [0])], 3, 2, 1, [[2, 0]]),
]


def desc(e):
    return '%d tree(s) %s, %d variables, %d background rows, %d output(s), coalitions %s; thresholds, leaf values, rows symbolic' % (
        len(e[1]), [s for s, f in e[1]], e[2], e[3], e[4], e[5])


class ConstRow:
    """a prediction function with one output for every row"""
    def __init__(self, v):
        self.v = v

    def __call__(self, X, *a, **k):
        vec = isinstance(self.v, list)
        o = mkarr((len(X), len(self.v)) if vec else (len(X),), Fraction(0), 'f')
        for i in range(len(X)):
            if vec:
                for j, v in enumerate(self.v):
                    o[i, j] = v
            else:
                o[i] = self.v
        return o

    def __replay__(self, m, memo, enc):
        return dict(t='constrow', v=enc(self.v, m, memo))


class RowTab:
    """a prediction function known only on the rows given: [(row, outputs)]"""
    def __init__(self, rows):
        self.rows = rows
        self.vec = isinstance(rows[0][1], list)

    def __call__(self, X, *a, **k):
        out = []
        for r in X:
            for q, v in self.rows:
                if all(y is x or repr(x) == repr(y) for x, y in zip(q, r)):
                    out.append(v)
                    break
            else:
                raise Unsupported('prediction of an unknown row')
        o = mkarr((len(out), len(out[0])) if self.vec else (len(out),), Fraction(0), 'f')
        for i, v in enumerate(out):
            if self.vec:
                for j, x in enumerate(v):
                    o[i, j] = x
            else:
                o[i] = v
        return o

    def __replay__(self, m, memo, enc):
        return dict(t='rowtab', rows=[[enc(list(q), m, memo), enc(v, m, memo)] for q, v in self.rows])


def labels(run, E, X, K=2, vals=None):
    """predicted classes (K) or values (vals) of the explained and background rows; equal rows have equal predictions"""
    rows = [X[i] for i in range(X.shape[0])] + [E.data[j] for j in range(E.N)]
    lab = [run.pick('y%d' % i, list(range(K)) if vals is None else vals) for i in range(len(rows))]
    for i in range(len(rows)):
        for j in range(i):
            same = band(*[tob(cmp('==', a, b)) for a, b in zip(rows[i], rows[j])])
            run.assume(bor(bnot(same), tob(cmp('==', lab[i], lab[j]))))
    nx = X.shape[0]
    return lab[:nx], lab[nx:], rows


def classifier(E, rows, lab, K=2):
    m = SObj(None)
    m.a.update({'#fake': True, 'predict_proba': RowTab([(list(r), [mapU(l, lambda c, k=k: Fraction(3, 4) if c == k else Fraction(1, 4 * max(K - 1, 1))) for k in range(K)])
                                                       for r, l in zip(rows, lab)])})
    return m


def genvals(run, b, k, o):
    """leaf values that are not symbolic: pairwise different, no simple ratios"""
    return Fraction([7, 31, 113, 59, 17, 241, 89][k] + 13 * b * b + 1, 101) + Fraction(o * (k * k + 3 * b + 5), 37)


def iarr(L):
    a = mkarr((len(L),), 0, 'i')
    for i, x in enumerate(L):
        a[i] = x
    return a
