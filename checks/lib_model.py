"""Symbolic fitted tree models as scikit-learn, skranger, LightGBM and XGBoost hand them over, and their own predictions."""
from engine.driver import *
from engine.interp import SObj
from checks.lib_forest import SHAPES, depth_of, le, lt


def safe_isinstance(obj, paths):
    t = obj.a.get('#types') if isinstance(obj, SObj) else None
    return t is not None and t in ([paths] if isinstance(paths, str) else list(paths))


OVERRIDES = {'acv_explainers.utils.safe_isinstance': safe_isinstance}


def ints(v):
    a = mkarr((len(v),), 0, 'i')
    for i, x in enumerate(v):
        a[i] = x
    return a


def fls(v):
    a = mkarr((len(v),), Fraction(0), 'f')
    for i, x in enumerate(v):
        a[i] = Fraction(x) if isinstance(x, int) else x
    return a


class Const:
    """a function without arguments"""
    def __init__(self, v):
        self.v = v

    def __call__(self, *a, **k):
        return self.v

    def __replay__(self, m, memo, enc):
        return dict(t='const', v=enc(self.v, m, memo))


def fake(types, **kw):
    o = SObj(None)
    o.a.update({'#fake': True, '#types': types})
    o.a.update(kw)
    return o


class Tree:
    """one fitted tree: shape, split variables in node order, symbolic thresholds and node values (classes k)"""
    def __init__(self, run, tag, shape, feats, k=1, values=None):
        l, r = SHAPES[shape]
        self.cl, self.cr, self.n = list(l), list(r), len(l)
        it = iter(feats)
        self.feat = [next(it) if l[j] >= 0 else -2 for j in range(self.n)]
        self.thr = [run.real('%st%d' % (tag, j)) if l[j] >= 0 else Fraction(-2) for j in range(self.n)]
        self.val = [[run.real('%sv%d_%d' % (tag, j, q)) for q in range(k)] for j in range(self.n)]
        self.leaves = [j for j in range(self.n) if l[j] < 0]

    def goes(self, j, x, strict=False):
        """condition under which row x reaches node j"""
        out = T
        while j:
            p = [q for q in range(self.n) if j in (self.cl[q], self.cr[q])][0]
            g = (lt if strict else le)(x[self.feat[p]], self.thr[p])
            out = band(out, g if self.cl[p] == j else bnot(g))
            j = p
        return out

    def vars(self, j):
        out = set()
        while j:
            j = [q for q in range(self.n) if j in (self.cl[q], self.cr[q])][0]
            out.add(self.feat[j])
        return out

    def value(self, x, val, strict=False):
        """value (list over outputs) of the leaf the row falls in"""
        r = None
        for j in self.leaves:
            v = val(j)
            r = v if r is None else [ite(self.goes(j, x, strict), a, b) for a, b in zip(v, r)]
        return r

    def plain(self, scale=None):
        v = mkarr((self.n, len(self.val[0])), Fraction(0), 'f')
        for j in range(self.n):
            for q, x in enumerate(self.val[j]):
                v[j, q] = x
        return v

    def w(self):
        """rows of the training sample per node (concrete: only depth and positivity matter)"""
        out = [0] * self.n
        for j in sorted(range(self.n), reverse=True):
            out[j] = 1 if self.cl[j] < 0 else out[self.cl[j]] + out[self.cr[j]]
        return out

    def as_dict(self):
        return dict(children_left=ints(self.cl), children_right=ints(self.cr), children_default=ints(self.cl), features=ints(self.feat),
                    thresholds=fls(self.thr), values=self.plain(), node_sample_weight=fls(self.w()))

    def as_old_dict(self):
        d = self.as_dict()
        d['feature'], d['threshold'], d['value'] = d.pop('features'), d.pop('thresholds'), d.pop('values')
        return d

    def as_sklearn(self, types='sklearn.tree._tree.Tree'):
        v = mkarr((self.n, 1, len(self.val[0])), Fraction(0), 'f')
        for j in range(self.n):
            for q, x in enumerate(self.val[j]):
                v[j, 0, q] = x
        return fake(types, children_left=ints(self.cl), children_right=ints(self.cr), feature=ints(self.feat), threshold=fls(self.thr), value=v,
                    weighted_n_node_samples=fls(self.w()), n_node_samples=ints(self.w()))

    def as_xgb(self, j=0):
        w = self.w()
        if self.cl[j] < 0:
            return dict(nodeid=j, leaf=self.val[j][0], cover=w[j])
        return dict(nodeid=j, depth=0, split=self.feat[j], split_condition=self.thr[j], yes=self.cl[j], no=self.cr[j], missing=self.cl[j], cover=w[j],
                    children=[self.as_xgb(self.cl[j]), self.as_xgb(self.cr[j])])

    def as_lgb(self):
        inner = [j for j in range(self.n) if self.cl[j] >= 0]
        w = self.w()

        def go(j):
            if self.cl[j] < 0:
                return dict(leaf_index=self.leaves.index(j), leaf_value=self.val[j][0], leaf_count=w[j])
            return dict(split_index=inner.index(j), split_feature=self.feat[j], threshold=self.thr[j], decision_type='<=', default_left=bool(j % 2),
                        internal_value=self.val[j][0], internal_count=w[j], left_child=go(self.cl[j]), right_child=go(self.cr[j]))
        return dict(tree_index=0, num_leaves=len(self.leaves), tree_structure=go(0))

    def as_hist(self):
        """node records of a histogram gradient boosting tree: value, count, feature, threshold, missing left, left, right, gain, depth, is leaf, bin"""
        d, w = {0: 0}, self.w()
        for j in range(self.n):
            for q in (self.cl[j], self.cr[j]):
                if q >= 0:
                    d[q] = d[j] + 1
        return [(self.val[j][0], w[j], max(self.feat[j], 0), self.thr[j], j % 2, max(self.cl[j], 0), max(self.cr[j], 0), 0, d[j], int(self.cl[j] < 0), 0)
                for j in range(self.n)]


def total(vs):
    s = vs[0]
    for v in vs[1:]:
        s = [arith('+', a, b) for a, b in zip(s, v)]
    return s


def scaled(v, c):
    return [arith('*', a, c) for a in v]


def mean(vs):
    return scaled(total(vs), Fraction(1, len(vs)))


class Fit:
    """fit method of a third-party model: every call installs the next of the given states"""
    def __init__(self, owner, states):
        self.owner, self.states, self.n = owner, states, 0

    def __call__(self, *a, **k):
        self.owner.a.update(self.states[self.n])
        self.n += 1
        return self.owner


def fittable(types, states):
    o = fake(types, fits=states)
    o.a['fit'] = Fit(o, states)
    return o
