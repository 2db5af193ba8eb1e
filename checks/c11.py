"""Searches of the forest explainer for a smallest set reaching the level."""
from engine.check import H
from checks.lib_forest import *
from checks.c09 import pred_of
import itertools

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite', 'forest arrays as the library builds them',
               'the level is not a rational that a probability can equal up to rounding']


def order_groups(C, space):
    inC = [v for c in C for v in c]
    return [[v] for v in space if v not in inC] + [list(c) for c in C if c and set(c) & set(space)]


def union(gs):
    return [v for g in gs for v in g]


def combos(groups, lo, D, stop):
    out = []
    for size in range(lo, len(groups) + 1):
        L = [union(c) for c in itertools.combinations(groups, size)]
        out.append(L)
        if stop and len(L[-1]) >= D // 2:
            break
    return out


class Value:
    """probability of a set under the projected forest, by its definition"""
    def __init__(self, F_, kind, mode, clf, x, data, y, yd, t, down, up, cond):
        self.__dict__.update(locals())
        self.memo = {}

    def __call__(self, S):
        k = tuple(sorted(S))
        if k not in self.memo:
            self.memo[k] = self.value(k)
        return self.memo[k]

    def value(self, S, full=True):
        D = self.F_.D
        if len(S) == D and full:
            return Fraction(1)
        Q = [v for v in range(D) if v not in S] if self.mode == 'bar' else list(S)
        mem, _, _ = projection(self.F_, self.x, self.data, Q, None, self.cond, intv=self.mode == 'intv')
        pr = pred_of(self.kind, self.clf, self.y, list(self.yd), self.t, *((self.down, self.up) if self.kind == 'cdp' else ()))
        return frac_of(mem, pr, self.F_.B)


def inputs(run, shapes, D, N, clf, nx, feats, cond, kind, importances=None):
    F_ = Forest(run, shapes, D, feats)
    X, data = run.reals('x', nx, D), run.reals('d', N, D)
    y = run.bits('y', nx) if clf else run.reals('y', nx)
    yd = run.bits('yd', N) if clf else run.reals('yd', N)
    t = run.reals('q', nx, 2)
    down, up = (run.reals('down', nx), run.reals('up', nx)) if kind == 'cdp' else (None, None)
    Cd = None
    if cond:
        Cd = run.reals('c', nx, D, 2)
        for i in range(nx):
            for f in range(D):
                run.assume(le(Cd[i, f, 0], Cd[i, f, 1]))
    ex = F_.explainer(clf)
    if importances:
        ex.a['model'].a['feature_importances_'] = [dec(float(v)) for v in importances]
    return F_, ex, X, data, y, yd, t, down, up, Cd


def dec(f):
    return Fraction(str(f))


def search(run, method, kind, mode, shapes, D, N, clf, C, pi, minimal=1, stop=True, nx=1, feats='sym', importances=None, api='agn', form='scalar'):
    cond = mode == 'intv'
    F_, ex, X, data, y, yd, t, down, up, Cd = inputs(run, shapes, D, N, clf, nx, feats, cond, kind, importances)
    args = (X, y) + ((down, up) if kind == 'cdp' else ()) + (data, yd) + ((Cd,) if cond else ())
    kw = dict(min_node_size=0, C=[list(c) for c in C], pi_level=pi, minimal=minimal, stop=stop)
    targ = t
    if api == 'tree':
        ex = tree_explainer(run, F_)
        targ, t = tree_level(run, list(y), form)
        kw['classifier'] = clf
    if not clf:
        kw['t'] = targ
    glob, star, ln, sdp = run.call((ex, method), *args, **kw)
    space = list(range(D)) if not importances else sorted(range(D), key=lambda v: -importances[v])[:10]
    levels = combos(order_groups(C, space), minimal, D, stop)
    hits = [Fraction(0)] * D
    for i in range(nx):
        f = Value(F_, kind, mode, clf, X[i], data, y[i], yd, t[i], down[i] if down is not None else None, up[i] if up is not None else None, Cd[i] if cond else None)
        is_ = {}
        for k, L in enumerate(levels):
            for S in L:
                is_[k, tuple(S)] = band(tob(cmp('==', ln[i], len(S))), *[bor(*[tob(cmp('==', star[i, p], v)) for p in range(len(S))]) for v in S])
        none = tob(cmp('==', ln[i], 0))
        reach = tob(cmp('>=', sdp[i], pi))
        run.check('set[%d]' % i, bor(none, *is_.values()))
        for p in range(D):
            run.check('tail[%d,%d]' % (i, p), bor(tob(cmp('<', p, ln[i])), tob(cmp('==', star[i, p], -1))))
        for (k, S), q in is_.items():
            if S:
                run.check('value[%d]%s' % (i, S), bor(bnot(q), tob(cmp('==', sdp[i], f(S)))))
        for k, L in enumerate(levels):
            for S in L:
                v = f(S)
                for k2 in range(len(levels)):
                    here = bor(*[q for (kk, _), q in is_.items() if kk == k2])
                    if k < k2:
                        run.check('smaller[%d]%s' % (i, S), bor(bnot(band(reach, here)), tob(cmp('<', v, pi))))
                    elif k == k2:
                        run.check('best[%d]%s' % (i, S), bor(bnot(band(reach, here)), tob(cmp('<=', v, sdp[i]))))
                run.check('missed[%d]%s' % (i, S), bor(reach, tob(cmp('<=', v, sdp[i]))))
        for v in range(D):
            has = bor(*[q for (k, S), q in is_.items() if v in S])
            hits[v] = arith('+', hits[v], b2u(band(reach, has)))
        run.cover('reach', reach)
        run.cover('smallest', band(reach, bor(*[q for (k, S), q in is_.items() if k == 0])))
    for v in range(D):
        run.eq('glob[%d]' % v, glob[v], arith('*', Fraction(1, nx), hits[v]))


PI = Fraction(17, 20)
LOW = Fraction(9, 20)
METHODS = [('importance_sdp_rf', 'sdp', 'in'), ('importance_ddp_rf', 'ddp', 'bar'), ('importance_cdp_rf', 'cdp', 'bar'),
           ('importance_ddp_intv', 'ddp', 'intv'), ('importance_cdp_intv', 'cdpi', 'intv')]


def harnesses(tier):
    out = []
    th = tier == 'thorough'

    def add(nm, meth, kind, mode, shapes, D, N, C=[[]], pi=PI, clf=1, **kw):
        out.append(H('%s-%s' % (meth, nm), search, samples=2, cost=4, method=meth, kind=kind, mode=mode, shapes=shapes, D=D, N=N + (1 if th and kw.get('nx', 1) == 1 and D < 5 else 0), clf=clf, C=C, pi=pi,
                     safety=('oob', 'oobw', 'uninit', 'div0'), timeout_ms=120000,
                     bounds='trees %s, %d features, %d background rows, coalitions %s, %s, level %s, %s' % (shapes, D, N, C, 'classifier' if clf else 'regression', pi, kw), **kw))
    for clf in (1, 0):
        add('tree-%s' % ('clf' if clf else 'reg'), 'importance_sdp_rf', 'sdp', 'in', ['stump', 'stump'], 2, 2, clf=clf, stop=False, api='tree')
        add('tree-coal-%s' % ('clf' if clf else 'reg'), 'importance_sdp_rf', 'sdp', 'in', ['left2'], 3, 2, C=[[0, 2]], clf=clf, stop=False, pi=LOW, api='tree')
        add('tree-x2-%s' % ('clf' if clf else 'reg'), 'importance_sdp_rf', 'sdp', 'in', ['stump'], 2, 2, clf=clf, stop=True, nx=2, pi=LOW, api='tree', form='array')
    for meth, kind, mode in METHODS:
        for clf in (1, 0):
            add('two-%s' % ('clf' if clf else 'reg'), meth, kind, mode, ['stump', 'stump'], 2, 2, clf=clf, stop=False)
        add('d3', meth, kind, mode, ['left2'], 3, 2, stop=True, pi=LOW)
        add('d3b', meth, kind, mode, ['left2'], 3, 2, stop=False)
        add('coal', meth, kind, mode, ['left2'], 3, 2, C=[[0, 2]], stop=False, pi=LOW)
        add('coals', meth, kind, mode, ['stump'], 5, 2, C=[[3, 0], [1, 4]], stop=False, pi=LOW, feats=[[3]])
        add('x2', meth, kind, mode, ['stump'], 2, 2, stop=False, nx=2, pi=LOW)
        add('min2', meth, kind, mode, ['stump'], 3, 2, stop=True, minimal=2)
        add('min0', meth, kind, mode, ['stump'], 2, 2, stop=True, minimal=0, pi=LOW)
        add('wide', meth, kind, mode, ['stump'], 11, 1, stop=True, minimal=10, feats=[[4]], importances=[5, 3, 9, 8, 7, 1, 2, 6, 4, 10, 11])
    return out
