"""Attributions of every SHAP variant add up to the prediction minus the mean background prediction."""
from engine.check import H
from checks.lib_tree import *
from checks.c03 import NENS
from checks.c05 import iarr, iarr2

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite', 'ensembles as the tree explainer stores them',
               "in every tree the explained row's leaf holds at least one background row (elsewhere the leaf estimator gives that leaf weight 0)",
               'normalized variants: trees whose leaves all depend on the same variables']


def eff(run, method, ens, S=None, N=None, rows=None, nx=1):
    _, trees, D, n, d, C = ens
    E = Ens(run, trees, D, n, d)
    nx = len(rows) if rows else nx
    X = run.reals('x', nx, D)
    C = [list(c) for c in C]
    ex = prepare(run, E, method, C)
    for i in range(nx):
        for b in range(E.B):
            run.assume(bor(*[band(E.member(b, j, X[i], range(D)), E.member(b, j, E.data[k], range(D))) for j in range(len(E.leaf_ids[b])) for k in range(n)]))
    if method in ACV:
        phi = run.call((ex, method), X, iarr(S), iarr(N), C)
    elif method in ADAP:
        ss = [list(r) + [-1] * (D - len(r)) for r in rows]
        ns = [[-1] * len(r) + [f for f in range(D) if f not in r] for r in rows]
        phi = run.call((ex, method), X, iarr2(ss), iarr2(ns), iarr([len(r) for r in rows]), C)
    else:
        phi = run.call((ex, method), X, C)
    groups = groups_of(C, D)
    for o in range(d):
        base = Fraction(0)
        for k in range(n):
            base = arith('+', base, E.pred(E.data[k], o))
        base = arith('*', Fraction(1, n), base)
        for i in range(nx):
            s = Fraction(0)
            for g in groups:
                s = arith('+', s, phi[i, g[0], o])
            run.eq('sum[%d,%d]' % (i, o), s, arith('-', E.pred(X[i], o), base))
    run.cover('nonzero', bor(*[tob(cmp('!=', phi[0, f, 0], Fraction(0))) for f in range(D)]))


T1 = [('full2', [0, 1, 2])]
T2 = [('left2', [0, 1]), ('stump', [1])]
ACASES = [
    (('full2', T1, 3, 3, 1, [[]]), [0, 2], [1]),
    (('two', T2, 2, 3, 2, [[]]), [1], [0]),
    (('rep', [('chain3', [0, 1, 0])], 3, 3, 1, [[]]), [2, 0], [1]),
    (('coal', T1, 3, 2, 1, [[1, 2]]), [1, 2], [0]),
]
AROWS = [
    (('full2', T1, 3, 2, 1, [[]]), [[0, 2], [0, 1, 2], [1]]),
    (('two', T2, 2, 2, 2, [[]]), [[1], [0]]),
    (('coal', T1, 3, 2, 1, [[0, 1]]), [[0, 1], [0, 1, 2]]),
]


def harnesses(tier):
    out = []
    sf = ('oob', 'oobw', 'uninit', 'div0')
    for m in SHAP:
        for e in ENS:
            out.append(H('%s-%s' % (m, e[0]), eff, samples=1, cost=5, method=m, ens=e, bounds=desc(e), safety=sf))
        out.append(H('%s-x2' % m, eff, samples=1, cost=5, method=m, ens=('x2', T2, 2, 2, 1, [[]]), nx=2, bounds='2 explained rows', safety=sf))
    for m in SHAPN:
        for e in NENS:
            out.append(H('%s-%s' % (m, e[0]), eff, samples=1, cost=5, method=m, ens=e, bounds=desc(e), safety=sf))
    for m in ACV:
        for k, (e, S, N) in enumerate(ACASES):
            out.append(H('%s-%s' % (m, e[0]), eff, samples=1, cost=5, method=m, ens=e, S=S, N=N, bounds=desc(e) + '; active %s inactive %s' % (S, N), safety=sf))
    for m in ADAP:
        for k, (e, rows) in enumerate(AROWS):
            out.append(H('%s-%s' % (m, e[0]), eff, samples=1, cost=5, method=m, ens=e, rows=rows, bounds=desc(e) + '; active per row %s' % rows, safety=sf))
    return out
