"""Tree SHAP equals the Shapley value of the leaf-estimator game."""
from engine.check import H
from checks.lib_tree import *

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite', 'ensembles as the tree explainer stores them', 'normalized variants: trees whose leaves all depend on the same variables']


def shap(run, method, ens, nx=1):
    _, trees, D, N, d, C = ens
    E = Ens(run, trees, D, N, d)
    X = run.reals('x', nx, D)
    C = [list(c) for c in C]
    ex = prepare(run, E, method, C)
    phi = run.call((ex, method), X, C)
    groups = groups_of(C, D)
    game = vnorm if 'normalized' in method else E.v
    for i in range(nx):
        for o in range(d):
            val = (lambda S: vnorm(E, X[i], union(groups, S), o)) if 'normalized' in method else (lambda S: E.v(X[i], union(groups, S), o))
            want = shapley(len(groups), val)
            for g, w in zip(groups, want):
                for f in g:
                    run.eq('phi[%d,%d,%d]' % (i, f, o), phi[i, f, o], w)
    run.cover('nonzero', bor(*[tob(cmp('!=', phi[0, f, 0], Fraction(0))) for f in range(D)]))


# renormalised variant: trees whose leaves all use the same variables (elsewhere its per-leaf coalitions are not the game's coalitions)
NENS = [
    ('same2', [('full2', [0, 1, 1])], 2, 2, 1, [[]]),
    ('same2d3', [('full2', [1, 2, 2])], 3, 2, 1, [[]]),
    ('stumps', [('stump', [0]), ('stump', [1])], 2, 2, 2, [[]]),
    ('rep', [('chain3', [0, 0, 0])], 2, 3, 1, [[]]),
    ('coal', [('full2', [0, 1, 1])], 3, 2, 1, [[0, 2]]),
]


def harnesses(tier):
    out = []
    for m in SHAP:
        for e in ENS:
            out.append(H('%s-%s' % (m, e[0]), shap, samples=2, cost=5, method=m, ens=e, bounds=desc(e), safety=('oob', 'oobw', 'uninit', 'div0')))
        out.append(H('%s-x2' % m, shap, samples=2, cost=5, method=m, ens=('x2', [('left2', [0, 1])], 2, 2, 1, [[]]), nx=2, bounds='1 tree, 2 explained rows'))
    for m in SHAPN:
        for e in NENS:
            out.append(H('%s-%s' % (m, e[0]), shap, samples=2, cost=5, method=m, ens=e, bounds=desc(e), safety=('oob', 'oobw', 'uninit', 'div0')))
    return out
