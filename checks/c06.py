"""Conditional expectations of the tree explainer follow their definition."""
from engine.check import H
from checks.lib_tree import *

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite', 'ensembles as the tree explainer stores them']


def exact(E, row, S, o):
    """discrete estimator: sum over leaves of the share of the rows equal to the row on S that lie in the leaf"""
    eq = [band(*[tob(cmp('==', E.data[k, f], row[f])) for f in S]) if S else T for k in range(E.N)]
    n = ssum([b2u(q) for q in eq])
    s = Fraction(0)
    for b in range(E.B):
        for j, k in enumerate(E.leaf_ids[b]):
            c = ssum([b2u(band(q, E.member(b, j, E.data[i], range(E.D)))) for i, q in enumerate(eq)])
            s = arith('+', s, arith('*', ite(E.member(b, j, row, S), div_counts(c, n), Fraction(0)), E.values[b, k, o]))
    return s


def val(E, kind, row, S, o):
    return E.v(row, S, o) if kind == 'leaf' else vnorm(E, row, S, o) if kind == 'norm' else exact(E, row, S, o)


def exp(run, method, kind, ens, S, nx=1, py=False, values='sym'):
    _, trees, D, n, d, C = ens
    E = Ens(run, trees, D, n, d, values=values)
    X = run.reals('x', nx, D)
    ex = E.explainer()
    if py:
        ex.a['trees'] = [None] * E.B
    r = run.call((ex, method), X, list(S) if py else iarr(S), E.data)
    for i in range(nx):
        for o in range(d):
            run.eq('exp[%d,%d]' % (i, o), r[i, o], val(E, kind, X[i], sorted(S), o))
    run.cover('nonzero', tob(cmp('!=', r[0, 0], Fraction(0))))


M = [('compute_exp', 'leaf', 0), ('compute_exp_nopa', 'leaf', 0), ('py_compute_exp', 'leaf', 1), ('compute_exp_cat', 'cat', 0), ('compute_exp_cat_nopa', 'cat', 0),
     ('py_compute_exp_cat', 'cat', 1), ('compute_exp_normalized', 'norm', 0), ('compute_exp_normalized_nopa', 'norm', 0)]
T1 = [('full2', [0, 1, 2])]
T2 = [('left2', [0, 1]), ('stump', [1])]
CASES = [
    (('full2', T1, 3, 3, 1, [[]]), [0, 1], 1),
    (('full2', T1, 3, 2, 2, [[]]), [2], 1),
    (('two', T2, 2, 3, 2, [[]]), [1], 1),
    (('two', T2, 3, 2, 1, [[]]), [2, 0], 2),
    (('rep', [('chain3', [0, 1, 0])], 3, 3, 1, [[]]), [0, 2], 1),
    (('all', [('right2', [0, 1])], 2, 3, 1, [[]]), [0, 1], 1),
    (('none', [('right2', [0, 1]), ('stump', [0])], 2, 3, 1, [[]]), [], 1),
]


def harnesses(tier):
    out = []
    for m, kind, py in M:
        for k, (e, S, nx) in enumerate(CASES):
            if py and not S:
                continue          # the reference implementation has no empty conditioning set
            if tier == 'thorough':
                e = e[:3] + (e[3] + 1,) + e[4:]
            out.append(H('%s-%d%s' % (m, k, e[0]), exp, samples=2, cost=5 + 5 * (kind == 'norm'), method=m, kind=kind, ens=e, S=S, nx=nx, py=bool(py), bounds=desc(e) + '; given variables %s; %d row(s)' % (S, nx),
                         safety=() if py else ('oob', 'oobw', 'uninit', 'div0')))
    return out
