"""Active Shapley values equal the Shapley values, among the active variables, of the game that always knows the inactive ones."""
from engine.check import H
from checks.lib_tree import *

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite', 'ensembles as the tree explainer stores them']


def asv(E, row, o, S, N, C, D):
    """{variable: value}: players are the active variables (coalitions as one player); v*(empty) = v(empty), v*(A) = v(A and the inactive ones)"""
    groups, seen = [], set()
    for f in S:
        if f in seen:
            continue
        c = [c for c in C if f in c]
        g = list(c[0]) if c else [f]
        seen |= set(g)
        groups.append(g)
    phi = shapley(len(groups), lambda A: E.v(row, sorted(set(union(groups, A)) | set(N)) if A else [], o))
    out = {f: Fraction(0) for f in range(D)}
    for g, w in zip(groups, phi):
        for f in g:
            out[f] = w
    return out


def acv(run, method, ens, S, N, nx=1):
    _, trees, D, n, d, C = ens
    E = Ens(run, trees, D, n, d)
    X = run.reals('x', nx, D)
    C = [list(c) for c in C]
    ex = E.explainer()
    phi = run.call((ex, method), X, iarr(S), iarr(N), C)
    for i in range(nx):
        for o in range(d):
            want = asv(E, X[i], o, S, N, C, D)
            for f in range(D):
                run.eq('phi[%d,%d,%d]' % (i, f, o), phi[i, f, o], want[f])
    run.cover('nonzero', bor(*[tob(cmp('!=', phi[0, f, 0], Fraction(0))) for f in range(D)]))


def iarr_(L):
    a = mkarr((len(L),), 0, 'i')
    for i, x in enumerate(L):
        a[i] = x
    return a


def iarr2(L):
    a = mkarr((len(L), len(L[0])), 0, 'i')
    for i, r in enumerate(L):
        for j, x in enumerate(r):
            a[i, j] = x
    return a


def adap(run, method, ens, rows):
    """rows: the active variables of each explained row; the others are inactive for it"""
    _, trees, D, n, d, C = ens
    E = Ens(run, trees, D, n, d)
    X = run.reals('x', len(rows), D)
    C = [list(c) for c in C]
    ex = E.explainer()
    rest = [[f for f in range(D) if f not in r] for r in rows]
    ss = [list(r) + [-1] * (D - len(r)) for r in rows]
    ns = [[-1] * (D - len(r)) + r for r in rest]
    phi = run.call((ex, method), X, iarr2(ss), iarr2(ns), iarr([len(r) for r in rows]), C)
    for i, r in enumerate(rows):
        for o in range(d):
            want = asv(E, X[i], o, r, rest[i], C, D)
            for f in range(D):
                run.eq('phi[%d,%d,%d]' % (i, f, o), phi[i, f, o], want[f])
    run.cover('nonzero', bor(*[tob(cmp('!=', phi[0, f, 0], Fraction(0))) for f in range(D)]))


T1 = [('full2', [0, 1, 2])]
T2 = [('left2', [0, 1]), ('stump', [1])]
T3 = [('chain3', [0, 1, 0])]
T4 = [('zig3', [0, 3, 2])]
T5 = [('zig3', [2, 0, 4])]
CASES = [
    (('full2', T1, 3, 3, 1, [[]]), [0, 2], [1]),
    (('full2', T1, 3, 3, 1, [[]]), [1], [0, 2]),
    (('full2', T1, 3, 2, 1, [[]]), [2, 0, 1], []),
    (('two', T2, 2, 3, 2, [[]]), [1], [0]),
    (('two', T2, 3, 2, 1, [[]]), [0, 2], [1]),
    (('rep', T3, 3, 3, 1, [[]]), [0, 2], [1]),
    (('coal', T1, 3, 3, 1, [[0, 1]]), [0, 1], [2]),
    (('coal4', T4, 4, 2, 1, [[0, 1]]), [0, 1, 2], [3]),
    (('coal22', T4, 4, 2, 1, [[2, 0], [1, 3]]), [0, 2, 1, 3], []),
    (('coal32', T5, 5, 2, 1, [[0, 1], [2, 3]]), [2, 3, 0, 1], [4]),
    (('coalmix', T4, 4, 2, 1, [[3, 0]]), [1, 0, 3], [2]),
]
ROWS = [
    (('full2', T1, 3, 2, 1, [[]]), [[0, 2], [0, 1, 2], [1]]),
    (('two', T2, 2, 2, 2, [[]]), [[1], [0]]),
    (('coal', T1, 3, 2, 1, [[0, 1]]), [[0, 1], [2], [0, 1, 2]]),
    (('rep', T3, 3, 2, 1, [[]]), [[1, 2], [0]]),
    (('coal32', T5, 5, 2, 1, [[0, 1], [2, 3]]), [[2, 3, 0, 1], [4, 0, 1]]),
]


def harnesses(tier):
    out = []
    for m in ACV:
        for k, (e, S, N) in enumerate(CASES):
            out.append(H('%s-%d%s' % (m, k, e[0]), acv, samples=2, cost=5, method=m, ens=e, S=S, N=N, bounds=desc(e) + '; active %s inactive %s' % (S, N), safety=('oob', 'oobw', 'uninit', 'div0')))
        out.append(H('%s-x2' % m, acv, samples=2, cost=5, method=m, ens=('x2', T2, 2, 2, 1, [[]]), S=[0], N=[1], nx=2, bounds='2 explained rows', safety=('oob', 'oobw', 'uninit', 'div0')))
    for m in ADAP:
        for k, (e, rows) in enumerate(ROWS):
            out.append(H('%s-%d%s' % (m, k, e[0]), adap, samples=2, cost=5, method=m, ens=e, rows=rows, bounds=desc(e) + '; active per row %s' % rows, safety=('oob', 'oobw', 'uninit', 'div0')))
    return out
