"""Same-decision probabilities of the tree explainer follow their definition."""
from engine.check import H
from checks.lib_tree import *

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite', 'ensembles as the tree explainer stores them, leaf values pairwise different constants',
               'the prediction function is deterministic: equal rows have equal predictions']


def nz(a, b):
    """a / b, 0 when b == 0"""
    z = tob(cmp('==', b, Fraction(0)))
    if z is T:
        return Fraction(0)
    with CTX[0].under(bnot(z)):
        q = arith('/', a, b)
    return ite(z, Fraction(0), q)


class Game:
    """leaf weights of one explained row given S over the background rows allowed by ok[]"""
    def __init__(self, E, row, S, ok):
        self.E, self.row, self.S, self.ok = E, row, S, ok

    def w(self, leaves):
        """share of the allowed rows in the S-parts of all leaves [(tree, leaf)] that lie in all of them; 0 when the explained row is outside or there is none"""
        E, S = self.E, self.S
        me = band(*[E.member(b, j, self.row, S) for b, j in leaves])
        inS = [band(q, *[E.member(b, j, E.data[k], S) for b, j in leaves]) for k, q in enumerate(self.ok)]
        ina = [band(q, *[E.member(b, j, E.data[k], range(E.D)) for b, j in leaves]) for k, q in enumerate(self.ok)]
        return ite(me, div_counts(ssum([b2u(x) for x in ina]), ssum([b2u(x) for x in inS])), Fraction(0))

    def mean(self, o):
        E, s = self.E, Fraction(0)
        for b in range(E.B):
            L = range(len(E.leaf_ids[b]))
            w = [self.w([(b, j)]) for j in L]
            s = arith('+', s, nz(ssum([arith('*', w[j], mapU(o, lambda c, j=j: E.values[b, E.leaf_ids[b][j], int(c)])) for j in L]), ssum(w)))
        return s

    def risk(self, fx):
        """leaf estimator of E[f^2 - 2 f(x) f] + const"""
        E, s = self.E, Fraction(0)
        for b in range(E.B):
            L = range(len(E.leaf_ids[b]))
            w = [self.w([(b, j)]) for j in L]
            n = ssum(w)
            for j in L:
                v = E.values[b, E.leaf_ids[b][j], 0]
                s = arith('+', s, nz(arith('*', w[j], mapU(fx, lambda y: v * v - 2 * y * v)), n))
            for l in range(E.B):
                if l == b:
                    continue
                M = range(len(E.leaf_ids[l]))
                for j in L:
                    ww = [self.w([(b, j), (l, k)]) for k in M]
                    t = ssum([arith('*', ww[k], E.values[b, E.leaf_ids[b][j], 0] * E.values[l, E.leaf_ids[l][k], 0]) for k in M])
                    s = arith('+', s, arith('*', nz(w[j], n), nz(t, ssum(ww))))
        return s


def rows_eq(E, row, S):
    return [band(*[tob(cmp('==', E.data[k, f], row[f])) for f in S]) for k in range(E.N)]


def share(up, eq):
    return div_counts(ssum([b2u(band(u, q)) for u, q in zip(up, eq)]), ssum([b2u(q) for q in eq]))


def sdp_clf(run, method, ens, S, nx=1, K=2):
    _, trees, D, n, d, C = ens
    E = Ens(run, trees, D, n, K, values=genvals)
    X = run.reals('x', nx, D)
    fX, y, rows = labels(run, E, X, K)
    ex = E.explainer(model=classifier(E, rows, fX + y, K))
    r = run.call((ex, method), X, iarr(S), E.data)
    for i in range(nx):
        if len(S) in (0, D):
            run.eq('trivial[%d]' % i, r[i], Fraction(1 if S else 0))
            continue
        up = [tob(cmp('==', c, fX[i])) for c in y]
        dn = [bnot(q) for q in up]
        if 'cat' in method:
            eq = rows_eq(E, X[i], S)
            # the estimator of the matching rows: it is the share of the matching rows with the same class unless the two class means coincide
            u, dd = [cat_mean(E, X[i], S, [band(a, b) for a, b in zip(eq, q)], fX[i]) for q in (up, dn)]
            ok = tob(cmp('!=', u, dd))
            run.check('share[%d]' % i, bor(bnot(ok), tob(cmp('==', r[i], share(up, eq)))))
            run.check('prob[%d]' % i, band(tob(cmp('>=', r[i], 0)), tob(cmp('<=', r[i], 1))))
        else:
            a, u, dd = [Game(E, X[i], S, ok).mean(fX[i]) for ok in ([T] * n, up, dn)]
            run.eq('sdp[%d]' % i, r[i], nz(arith('-', a, dd), arith('-', u, dd)))
    if S:
        run.cover('nonzero', bor(*[tob(cmp('!=', r[i], Fraction(0))) for i in range(nx)]))


def cat_mean(E, row, S, ok, o):
    """mean prediction of the rows allowed"""
    num = Fraction(0)
    for b in range(E.B):
        for j, k in enumerate(E.leaf_ids[b]):
            c = ssum([b2u(band(q, E.member(b, j, E.data[i], range(E.D)))) for i, q in enumerate(ok)])
            num = arith('+', num, arith('*', c, mapU(o, lambda z, k=k, b=b: E.values[b, k, int(z)])))
    return nz(num, ssum([b2u(q) for q in ok]))


def cat_risk(E, row, S, ok, fx):
    num = Fraction(0)
    for i, q in enumerate(ok):
        f = E.pred(E.data[i])
        num = arith('+', num, ite(q, arith('-', arith('*', f, f), arith('*', arith('*', 2, fx), f)), Fraction(0)))
    return nz(num, ssum([b2u(q) for q in ok]))


YV = [Fraction(0), Fraction(1), Fraction(5, 2)]


def sdp_reg(run, method, ens, S, nx=1, vals=YV):
    _, trees, D, n, d, C = ens
    E = Ens(run, trees, D, n, 1, values=genvals)
    X = run.reals('x', nx, D)
    fX, y, rows = labels(run, E, X, vals=vals)
    tX = Fraction(1)
    ex = E.explainer(predict=RowTab([(list(r), l) for r, l in zip(rows, fX + y)]))
    r = run.call((ex, method), X, tX, iarr(S), E.data)
    for i in range(nx):
        if len(S) in (0, D):
            run.eq('trivial[%d]' % i, r[i], Fraction(1 if S else 0))
            continue
        far = [tob(cmp('>', arith('*', arith('-', fX[i], c), arith('-', fX[i], c)), tX)) for c in y]
        near = [bnot(q) for q in far]
        if 'cat' in method:
            eq = rows_eq(E, X[i], S)
            u, dd = [cat_risk(E, X[i], S, [band(a, b) for a, b in zip(eq, q)], fX[i]) for q in (far, near)]
            ok = tob(cmp('!=', u, dd))
            run.check('share[%d]' % i, bor(bnot(ok), tob(cmp('==', r[i], share(near, eq)))))
        else:
            a, u, dd = [Game(E, X[i], S, ok).risk(fX[i]) for ok in ([T] * n, far, near)]
            run.eq('sdp[%d]' % i, r[i], nz(arith('-', u, a), arith('-', u, dd)))
    if S:
        run.cover('nonzero', bor(*[tob(cmp('!=', r[i], Fraction(0))) for i in range(nx)]))


T1 = [('full2', [0, 1, 2])]
T2 = [('left2', [0, 1]), ('stump', [1])]
T3 = [('stump', [0]), ('stump', [1])]
CLF = [
    ('full2', T1, 3, 3, 1, [0, 1], 1, 2),
    ('full2k3', T1, 3, 2, 1, [2], 1, 3),
    ('two', T2, 2, 3, 1, [1], 1, 2),
    ('x2', T2, 3, 2, 1, [2, 0], 2, 2),
    ('rep', [('chain3', [0, 1, 0])], 3, 3, 1, [0, 2], 1, 2),
    ('all', [('right2', [0, 1])], 2, 2, 1, [0, 1], 2, 2),
    ('none', [('right2', [0, 1])], 2, 2, 1, [], 2, 2),
]
REG = [
    ('left2', [('left2', [0, 1])], 2, 3, 1, [0], 1),
    ('two', T3, 2, 2, 1, [1], 1),
    ('twob', T3, 3, 2, 1, [2, 0], 1),
    ('x2', T3, 2, 2, 1, [0], 2),
    ('two23', [('left2', [0, 1]), ('stump', [0])], 2, 2, 1, [1], 1),
    ('all', [('right2', [0, 1])], 2, 2, 1, [0, 1], 2),
    ('none', [('right2', [0, 1])], 2, 2, 1, [], 2),
]


def harnesses(tier):
    out = []
    saf = ('oob', 'oobw', 'uninit', 'div0')
    for m in ('compute_sdp_clf', 'compute_sdp_clf_nopa', 'compute_sdp_clf_cat', 'compute_sdp_clf_cat_nopa'):
        for nm, tr, D, n, d, S, nx, K in CLF:
            if tier == 'thorough':
                n += 1
            e = (nm, tr, D, n, d, [[]])
            out.append(H('%s-%s' % (m, nm), sdp_clf, samples=2, cost=5, method=m, ens=e, S=S, nx=nx, K=K, safety=saf, lazydiv=12, cap=8, timeout_ms=120000,
                         bounds='%s; S=%s; %d explained row(s), %d classes' % (desc(e), S, nx, K)))
    for m in ('compute_sdp_reg', 'compute_sdp_reg_nopa', 'compute_sdp_reg_cat', 'compute_sdp_reg_cat_nopa'):
        for nm, tr, D, n, d, S, nx in REG:
            if tier == 'thorough' and len(tr) == 1:
                n += 1
            e = (nm, tr, D, n, d, [[]])
            vals = YV[::2] if tier == 'quick' and nm in ('left2', 'x2', 'two23') else YV
            out.append(H('%s-%s' % (m, nm), sdp_reg, samples=2, cost=9 if nm in ('two23', 'x2', 'two') else 5, method=m, ens=e, S=S, nx=nx, vals=vals, safety=saf, lazydiv=12, cap=8, timeout_ms=120000,
                         bounds='%s; S=%s; %d explained row(s), predictions in {%s}, tX = 1' % (desc(e), S, nx, ', '.join(map(str, vals)))))
    return out
