"""Importance search of the tree explainer: the returned set is a best one among the smallest that reach the level."""
from engine.check import H
from checks.lib_tree import *
from checks.c07 import Game, nz, rows_eq, share, cat_risk, YV

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite', 'ensembles as the tree explainer stores them, leaf values pairwise different constants',
               'the prediction function is deterministic: equal rows have equal predictions', 'the level is not a rational that a probability can equal up to rounding']


class Sdp:
    def __init__(self, E, row, fx, y, kind, tX=None):
        self.E, self.row, self.fx, self.y, self.kind, self.tX = E, row, fx, y, kind, tX
        self.memo = {}

    def __call__(self, S):
        S = tuple(sorted(S))
        if S not in self.memo:
            self.memo[S] = self.value(list(S))
        return self.memo[S]

    def value(self, S):
        E, fx, y, k = self.E, self.fx, self.y, self.kind
        if len(S) == E.D:
            return Fraction(1)
        if k == 'reg_cat' and not S:
            return Fraction(0)
        if k in ('clf', 'clf_raw'):
            up = [tob(cmp('==', c, fx)) for c in y]
            dn = [bnot(q) for q in up]
            m = Game.mean if k == 'clf' else raw_mean
            a, u, d = [m(Game(E, self.row, S, ok), fx) for ok in ([T] * E.N, up, dn)]
            return nz(arith('-', a, d), arith('-', u, d))
        far = [tob(cmp('>', (fx - c) * (fx - c), self.tX)) for c in y]
        near = [bnot(q) for q in far]
        if k == 'reg':
            a, u, d = [Game(E, self.row, S, ok).risk(fx) for ok in ([T] * E.N, far, near)]
        else:
            eq = rows_eq(E, self.row, S)
            a, u, d = [cat_risk(E, self.row, S, [band(p, q) for p, q in zip(eq, ok)], fx) for ok in ([T] * E.N, far, near)]
        return nz(arith('-', u, a), arith('-', u, d))


def raw_mean(g, o):
    s = Fraction(0)
    for b in range(g.E.B):
        for j, k in enumerate(g.E.leaf_ids[b]):
            s = arith('+', s, arith('*', g.w([(b, j)]), g.E.values[b, k, o]))
    return s


def search(run, method, kind, ens, pi, minimal=1, nx=1, space=None, stop=False, K=2, vals=YV):
    _, trees, D, n, d, C = ens
    reg = kind.startswith('reg')
    E = Ens(run, trees, D, n, 1 if reg else K, values=genvals)
    X = run.reals('x', nx, D)
    C = [list(c) for c in C]
    fX, y, rows = labels(run, E, X, K, vals if reg else None)
    tX = Fraction(1)
    if reg:
        ex = E.explainer(predict=RowTab([(list(r), l) for r, l in zip(rows, fX + y)]))
        args = [X, tX, E.data]
    else:
        ex = E.explainer(model=classifier(E, rows, fX + y, K))
        args = [X, E.data]
    kw = dict(C=C, pi_level=pi, minimal=minimal)
    if not method.endswith('nopa'):
        kw['stop'] = stop
    if space is not None:
        kw['search_space'] = list(space)
    glob, star, ln, sdp = run.call((ex, method), *args, **kw)
    groups = sorted(groups_of(C, D), key=lambda g: (any(g[0] in c for c in C), g[0]))
    if space is not None:
        groups = [g for g in groups if set(g) & set(space)]
    stopping = stop or method.endswith('nopa')
    levels = []
    for size in range(minimal, len(groups) + 1):
        levels.append([union(groups, c) for c in itertools.combinations(range(len(groups)), size)])
        if stopping and size >= D // 2 and 'ptrees' not in method:
            break          # only used without coalitions
    hits = [Fraction(0)] * D
    for i in range(nx):
        f = Sdp(E, X[i], fX[i], y, kind, tX)
        is_ = {}
        for k, L in enumerate(levels):
            for S in L:
                is_[k, tuple(S)] = band(tob(cmp('==', ln[i], len(S))), *[bor(*[tob(cmp('==', star[i, p], v)) for p in range(len(S))]) for v in S])
        none = tob(cmp('==', ln[i], 0))
        reach = tob(cmp('>=', sdp[i], pi))
        # what is returned is one of the sets examined (or nothing), with its own probability, and nothing after it
        run.check('set[%d]' % i, bor(none, *is_.values()))
        for p in range(D):
            run.check('tail[%d,%d]' % (i, p), bor(tob(cmp('<', p, ln[i])), tob(cmp('==', star[i, p], -1))))
        for (k, S), q in is_.items():
            if S:
                run.check('value[%d]%s' % (i, S), bor(bnot(q), tob(cmp('==', sdp[i], f(S)))))
        # no examined set of a smaller size reaches the level, and none of the same size is better
        for k, L in enumerate(levels):
            for S in L:
                v = f(S)
                for k2 in range(len(levels)):
                    here = bor(*[q for (kk, _), q in is_.items() if kk == k2])
                    if k < k2:
                        run.check('smaller[%d]%s' % (i, S), bor(bnot(band(reach, here)), tob(cmp('<', v, pi))))
                    elif k == k2:
                        run.check('best[%d]%s' % (i, S), bor(bnot(band(reach, here)), tob(cmp('<=', v, sdp[i]))))
                if 'ptrees' in method:
                    run.check('missed[%d]%s' % (i, S), bor(reach, tob(cmp('<', v, pi))))
                else:
                    run.check('missed[%d]%s' % (i, S), bor(reach, tob(cmp('<=', v, sdp[i]))))
        for v in range(D):
            has = bor(*[q for (k, S), q in is_.items() if v in S])
            hits[v] = arith('+', hits[v], b2u(band(reach, has)))
    for v in range(D):
        run.eq('glob[%d]' % v, glob[v], arith('*', Fraction(1, nx), hits[v]))
    run.cover('reach', bor(*[tob(cmp('>=', sdp[i], pi)) for i in range(nx)]))


T1 = [('left2', [0, 1])]
T2 = [('stump', [0]), ('stump', [1])]
T3 = [('left2', [2, 0])]
PI = Fraction(17, 20)


def harnesses(tier):
    out = []
    saf = ('oob', 'oobw', 'uninit', 'div0')

    def add(nm, method, kind, tr, D, n, C, **kw):
        if tier == 'thorough' and kw.get('nx', 1) == 1:
            n += 1
        e = (nm, tr, D, n, 1, C)
        out.append(H('%s-%s' % (method, nm), search, samples=2, cost=9 if nm == 'two' else 5, method=method, kind=kind, ens=e, safety=saf, lazydiv=12, cap=8, timeout_ms=120000, max_paths=3000,
                     bounds='%s; %s' % (desc(e), kw), **kw))
    for m, kind in (('importance_sdp_clf', 'clf'), ('importance_sdp_clf_search', 'clf'), ('importance_sdp_clf_nopa', 'clf'), ('importance_sdp_clf_ptrees', 'clf_raw')):
        sp = (lambda s: dict(space=s)) if m.endswith('search') else (lambda s: {})
        add('all', m, kind, T1, 2, 2, [[]], pi=PI, **sp([0, 1]))
        add('d3', m, kind, T3, 3, 2, [[]], pi=PI, **sp([2, 0, 1]))
        if not m.endswith('nopa'):
            add('coal', m, kind, T3, 3, 2, [[1, 2]], pi=Fraction(3, 10), **sp([0, 1, 2]))
            add('coals', m, kind, [('stump', [2])], 4, 1, [[0, 1], [2, 3]], pi=PI, **sp([0, 1, 2, 3]))
        add('x2', m, kind, [('stump', [1])], 2, 2, [[]], pi=PI, nx=2, **sp([0, 1]))
        if m.endswith('search'):
            add('sub', m, kind, T3, 3, 2, [[]], pi=PI, space=[0, 2])
            add('subc', m, kind, T3, 3, 2, [[1, 2]], pi=PI, space=[2])
        elif not m.endswith('nopa'):
            add('stop', m, kind, T3, 3, 2, [[]], pi=PI, stop=True)
    for m, kind in (('importance_sdp_reg', 'reg'), ('importance_sdp_reg_nopa', 'reg'), ('importance_sdp_reg_cat', 'reg_cat'), ('importance_sdp_reg_cat_nopa', 'reg_cat')):
        few = dict(vals=YV[::2]) if tier == 'quick' else {}
        add('all', m, kind, T1, 2, 2, [[]], pi=PI, minimal=0, **few)
        add('two', m, kind, T2, 2, 2, [[]], pi=PI, **few)
        if not m.endswith('nopa'):
            add('coal', m, kind, [('stump', [2])], 3, 2, [[1, 2]], pi=PI)
        else:
            add('d3', m, kind, [('stump', [2])], 3, 2, [[]], pi=PI)
    return out
