"""All sufficient explanations of the forest explainer."""
from engine.check import H
from checks.lib_forest import *
from checks.c11 import Value, inputs, order_groups, combos, PI, LOW

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite', 'forest arrays as the library builds them',
               'the level is not a rational that a probability can equal up to rounding']


def alts(u):
    return list(u.alts) if isinstance(u, U) else [(u, T)]


def flat(u):
    """alternatives of a list of lists with every level concrete"""
    out = []
    for v, g in alts(u):
        if isinstance(v, (list, tuple)):
            part = [([], g)]
            for e in v:
                part = [(p + [w], band(q, h)) for p, q in part for w, h in flat(e)]
                part = [(p, q) for p, q in part if q is not F]
            out += part
        else:
            out.append((v, g))
    return out


def suff(run, method, kind, shapes, D, N, clf, C, pi, minimal=1, nx=1, feats='sym', api='agn', form='scalar'):
    F_, ex, X, data, y, yd, t, _, _, _ = inputs(run, shapes, D, N, clf, nx, feats, False, kind)
    kw = dict(min_node_size=0, C=[list(c) for c in C], pi_level=pi, minimal=minimal)
    targ = t
    if api == 'tree':
        ex = tree_explainer(run, F_)
        targ, t = tree_level(run, list(y), form)
        kw['classifier'] = clf
    if not clf:
        kw['t'] = targ
    expl, vals, glob = run.call((ex, method), X, y, data, yd, **kw)
    if api == 'tree':
        expl, vals = run.I.topy(expl), run.I.topy(vals)
    lead = 1 if api == 'tree' else 0       # the tree explainer keeps a leading placeholder [-1]
    levels = combos(order_groups(C, list(range(D))), minimal, D, False)
    sets = [tuple(S) for L in levels for S in L]
    run.check('one list per row', T if len(expl) == nx and len(vals) == nx else F)
    cnt = [Fraction(0)] * D
    K = Fraction(0)
    for i in range(nx):
        f = Value(F_, kind, 'in', clf, X[i], data, y[i], yd, t[i], None, None, None)
        hit = {S: tob(cmp('>=', f.value(S, full=False), pi)) for S in sets}
        least = {S: band(hit[S], *[bnot(hit[Q]) for Q in sets if set(Q) < set(S)]) for S in sets}
        for S in sets:
            K = arith('+', K, b2u(least[S]))
            for v in S:
                cnt[v] = arith('+', cnt[v], b2u(least[S]))
        for raw, g in flat(expl[i]):
            got = [tuple(int(v) for v in e) for e in raw[lead:]]
            n = bnot(g)
            run.check('no duplicates[%d]' % i, bor(n, T if len(set(frozenset(q) for q in got)) == len(got) else F))
            for q in got:
                run.check('examined[%d]%s' % (i, q), bor(n, T if any(set(q) == set(S) for S in sets) else F))
            for S in sets:
                here = [k for k, q in enumerate(got) if set(q) == set(S)]
                run.check('listed[%d]%s' % (i, S), bor(n, least[S] if here else bnot(least[S])))
                for vv, h in alts(vals[i]):
                    m = bnot(band(g, h))
                    if m is T:
                        continue
                    vv = vv[lead:]
                    run.check('values per set[%d]' % i, bor(m, T if len(vv) == len(got) else F))
                    for k in here:
                        if k < len(vv):
                            run.check('value[%d]%s' % (i, S), bor(m, tob(cmp('==', vv[k], f.value(S, full=False)))))
            if got:
                run.cover('found', g)
            if len(got) > 1:
                run.cover('several', g)
    for v in range(D):
        run.check('frequency[%d]' % v, bor(band(tob(cmp('==', K, 0)), tob(cmp('==', glob[v], 0))), band(tob(cmp('>', K, 0)), tob(cmp('==', arith('*', glob[v], K), cnt[v])))))


def harnesses(tier):
    out = []
    th = tier == 'thorough'

    def add(nm, meth, kind, shapes, D, N, C=[[]], pi=PI, clf=1, cover=('found',), **kw):
        out.append(H('%s-%s' % (meth, nm), suff, samples=2, cost=4, method=meth, kind=kind, shapes=shapes, D=D, N=N + (1 if th and kw.get('nx', 1) == 1 and D < 5 else 0), clf=clf, C=C, pi=pi,
                     safety=('oob', 'oobw', 'uninit'), timeout_ms=120000, expect_cover=False,
                     bounds='trees %s, %d features, %d background rows, coalitions %s, %s, level %s, %s' % (shapes, D, N, C, 'classifier' if clf else 'regression', pi, kw), **kw))
    for clf in (1, 0):
        add('tree-%s' % ('clf' if clf else 'reg'), 'sufficient_expl_rf', 'sdp', ['stump', 'stump'], 2, 2, clf=clf, api='tree')
    add('tree-x2', 'sufficient_expl_rf', 'sdp', ['stump'], 2, 2, clf=0, nx=2, pi=LOW, api='tree', form='array')
    for meth, kind in (('sufficient_expl_rf', 'sdp'), ('sufficient_cxpl_rf', 'ddp')):
        for clf in (1, 0):
            add('two-%s' % ('clf' if clf else 'reg'), meth, kind, ['stump', 'stump'], 2, 2, clf=clf)
        add('d3', meth, kind, ['left2'], 3, 2, pi=LOW, feats=[[2, 0]])
        add('d3b', meth, kind, ['left2'], 3, 2, feats=[[1, 0]])
        add('coal', meth, kind, ['left2'], 3, 2, C=[[0, 2]], pi=LOW)
        add('coals', meth, kind, ['stump'], 5, 2, C=[[3, 0], [1, 4]], pi=LOW, feats=[[3]])
        add('x2', meth, kind, ['stump'], 2, 2, nx=2, pi=LOW)
        add('min2', meth, kind, ['stump'], 3, 2, minimal=2)
        add('min0', meth, kind, ['stump'], 2, 2, minimal=0, pi=LOW)
    return out
