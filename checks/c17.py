"""Forest estimators of the conditional expectation, distribution function and quantiles."""
from engine.check import H
from checks.lib_forest import *

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite', 'forest arrays as the library builds them',
               'every tree keeps at least min_node_size rows after all its splits (for smaller nodes the refinement stops early; only the memory safety of that case is covered)',
               'quantiles: distinct labels (with ties the interpolation depends on the order of equal labels)']


def setup(run, shapes, D, N, nx, feats, ylab, ms, low=0):
    F_ = Forest(run, shapes, D, feats)
    X = run.reals('x', nx, D)
    data = run.reals('d', N, D)
    y = run.reals('y', nx)
    yd = run.reals('yd', N) if ylab is None else mk(ylab)
    m = run.choice('ms', ms)
    S = [symset(run, 'S%d' % i, D) for i in range(nx)]
    return F_, X, data, y, yd, S, m


def mk(vals):
    a = mkarr((len(vals),), Fraction(0), 'f')
    for i, v in enumerate(vals):
        a[i] = Fraction(v)
    return a


def members(run, F_, x, data, S, m, least):
    mem, _, _ = projection(F_, x, data, S, None)
    for mb in mem:
        n = ssum([b2u(q) for q in mb])
        run.assume(tob(cmp('>=', n, least)) if least else bor(tob(cmp('==', m, 0)), tob(cmp('>=', n, m))))
        if least:
            run.assume(tob(cmp('>=', n, m)))
    return mem


def mean_of(mem, yd, nt):
    s = Fraction(0)
    for i in range(len(yd)):
        s = arith('+', s, arith('*', weight_of(mem, i, nt), yd[i]))
    return s


def exp_rf(run, api, shapes, D, N, clf, nx=1, feats='sym', ms=(0, 1, 2)):
    F_, X, data, y, yd, S, m = setup(run, shapes, D, N, nx, feats, None, ms)
    if api == 'agn':
        ex, kw = F_.explainer(clf), ({} if clf else {'t': run.reals('q', nx, 2)})
    else:
        ex, kw = tree_explainer(run, F_), {'classifier': clf}
    r = run.call((ex, 'compute_exp_rf'), X, y, data, yd, S, min_node_size=m, **kw)
    for i in range(nx):
        mem = members(run, F_, X[i], data, S[i], m, 0)
        run.eq('mean[%d]' % i, r[i], mean_of(mem, [yd[j] for j in range(N)], F_.B))
    run.cover('nonzero', tob(cmp('!=', r[0], Fraction(0))))


def cdf_rf(run, api, shapes, D, N, at, nx=1, feats='sym', ms=(0, 1, 2)):
    F_, X, data, y, yd, S, m = setup(run, shapes, D, N, nx, feats, None, ms)
    ex = F_.explainer(run.choice('clf', [0, 1])) if api == 'agn' else tree_explainer(run, F_)
    kw = {}
    if at == 'y':
        t = y
    elif at == 'scalar':
        t = [run.real('t')] * nx
        kw['t'] = t[0]
    else:
        t = run.reals('t', nx)
        kw['t'] = t
    r = run.call((ex, 'compute_cdf_rf'), X, y, data, yd, S, min_node_size=m, **kw)
    for i in range(nx):
        mem = members(run, F_, X[i], data, S[i], m, 0)
        want = frac_of(mem, [le(yd[j], t[i]) for j in range(N)], F_.B)
        run.eq('cdf[%d]' % i, r[i], want)
        run.cover('nontrivial', band(lt(Fraction(0), want), lt(want, Fraction(1))))


def percentile(ys, ws, q):
    """weighted percentile by its definition: the k-th positive-weight value of the sorted sample sits at 100 / W * (sum of the weights up to it - half its
    own weight); linear in between, constant outside. ys: distinct concrete labels"""
    order = sorted(range(len(ys)), key=lambda i: ys[i])
    W = ssum(ws)
    pos, c = {}, Fraction(0)
    for i in order:
        c = arith('+', c, ws[i])
        pos[i] = arith('*', 100, arith('-', c, arith('/', ws[i], 2)))       # times W
    out = None
    live = {i: tob(cmp('>', ws[i], 0)) for i in order}
    alts = []
    qW = arith('*', q, W)
    for a, i in enumerate(order):
        # i is the smallest / largest kept value
        first = band(live[i], *[bnot(live[j]) for j in order[:a]])
        last = band(live[i], *[bnot(live[j]) for j in order[a + 1:]])
        alts.append((band(first, le(qW, pos[i])), Fraction(ys[i])))
        alts.append((band(last, lt(pos[i], qW), tob(cmp('>=', qW, pos[i]))), Fraction(ys[i])))
        for b in range(a + 1, len(order)):
            j = order[b]
            nxt = band(live[i], live[j], *[bnot(live[k]) for k in order[a + 1:b]])
            g = band(nxt, lt(pos[i], qW), le(qW, pos[j]))
            if g is F:
                continue
            alts.append((g, ('mix', i, j, pos[i], pos[j], qW)))
    return alts


def sides(run, F_, X, data, S):
    """case distinction over the side every row lies on, at the splits on a known variable"""
    for i, s in enumerate(S):
        for b in range(F_.B):
            for k in F_.order(b):
                f, t = F_.features[b, k], F_.thresholds[b, k]
                if f in s:
                    run.split(le(X[i][f], t))
                    for r in range(data.shape[0]):
                        run.split(le(data[r][f], t))


def check_percentile(run, label, got, ys, ws, q):
    for g, v in percentile(ys, ws, q):
        if g is F:
            continue
        if isinstance(v, tuple):
            _, i, j, pi, pj, qW = v
            # got = yi + (q - pi) / (pj - pi) * (yj - yi)
            lhs = arith('*', arith('-', got, Fraction(ys[i])), arith('-', pj, pi))
            rhs = arith('*', arith('-', qW, pi), Fraction(ys[j]) - Fraction(ys[i]))
            run.check('%s between' % label, bor(bnot(g), tob(cmp('==', lhs, rhs))))
            run.cover('between', g)
        else:
            run.check('%s end' % label, bor(bnot(g), tob(cmp('==', got, v))))


def quantile_rf(run, method, shapes, D, N, ylab, qs, nx=1, feats='sym', ms=(1, 2)):
    F_, X, data, y, yd, S, m = setup(run, shapes, D, N, nx, feats, ylab, ms[:1])
    S = [list(run.pick('P%d' % i, subsets(D))) for i in range(nx)]
    sides(run, F_, X, data, S)
    if 'diff' in method:
        y = mk([Fraction(7, 2) - k for k in range(nx)])
    ex = tree_explainer(run, F_)
    q = run.pick('q', qs)
    mems = [members(run, F_, X[i], data, S[i], m, 1) for i in range(nx)]
    r = run.call((ex, method), X, y, data, yd, S, min_node_size=m, quantile=q)
    for i, mem in enumerate(mems):
        ws = [weight_of(mem, j, F_.B) for j in range(N)]
        ys = [Fraction(v) for v in ylab]
        if 'diff' in method:
            ys = [y[i] - v for v in ys]
        check_percentile(run, 'quantile[%d]' % i, r[i], ys, ws, Fraction(q))


def shaff(run, method, shapes, D, N, ylab, q=None, nx=1, feats='sym'):
    F_, X, data, y, yd, _, m = setup(run, shapes, D, N, nx, feats, ylab, (1,))
    ex = tree_explainer(run, F_)
    S = run.pick('S', subsets(D))
    sides(run, F_, X, data, [S] * nx)
    mems = [members(run, F_, X[i], data, S, 1, 1) for i in range(nx)]
    if 'quantile' in method:
        r = run.call((ex, method), X, data, yd, list(S), min_node_size=1, quantile=q)
    elif 'exp' in method:
        r = run.call((ex, method), X, data, yd, list(S), min_node_size=1)
    elif 'clf' in method:
        r = run.call((ex, method), X, y, data, yd, list(S), min_node_size=1)
    else:
        t = Fraction(3, 2)
        r = run.call((ex, method), X, y, t, data, yd, list(S), min_node_size=1)
    for i, mem in enumerate(mems):
        if 'quantile' in method:
            check_percentile(run, 'quantile[%d]' % i, r[i, 0], [Fraction(v) for v in ylab], [weight_of(mem, j, F_.B) for j in range(N)], Fraction(q))
        elif 'exp' in method:
            run.eq('mean[%d]' % i, r[i, 0], mean_of(mem, [yd[j] for j in range(N)], F_.B))


def harnesses(tier):
    out = []
    th = tier == 'thorough'
    saf = ('oob', 'oobw', 'uninit')
    FS = [('two', ['left2', 'stump'], 2, 3), ('d3', ['chain3'], 2, 2), ('wide', ['full2'], 3, 2)]
    for nm, sh, D, N in FS:
        n = N + (1 if th else 0)
        for api in ('agn', 'tree'):
            for clf in (1, 0):
                out.append(H('exp-%s-%s-%s' % (api, nm, 'clf' if clf else 'reg'), exp_rf, samples=2, cost=3, api=api, shapes=sh, D=D, N=n, clf=clf, safety=saf,
                             bounds='trees %s, %d variables, %d background rows, every S, min_node_size 0..2' % (sh, D, n)))
            for at in ('y', 'scalar', 'array'):
                if nm == 'd3':
                    sh = ['left2']
                if at == 'y' and api == 'tree':
                    continue
                out.append(H('cdf-%s-%s-%s' % (api, nm, at), cdf_rf, samples=2, cost=3, api=api, shapes=sh, D=D, N=n, at=at, safety=saf,
                             bounds='trees %s, %d variables, %d background rows, every S, evaluated at %s' % (sh, D, n, at)))
    for api in ('agn', 'tree'):
        out.append(H('exp-%s-x2' % api, exp_rf, samples=2, cost=4, api=api, shapes=['left2'], D=2, N=2, clf=0, nx=2, safety=saf, bounds='2 explained rows'))
        out.append(H('cdf-%s-x2' % api, cdf_rf, samples=2, cost=4, api=api, shapes=['left2'], D=2, N=2, at='array', nx=2, safety=saf, bounds='2 explained rows'))
    for meth in ('compute_quantile_rf', 'compute_quantile_diff_rf'):
        for nm, sh, D, N, lab, nx, qs, fe in (('two', ['stump', 'stump'], 2, 2, [5, 2], 1, [5, 50, 95], [[0], [1]]), ('d2', ['left2'], 2, 3, [4, 1, 3], 1, [0, 30, 100], [[0, 1]]), ('x2', ['stump'], 2, 2, [2, 1], 2, [40], [[1]])):
            out.append(H('%s-%s' % (meth, nm), quantile_rf, samples=2, cost=5, method=meth, shapes=sh, D=D, N=N, ylab=lab, qs=qs, nx=nx, feats=fe, safety=saf,
                         bounds='trees %s, %d variables, %d background rows with labels %s, %d explained row(s), every S, quantiles %s' % (sh, D, N, lab, nx, qs)))
    for meth, q in (('compute_exp_shaff', None), ('compute_quantile_shaff', 60), ('compute_quantile_shaff', 70)):
        for nm, sh, D, N, lab, nx, fe in (('two', ['stump', 'stump'], 2, 2, [5, 2], 1, [[0], [1]]), ('d2', ['left2'], 2, 3, [4, 1, 3], 1, [[1, 0]]), ('x2', ['stump'], 2, 2, [2, 1], 2, [[1]])):
            out.append(H('%s%s-%s' % (meth, q or '', nm), shaff, samples=2, cost=5, method=meth, shapes=sh, D=D, N=N, ylab=lab if q else None, q=q, nx=nx, feats=fe, safety=saf,
                         bounds='trees %s, %d variables, %d background rows, %d explained row(s), every S%s' % (sh, D, N, nx, ', quantile %s, labels %s' % (q, lab) if q else '')))
    return out
