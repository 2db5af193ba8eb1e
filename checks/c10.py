"""Maximal same decision rules: the local rules, their probabilities, and the grown rule (deterministic algorithm)."""
from engine.check import H
from checks.lib_forest import *
from checks.c09 import pred_of

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite, values below 1e10 in absolute value',
               'forest arrays as the library builds them', 'the level is not a rational that a probability can equal up to rounding']


def inside(rule, z, S):
    return band(*[band(le(rule[s, 0], z[s]), le(z[s], rule[s, 1])) for s in S])


def maxrules(run, shapes, D, N, clf, S, pi=Fraction(17, 20), verbose=False, nx=1, feats='sym', grown=True):
    F_ = Forest(run, shapes, D, feats)
    X, data = run.reals('x', nx, D), run.reals('d', N, D)
    y = run.bits('y', nx) if clf else run.reals('y', nx)
    yd = run.bits('yd', N) if clf else run.reals('yd', N)
    t = run.reals('q', nx, 2)
    for b in range(F_.B):
        for k in F_.order(b):
            run.assume(band(lt(Fraction(-10 ** 10), F_.thresholds[b, k]), lt(F_.thresholds[b, k], Fraction(10 ** 10))))
    for v in list(X.reshape(-1)) + list(data.reshape(-1)):
        run.assume(band(lt(Fraction(-10 ** 10), v), lt(v, Fraction(10 ** 10))))
    ex = F_.explainer(clf)
    kw = dict(min_node_size=0, pi_level=pi, algo2=True, verbose=verbose)
    if not clf:
        kw['t'] = t
    sdp, rules, sdp_all, rules_data, w = run.call((ex, 'compute_sdp_maxrules'), X, y, data, yd, [list(s) for s in S], **kw)
    z = run.reals('z', D)
    for i in range(nx):
        mem, lo, hi = projection(F_, X[i], data, S[i], None)
        pr = pred_of('sdp', clf, y[i], list(yd), t[i])
        run.eq('probability[%d]' % i, sdp[i], frac_of(mem, pr, F_.B))
        cover = [band(*[band(le(lo[f], z[f]), le(z[f], hi[f])) for f in S[i]])]
        for j in range(N):
            wj = weight_of(mem, j, F_.B)
            run.eq('weight[%d,%d]' % (i, j), w[i, j], wj)
            used = bor(*[m[j] for m in mem])
            mj, loj, hij = projection(F_, data[j], data, S[i], None)
            pj = frac_of(mj, pr, F_.B)
            run.check('rule probability[%d,%d]' % (i, j), tob(cmp('==', sdp_all[i, j], ite(used, pj, Fraction(0)))))
            for f in range(D):
                run.check('rule lo[%d,%d,%d]' % (i, j, f), bor(bnot(used), tob(cmp('==', rules_data[i, j, f, 0], loj[f]))))
                run.check('rule hi[%d,%d,%d]' % (i, j, f), bor(bnot(used), tob(cmp('==', rules_data[i, j, f, 1], hij[f]))))
            ok = band(used, tob(cmp('>=', pj, pi)))
            cover.append(band(ok, *[band(le(loj[f], z[f]), le(z[f], hij[f])) for f in S[i]]))
            run.cover('sufficient', ok)
        for f in range(D):
            run.check('contains lo[%d,%d]' % (i, f), le(rules[i, f, 0], lo[f]))
            run.check('contains hi[%d,%d]' % (i, f), le(hi[f], rules[i, f, 1]))
        run.check('contains row[%d]' % i, band(*[band(le(rules[i, f, 0], X[i, f]), le(X[i, f], rules[i, f, 1])) for f in S[i]]))
        run.check('covered[%d]' % i, bor(bnot(inside(rules[i], z, S[i])), *cover))
        if grown:
            run.cover('grown', bor(*[lt(rules[i, f, 0], lo[f]) for f in S[i]], *[lt(hi[f], rules[i, f, 1]) for f in S[i]]))


def annealed(run, D, N, S, clf, shapes, feats, iters=1, batch=1, tries=0, thr='sym', pi=Fraction(17, 20)):
    """the stochastic algorithm, for every sequence of random choices"""
    F_ = Forest(run, shapes, D, feats, thr)
    X, data = run.reals('x', 1, D), run.reals('d', N, D)
    y, yd = run.bits('y', 1), run.bits('yd', N)
    for v in list(X.reshape(-1)) + list(data.reshape(-1)) + [F_.thresholds[b, k] for b in range(F_.B) for k in F_.order(b)]:
        run.assume(band(lt(Fraction(-10 ** 10), v), lt(v, Fraction(10 ** 10))))
    ex = F_.explainer(clf)
    sdp, rules, sdp_all, rules_data, w = run.call((ex, 'compute_sdp_maxrules'), X, y, data, yd, [list(S)], min_node_size=0, pi_level=pi, p_best=Fraction(1, 2),
                                                  n_try=tries, batch=batch, max_iter=iters, max_iter_convergence=1)
    run.check('shape', T if tuple(rules.shape) == (1, D, 2) else F)
    mem, lo, hi = projection(F_, X[0], data, S, None)
    box = [(rules[0, f, 0], rules[0, f, 1]) for f in range(D)]
    for f in range(D):
        run.check('contains lo[%d]' % f, le(box[f][0], lo[f]))
        run.check('contains hi[%d]' % f, le(hi[f], box[f][1]))
    for j in range(N):
        old = band(*[band(le(lo[f], data[j, f]), le(data[j, f], hi[f])) for f in range(D)])
        new = band(*[band(le(box[f][0], data[j, f]), le(data[j, f], box[f][1])) for f in range(D)])
        mj, _, _ = projection(F_, data[j], data, S, None)
        pj = frac_of(mj, pred_of('sdp', clf, y[0], list(yd), None), F_.B)
        good = band(bor(*[m[j] for m in mem]), tob(cmp('>=', pj, pi)))
        run.check('only sufficient rows[%d]' % j, bor(bnot(new), old, good))
        run.cover('new row', band(new, bnot(old)))
    # bounds come from the local rules
    run.cover('grown', bor(*[bor(lt(box[f][0], lo[f]), lt(hi[f], box[f][1])) for f in range(D)]))


def harnesses(tier):
    out = []

    def add(nm, **kw):
        out.append(H(nm, maxrules, samples=2, cost=4, safety=('oob', 'oobw', 'uninit', 'div0'), timeout_ms=120000, bounds='%s' % kw, **kw))
    for clf in (1, 0):
        k = 'clf' if clf else 'reg'
        add('stumps-%s' % k, shapes=['stump', 'stump'], D=2, N=2, clf=clf, S=[[0, 1]])
        add('one-%s' % k, shapes=['left2'], D=2, N=2, clf=clf, S=[[1]], grown=False)
        add('verbose-%s' % k, shapes=['stump', 'stump'], D=2, N=2, clf=clf, S=[[0, 1]], verbose=True)
        add('x2-%s' % k, shapes=['stump'], D=2, N=2, clf=clf, S=[[0], [1, 0]], nx=2, grown=False)
    add('deep', shapes=['left2'], D=2, N=2, clf=1, S=[[0, 1]], grown=False)
    add('feats3', shapes=['stump', 'stump'], D=2, N=3, clf=1, S=[[0, 1]], feats=[[0], [1]])
    add('same3', shapes=['stump', 'stump', 'stump'], D=2, N=2, clf=1, S=[[0, 1]], feats=[[0], [1], [0]])
    an = lambda nm, text, **kw: out.append(H(nm, annealed, samples=2, cost=6, safety=('oob', 'oobw', 'uninit'), timeout_ms=120000, clf=1, shapes=['stump', 'stump'],
                                             bounds=text + ', every random choice', **kw))
    an('annealing', '2 stumps with thresholds 0 and 1, 1 variable, 2 rows, 1 iteration', D=1, N=2, S=(0,), feats=[[0], [0]], thr=[[0], [1]])
    an('annealing-2', '2 stumps with thresholds 0, 2 variables, 2 rows, first candidate', D=2, N=2, S=(0, 1), feats=[[0], [1]], thr=[[0], [0]], iters=0)
    if tier == 'thorough':
        an('annealing-sym', '2 stumps, 1 variable, 2 rows, 1 iteration', D=1, N=2, S=(0,), feats=[[0], [0]])
        an('annealing-it2', '2 stumps with thresholds 0 and 1, 1 variable, 2 rows, 2 iterations', D=1, N=2, S=(0,), feats=[[0], [0]], thr=[[0], [1]], iters=2)
        an('annealing-b2', '2 stumps with thresholds 0 and 1, 1 variable, 2 rows, 2 candidates', D=1, N=2, S=(0,), feats=[[0], [0]], thr=[[0], [1]], batch=2)
        add('three', shapes=['stump', 'stump'], D=3, N=2, clf=1, S=[[0, 2]])
    return out
