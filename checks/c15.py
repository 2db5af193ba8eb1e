"""Global rules: metrics of a rule base, and its predictions."""
from engine.check import H
from checks.lib_forest import *
import itertools

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite']


def explainer(run, clf, D):
    cls = run.I.fn('acv_explainers.acv_agnosticX', 'ACXplainer')
    o = SObj(cls)
    o.a.update(classifier=clf, d=D, check_is_explain=False, check_is_globalrule=False, rules=None, rules_s_star=None)
    return o


def box(rule, S, x):
    return band(*[band(le(rule[s, 0], x[s]), le(x[s], rule[s, 1])) for s in S])


def count(ms):
    return ssum([b2u(m) for m in ms])


def mean_ok(m, got, ins, vals):
    """got is the mean of vals over ins, for non-empty ins"""
    n = len(vals)
    s = ssum([ite(g, v, Fraction(0)) for g, v in zip(ins, vals)])
    k = count(ins)
    return band(*[bor(bnot(tob(cmp('==', k, j))), tob(cmp('==', arith('*', got, j), s))) for j in range(1, n + 1)])


def metrics(run, D, N, S, clf, R, via='fit'):
    X = run.reals('x', N, D)
    y = run.bits('y', N) if clf else run.reals('y', N)
    rules = run.reals('r', R, D, 2)
    o = explainer(run, clf, D)
    run.call((o, 'fit_global_rules'), X, y, rules, [list(s) for s in S])
    a = o.a
    ru, st = a['rules'], a['rules_s_star']
    U_ = ru.shape[0]
    same = lambda p, q: band(*[tob(cmp('==', p[f, e], q[f, e])) for f in range(D) for e in (0, 1)])
    run.check('fitted', T if a['check_is_globalrule'] else F)
    run.check('sizes', T if len(st) == U_ and len(a['rules_coverage']) == U_ and len(a['rules_acc']) == U_ and len(a['rules_output']) == U_ and len(a['rules_var']) == U_ else F)
    for i in range(U_):
        for j in range(i):
            run.check('distinct[%d,%d]' % (i, j), bnot(same(ru[i], ru[j])))
        Si = tuple(int(v) for v in st[i])
        run.check('origin[%d]' % i, bor(*[band(same(ru[i], rules[q]), T if tuple(S[q]) == Si else F) for q in range(R)]))
    for q in range(R):
        run.check('kept[%d]' % q, bor(*[same(ru[i], rules[q]) for i in range(U_)]))
    for i in range(U_):
        Si = [int(v) for v in st[i]]
        ins = [box(ru[i], Si, X[j]) for j in range(N)]
        some = bor(*ins)
        run.eq('coverage[%d]' % i, arith('*', a['rules_coverage'][i], N), count(ins))
        if some is F:
            continue
        def when(label, *ps):
            run.check(label, bor(bnot(some), band(*ps)))
        if run.split(some):
            out, acc, var = a['rules_output'][i], a['rules_acc'][i], a['rules_var'][i]
            k = count(ins)
            if clf:
                pos = count([band(g, tob(cmp('==', y[j], 1))) for j, g in enumerate(ins)])
                run.check('majority[%d]' % i, tob(cmp('==', out, b2u(tob(cmp('>', arith('*', 2, pos), k))))))
                run.check('share[%d]' % i, mean_ok(k, a['rules_output_proba'][i], ins, list(y)))
                run.check('accuracy[%d]' % i, mean_ok(k, acc, ins, [ite(tob(cmp('==', y[j], out)), Fraction(1), Fraction(0)) for j in range(N)]))
                run.cover('minority', tob(cmp('<', acc, 1)))
            else:
                run.check('mean[%d]' % i, mean_ok(k, out, ins, list(y)))
                run.check('mse[%d]' % i, mean_ok(k, acc, ins, [arith('*', arith('-', v, out), arith('-', v, out)) for v in y]))
            mv = a['rules_output_proba'][i] if clf else out
            run.check('variance[%d]' % i, mean_ok(k, var, ins, [arith('*', arith('-', v, mv), arith('-', v, mv)) for v in y]))


def predict(run, D, R, S, clf, nx=1, proba=False, empty=()):
    """predictions of a fitted rule base with any metrics; rules listed in `empty` hold no training row (NaN metrics)"""
    o = explainer(run, clf, D)
    rules = run.reals('r', R, D, 2)
    cov = run.reals('cov', R)
    acc = run.reals('acc', R)
    out = run.reals('out', R)
    outp = run.reals('outp', R)
    lo, lim = run.real('mincov'), run.real('lim')
    accs, outs, outps = list(acc), list(out), list(outp)
    for i in range(R):
        run.assume(le(Fraction(0), cov[i]))
        run.assume(le(Fraction(0), acc[i]))
    run.assume(le(Fraction(0), lim))
    for i in empty:
        accs[i] = outs[i] = outps[i] = float('nan')
        run.assume(tob(cmp('==', cov[i], 0)))
    o.a.update(check_is_globalrule=True, rules=rules, rules_s_star=[list(s) for s in S], rules_output=outs, rules_output_proba=outps, rules_coverage=list(cov), rules_acc=accs)
    X = run.reals('x', nx, D)
    if proba:
        yo, ro, so = run.call((o, 'predict_proba_global_rules'), X, lo, lim)
    else:
        yo, ro, so = run.call((o, 'predict_global_rules'), X, lo, lim, **({} if clf else {'min_reg': lim}))
    use = outps if proba else outs
    better = (lambda a, b: tob(cmp('>=', a, b))) if clf else (lambda a, b: tob(cmp('<=', a, b)))
    run.check('rows', T if len(yo) == len(ro) == len(so) == nx else F)
    for j in range(nx):
        ok = [F if i in empty else band(box(rules[i], S[i], X[j]), le(lo, cov[i])) for i in range(R)]
        best = [band(ok[i], *[bor(bnot(ok[k]), better(acc[i], acc[k])) for k in range(R)]) for i in range(R)]
        good = [band(best[i], better(acc[i], lim)) for i in range(R)]
        for rj, g1 in alts(ro[j]):
            for sj, g2 in alts(so[j]):
                for yj, g3 in alts(yo[j]):
                    g = band(g1, g2, g3)
                    if g is F:
                        continue
                    if yj is None or rj is None or sj is None:
                        run.check('none[%d]' % j, bor(bnot(g), band(bnot(bor(*good)), T if rj is None and sj is None and yj is None else F)))
                        continue
                    if isinstance(yj, float):
                        run.check('nan[%d]' % j, bnot(g))
                        continue
                    run.check('best[%d]' % j, bor(bnot(g), *[band(good[i], tob(cmp('==', yj, use[i])), *[tob(cmp('==', rj[f, e], rules[i, f, e])) for f in range(D) for e in (0, 1)],
                                                                  T if list(int(v) for v in sj) == list(S[i]) else F) for i in range(R) if i not in empty]))
                    run.cover('second', band(g, bor(*good[1:])))


def alts(u):
    return list(u.alts) if isinstance(u, U) else [(u, T)]


def harnesses(tier):
    out = []
    th = tier == 'thorough'
    for clf in (1, 0):
        k = 'clf' if clf else 'reg'
        out.append(H('fit-%s' % k, metrics, samples=4, D=1, N=2 + (clf or th), S=[[0], [0]], clf=clf, R=2, safety=(), timeout_ms=60000,
                     bounds='2 rules over 1 variable, %d rows' % (2 + (clf or th))))
        out.append(H('fit-%s-vars' % k, metrics, samples=4, D=2, N=2, S=[[0, 1], [1]], clf=clf, R=2, safety=(), timeout_ms=60000, bounds='2 rules over 2 variables (sets {0,1} and {1}), 2 rows'))
        out.append(H('fit-%s-rows' % k, metrics, samples=4, D=1, N=4 if clf else 3, S=[[0]], clf=clf, R=1, safety=(), timeout_ms=60000, bounds='1 rule, %d rows' % (4 if clf else 3)))
        for nm, R, S, kw in [('', 3, [[0], [0, 1], [1]], {}), ('-x2', 2, [[0], [1]], dict(nx=2)), ('-empty', 3, [[0], [0], [0]], dict(empty=(1,))), ('-none', 1, [[0]], dict(empty=(0,))),
                             ('-4', 4, [[0], [0], [0], [0]], {})]:
            D = max(v for s in S for v in s) + 1
            out.append(H('predict-%s%s' % (k, nm), predict, samples=4, D=D, R=R, S=S, clf=clf, safety=(), timeout_ms=60000, bounds='%d rules on %s, any metrics, any thresholds %s' % (R, S, kw), **kw))
            if clf:
                out.append(H('proba%s' % nm, predict, samples=4, D=D, R=R, S=S, clf=clf, proba=True, safety=(), timeout_ms=60000, bounds='%d rules on %s, any metrics, any thresholds %s' % (R, S, kw), **kw))
    return out
