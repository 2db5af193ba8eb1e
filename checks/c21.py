"""Histories: every query describes the state of the last fit, whatever was asked before."""
from engine.check import H
from checks.lib_forest import *
from checks.lib_model import fake, fittable, ints, fls, OVERRIDES
from checks.c09 import pred_of
from checks import c15

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite, values below 1e10 in absolute value',
               'the forest of skranger is replaced by its contract: every fit installs a new, arbitrary list of trees']
RF = 'skranger.ensemble.%s'


def state(F_, clf, run, tag):
    """what a fitted skranger forest exposes"""
    es = []
    for b, s in enumerate(F_.shapes):
        n = len(SHAPES[s][0])
        v = mkarr((n, 1, 2 if clf else 1), Fraction(0), 'f')
        for j in range(n):
            for q in range(v.shape[2]):
                v[j, 0, q] = Fraction(1 + (j + q) % 3)
        w = fls([Fraction(1 + n - j) for j in range(n)])
        es.append(fake(None, tree_=fake(None, children_left=ints(list(F_.cl[b, :n])), children_right=ints(list(F_.cr[b, :n])), feature=ints(list(F_.features[b, :n])),
                                        threshold=fls(list(F_.thresholds[b, :n])), value=v, weighted_n_node_samples=w, n_node_samples=ints([int(x) for x in w]))))
    return {'estimators_': es}


def fresh(run, clf, Fs):
    """an ACXplainer as its constructor leaves it"""
    o = SObj(run.I.fn('acv_explainers.acv_agnosticX', 'ACXplainer'))
    types = RF % ('classifier.RangerForestClassifier' if clf else 'regressor.RangerForestRegressor')
    o.a.update(classifier=clf, model=fittable(types, [state(F_, clf, run, 's%d' % i) for i, F_ in enumerate(Fs)]), check_is_explain=False, ACXplainer=None, d=None,
               rules=None, rules_output=None, rules_s_star=None, rules_coverage=None, rules_acc=None, rules_var=None, check_is_globalrule=False,
               rules_output_proba=None, rules_ori=None, rules_s_star_ori=None)
    return run.track(o)


def refit(run, first, second, D, N, S, clf, query='sdp', between=True, clip=True):
    """fit, (query,) fit again, query: the answer is the one of the second forest"""
    Fs = [Forest(run, first[0], D, first[1], tag='a'), Forest(run, second[0], D, second[1], tag='b')]
    X, data = run.reals('x', 1, D), run.reals('d', N, D)
    y = run.bits('y', 1) if clf else run.reals('y', 1)
    yd = run.bits('yd', N) if clf else run.reals('yd', N)
    t = run.reals('q', 1, 2)
    for v in list(X.reshape(-1)) + list(data.reshape(-1)) + [F_.thresholds[b, k] for F_ in Fs for b in range(F_.B) for k in F_.order(b)]:
        run.assume(band(lt(Fraction(-10 ** 10), v), lt(v, Fraction(10 ** 10))))
    o = fresh(run, clf, Fs)
    kw = {} if clf else {'t': t}

    def ask(lab, F_):
        mem, lo, hi = projection(F_, X[0], data, S, None)
        pr = pred_of('sdp', clf, y[0], list(yd), t[0])
        if query == 'sdp':
            r = run.call((o, 'compute_sdp_rf'), X, y, data, yd, [list(S)], min_node_size=0, **kw)
            run.eq('%s probability' % lab, r[0], frac_of(mem, pr, F_.B))
        else:
            r, rules = run.call((o, 'compute_sdp_rule'), X, y, data, yd, [list(S)], min_node_size=0, **kw)
            run.eq('%s probability' % lab, r[0], frac_of(mem, pr, F_.B))
            for f in range(D):
                run.check('%s lo[%d]' % (lab, f), tob(cmp('==', rules[0, f, 0], lo[f])))
                run.check('%s hi[%d]' % (lab, f), tob(cmp('==', rules[0, f, 1], hi[f])))
        return frac_of(mem, pr, F_.B)
    run.call((o, 'fit'), data, yd)
    p = None
    if between:
        p = ask('first fit', Fs[0])
    run.call((o, 'fit'), data, yd)
    q = ask('second fit', Fs[1])
    ask('again', Fs[1])
    if p is not None:
        run.cover('differs', bnot(tob(cmp('==', p, q))))


def rulebase(run, clf, D, S1, S2, N, ask=True):
    """global rules fitted twice: metrics and predictions come from the second rule base and the second sample"""
    o = fresh(run, clf, [])
    Xa, Xb = run.reals('xa', N, D), run.reals('xb', N, D)
    ya, yb = [(run.bits if clf else run.reals)(n, N) for n in ('ya', 'yb')]
    ra, rb = run.reals('ra', len(S1), D, 2), run.reals('rb', len(S2), D, 2)
    z = run.reals('z', 1, D)
    lim = Fraction(0) if clf else Fraction(10 ** 6)
    kw = {'min_acc': lim} if clf else {'min_reg': lim}
    if not clf:
        for v in list(ya) + list(yb):
            run.assume(band(lt(Fraction(-100), v), lt(v, Fraction(100))))
    run.call((o, 'fit_global_rules'), Xa, ya, ra, [list(s) for s in S1])
    if ask:
        run.call((o, 'predict_global_rules'), z, **kw)
    run.call((o, 'fit_global_rules'), Xb, yb, rb, [list(s) for s in S2])
    a = o.a
    U_ = a['rules'].shape[0]
    run.check('one', T if U_ == len(a['rules_coverage']) == len(a['rules_acc']) == len(a['rules_output']) == len(a['rules_s_star']) == 1 else F)
    ins = [c15.box(rb[0], S2[0], Xb[j]) for j in range(N)]
    some = bor(*ins)
    run.eq('coverage', arith('*', a['rules_coverage'][0], N), c15.count(ins))
    yo, ro, so = run.call((o, 'predict_global_rules'), z, **kw)
    inz = c15.box(rb[0], S2[0], z[0])
    for v, g in c15.alts(yo[0]):
        if v is None or isinstance(v, float):
            run.check('none', bor(bnot(g), bnot(band(inz, some))))
            continue
        run.check('inside', bor(bnot(g), band(inz, some)))
        if not clf:
            run.check('mean', bor(bnot(g), bnot(some), c15.mean_ok(None, v, ins, list(yb))))
        else:
            pos = c15.count([band(h, tob(cmp('==', yb[j], 1))) for j, h in enumerate(ins)])
            run.check('majority', bor(bnot(g), bnot(some), tob(cmp('==', v, b2u(tob(cmp('>', arith('*', 2, pos), c15.count(ins))))))))
    run.cover('predicted', band(inz, some))


def harnesses(tier):
    out = []
    th = tier == 'thorough'
    for clf in (1, 0):
        k = 'clf' if clf else 'reg'
        for nm, kw in [('sdp', dict(first=(['stump'], [[0]]), second=(['left2'], [[1, 0]]), S=[0])),
                       ('one', dict(first=(['left2'], [[1, 0]]), second=(['left2'], [[0, 1]]), S=[1], between=False)),
                       ('trees', dict(first=(['stump', 'stump'], [[0], [1]]), second=(['stump'], [[1]]), S=[1])),
                       ('rule', dict(first=(['stump'], [[0]]), second=(['stump', 'left2'], [[0], [0, 0]]), S=[0], query='rule'))] + (
                           [('deep', dict(first=(['full2'], [[0, 1, 0]]), second=(['chain3'], [[0, 1, 0]]), S=[0], query='rule'))] if th else []):
            out.append(H('refit-%s-%s' % (k, nm), refit, samples=2, overrides=OVERRIDES, D=2, N=3 if th else 2, clf=clf, timeout_ms=60000, safety=('oob', 'oobw'),
                         bounds='fit, query, fit, query, query; forests %s and %s, 2 variables, %d background rows' % (kw['first'][0], kw['second'][0], 3 if th else 2), **kw))
        for nm, N, kw in [('', 2, dict(S1=[[0]], S2=[[1]])), ('-fewer', 1, dict(S1=[[0], [1]], S2=[[1]]))]:
            out.append(H('rulebase-%s%s' % (k, nm), rulebase, samples=2, clf=clf, D=2, N=N, timeout_ms=60000, bounds='global rules fitted with %d rules, then with 1, %d rows each' % (len(kw['S1']), N), **kw))
    return out
