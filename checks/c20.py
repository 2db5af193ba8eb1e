"""The converted ensemble predicts what the fitted model predicts."""
from engine.check import H
from engine import cxx
import math
from checks.lib_model import *

HEADER = 'acv_explainers/cext_acv/acv_tree.h'
ASSUMPTIONS = ['Python part: exact real arithmetic instead of doubles, no missing values, the C extension by its contract',
               'C++ part: bit-precise doubles; node values are distinct powers of two (a sum tells which were added); the argument parsing of the extension (CPython API) is not encoded',
               'binary model files of XGBoost and the probability transform of boosted classifiers (exp) are not encoded; rows exactly at an XGBoost threshold are excluded']
SK = 'sklearn.ensemble.'
RF = 'skranger.ensemble.%s'
AVG = ('RandomForestRegressor', 'ExtraTreesRegressor', 'RandomForestClassifier', 'ExtraTreesClassifier', 'RangerForestClassifier', 'RangerForestRegressor')


def arr2(xs):
    a = mkarr((len(xs), 1), None, 'o')
    for i, x in enumerate(xs):
        a[i, 0] = x
    return a


def predict(run, kind, trees, D, k=1, nx=1):
    cnt = kind.endswith('Classifier') and k > 1
    ts = [Tree(run, 'a%d' % b, s, f, k) for b, (s, f) in enumerate(trees)]
    data = run.reals('d', 2, D)
    X = run.reals('x', nx, D)
    strict = kind in ('xgb',)
    for t in ts:
        if cnt:                        # class counts of the leaves
            for j in range(t.n):
                for v in t.val[j]:
                    run.assume(tob(cmp('>=', v, 0)))
                run.assume(tob(cmp('>', ssum(t.val[j]), 0)))
        if strict:
            for j in range(t.n):
                if t.cl[j] >= 0:
                    for i in range(nx):
                        run.assume(tob(cmp('!=', X[i][t.feat[j]], t.thr[j])))

    def leafval(t):
        if cnt:
            return lambda j: [arith('/', v, ssum(t.val[j])) for v in t.val[j]]
        return lambda j: t.val[j]

    def out(i):
        vs = [t.value(X[i], leafval(t), strict) for t in ts]
        if kind in AVG:
            return mean(vs)
        if kind in ('GradientBoostingRegressor', 'GradientBoostingClassifier'):
            return [arith('+', c0, v) for v in scaled(total(vs), lr)]
        if kind in ('HistGradientBoostingRegressor', 'HistGradientBoostingClassifier'):
            return [arith('+', c0, v) for v in total(vs)]
        if kind == 'LGBMClassifier3':
            return [t.value(X[i], leafval(t), strict)[0] for t in ts]
        if kind == 'offset':
            return [arith('+', c0, v) for v in total(vs)]
        return total(vs)

    crit = {'criterion': 'squared_error'}
    if kind.startswith('Ranger'):
        m = fake(RF % ('classifier.' if cnt else 'regressor.') + kind, estimators_=[fake(None, tree_=t.as_sklearn()) for t in ts], **crit)
    elif kind in AVG:
        m = fake(SK + kind, estimators_=[fake(None, tree_=t.as_sklearn()) for t in ts], **crit)
    elif kind in ('DecisionTreeRegressor', 'DecisionTreeClassifier'):
        m = fake('sklearn.tree.' + kind, tree_=ts[0].as_sklearn(), **crit)
    elif kind == 'GradientBoostingRegressor':
        lr, c0 = run.real('lr'), run.real('c0')
        m = fake(SK + kind, init_=fake('sklearn.dummy.DummyRegressor', constant_=fls([c0])), learning_rate=lr, estimators_=arr2([fake(None, tree_=t.as_sklearn()) for t in ts]), **crit)
    elif kind == 'GradientBoostingClassifier':
        lr, c0 = run.real('lr'), Fraction(math.log(3))
        m = fake(SK + kind, init_=fake('sklearn.dummy.DummyClassifier', class_prior_=fls([Fraction(1, 4), Fraction(3, 4)])), learning_rate=lr, estimators_=arr2([fake(None, tree_=t.as_sklearn()) for t in ts]), **crit)
    elif kind in ('HistGradientBoostingRegressor', 'HistGradientBoostingClassifier'):
        c0 = run.real('c0')
        m = fake(SK + kind, _baseline_prediction=c0, _predictors=[[fake(None, nodes=t.as_hist())] for t in ts], loss='squared_error')
    elif kind in ('LGBMRegressor', 'LGBMClassifier3'):
        m = fake('lightgbm.sklearn.' + kind.rstrip('3'), booster_=fake(None, dump_model=Const({'tree_info': [t.as_lgb() for t in ts]})), objective='regression', n_classes_=3)
    elif kind == 'xgb':
        m = {'trees': [t.as_xgb() for t in ts]}
    elif kind == 'lgb':
        m = {'trees': [t.as_lgb() for t in ts]}
    elif kind == 'old':
        m = {'trees': [t.as_old_dict() for t in ts]}
    else:
        m = {'trees': [t.as_dict() for t in ts]}
        if kind == 'offset':
            c0 = run.real('c0')
            m['base_offset'] = c0
    o = run.call('acv_explainers.acv_tree:ACVTree', m, data)
    p = run.call((o, 'predict'), X)
    for i in range(nx):
        w = out(i)
        for q in range(len(w)):
            run.eq('prediction[%d,%d]' % (i, q), p[i] if len(w) == 1 else p[i, q], w[q])
    if kind == 'flat':
        r = run.call((o, 'predict'), X[0])
        run.eq('flat', r, out(0)[0])
    run.cover('path', T)


def forest(run, trees, D, k):
    """the forest of a fitted ACXplainer (skranger): leaf values averaged over the trees, and a split on variable 0 stored as -2 is recovered"""
    cnt = k > 1
    ts = [Tree(run, 'a%d' % b, s, f, k) for b, (s, f) in enumerate(trees)]
    sk = [t.as_sklearn(None) for t in ts]
    for t, q in zip(ts, sk):
        for j in range(t.n):
            if t.cl[j] >= 0 and t.feat[j] == 0:
                q.a['feature'][j] = run.choice('stored', [0, -2])
            if cnt:
                for v in t.val[j]:
                    run.assume(tob(cmp('>=', v, 0)))
                run.assume(tob(cmp('>', ssum(t.val[j]), 0)))
    o = run.call('acv_explainers.acv_agnosticX:BaseAgnosTree', fake('skranger.ensemble.%s' % ('classifier.RangerForestClassifier' if cnt else 'regressor.RangerForestRegressor'),
                 estimators_=[fake(None, tree_=q) for q in sk]), D)
    for b, t in enumerate(ts):
        for j in range(t.n):
            if t.cl[j] >= 0:
                run.check('feature[%d,%d]' % (b, j), tob(cmp('==', o.a['features'][b, j], t.feat[j])))
                run.eq('threshold[%d,%d]' % (b, j), o.a['thresholds'][b, j], t.thr[j])
            else:
                s = ssum(t.val[j])
                for q in range(k):
                    v = arith('/', t.val[j][q], s) if cnt else t.val[j][q]
                    run.eq('value[%d,%d,%d]' % (b, j, q), o.a['values'][b, j, q], arith('*', v, Fraction(1, len(ts))))
    run.cover('path', T)


# ------------------------------------------------------------------ the C++ extension
def cxx_predict(h, idx, trees, M, nx, k, limit=None):
    """dense_tree_predict: every threshold, row (missing or not) and default side; node values are distinct powers of two, so that a sum tells which ones were added"""
    B = len(trees)
    n = max(len(SHAPES[s][0]) for s, _ in trees)
    cl, cr, ft = [], [], []
    for s, fs in trees:
        l, r = SHAPES[s]
        cl += list(l) + [-1] * (n - len(l))
        cr += list(r) + [-1] * (n - len(r))
        it = iter(fs)
        ft += [next(it) if q >= 0 else -2 for q in l] + [-1] * (n - len(l))
    nd = B * n + nx * M
    ni = B * n + nx * M                    # default side, missing
    o_mis = B * n
    used = limit or B
    va = [2 ** i for i in range(B * n * k)]
    off = [2 ** (B * n * k + q) for q in range(k)]
    c = lambda v: ', '.join(map(str, v))
    decl = 'int cl[] = {%s};\nint cr[] = {%s};\nint ft[] = {%s};\nint cd[%d];\ndouble th[%d], nw[%d], X[%d], out[%d];\ndouble va[] = {%s};\ndouble off[] = {%s};\nbool mis[%d];\n' % (
        c(cl), c(cr), c(ft), B * n, B * n, B * n, nx * M, nx * k, c(va), c(off), nx * M)
    body = ''
    for p in range(B * n):
        if cl[p] >= 0:
            body += '  ASSUME(in_d[%d] >= -1e300 && in_d[%d] <= 1e300); th[%d] = in_d[%d];\n' % (p, p, p, p)
            body += '  ASSUME(in_i[%d] == 0 || in_i[%d] == 1); cd[%d] = in_i[%d] ? cl[%d] : cr[%d];\n' % (p, p, p, p, p, p)
        else:
            body += '  th[%d] = -2; cd[%d] = -1;\n' % (p, p)
        body += '  nw[%d] = 1;\n' % p
    for i in range(nx * M):
        body += '  ASSUME(in_d[%d] >= -1e300 && in_d[%d] <= 1e300); X[%d] = in_d[%d];\n' % (B * n + i, B * n + i, i, B * n + i)
        body += '  ASSUME(in_i[%d] == 0 || in_i[%d] == 1); mis[%d] = in_i[%d] != 0;\n' % (o_mis + i, o_mis + i, i, o_mis + i)
    for i in range(nx * k):
        body += '  out[%d] = 0;\n' % i
    depth = max(max(depth_of(s).values()) for s, _ in trees)
    body += '  TreeEnsemble e(cl, cr, cd, ft, th, va, nw, %d, %d, off, %d, %d);\n  ExplanationDataset ds(X, mis, 0, 0, %d, %d, 0);\n  dense_tree_predict(out, e, ds);\n' % (depth, used, n, k, nx, M)

    def val(b, j, i, q):
        p = b * n + j
        if cl[p] < 0:
            return '%dL' % va[p * k + q]
        go = '(in_i[%d] ? in_i[%d] : in_d[%d] <= in_d[%d])' % (o_mis + i * M + ft[p], p, B * n + i * M + ft[p], p)
        return '(%s ? %s : %s)' % (go, val(b, cl[p], i, q), val(b, cr[p], i, q))
    for i in range(nx):
        for q in range(k):
            body += '  CHECK("row %d output %d is the offset plus the leaf values", (long)out[%d] == %dL + %s);\n' % (i, q, i * k + q, off[q], ' + '.join(val(b, 0, i, q) for b in range(used)))
    return cxx.decide(h.name, HEADER, decl, body, nd, ni, 2 + max(depth + 1, nx, B, k), ['cext_acv.dense_tree_predict', 'cext_acv.tree_predict'], h.bounds, idx)


def cxx_depth(h, idx, shape, perm, k):
    """compute_expectations: the depth of the tree; node values stay as they are"""
    l, r = SHAPES[shape]
    n = len(l)
    d = max(depth_of(shape).values())
    cl, cr = (l, r) if not perm else (r, l)
    c = lambda v: ', '.join(map(str, v))
    decl = 'int cl[] = {%s};\nint cr[] = {%s};\ndouble va[%d], nw[%d];\n' % (c(cl), c(cr), n * k, n)
    body = ''
    for i in range(n * k):
        body += '  ASSUME(in_d[%d] >= -1e300 && in_d[%d] <= 1e300); va[%d] = in_d[%d];\n' % (i, i, i, i)
    for i in range(n):
        body += '  ASSUME(in_d[%d] >= 0 && in_d[%d] <= 1e300); nw[%d] = in_d[%d];\n' % (n * k + i, n * k + i, i, n * k + i)
    body += '  TreeEnsemble t;\n  t.num_outputs = %d; t.children_left = cl; t.children_right = cr; t.node_sample_weights = nw; t.values = va;\n  int d = compute_expectations(t);\n' % k
    body += '  CHECK("the depth of the tree", d == %d);\n' % d
    for i in range(n * k):
        body += '  CHECK("value %d unchanged", va[%d] == in_d[%d]);\n' % (i, i, i)
    return cxx.decide(h.name, HEADER, decl, body, n * k + n, 0, 2 + max(d + 1, k), ['cext_acv.compute_expectations'], h.bounds, idx)


def harnesses(tier):
    out = []
    th = tier == 'thorough'
    T2 = [('left2', [0, 1]), ('stump', [1])]
    T1 = [('full2', [0, 1, 0])]
    for kind, tr, k in (('RandomForestRegressor', T2, 1), ('ExtraTreesRegressor', T2, 1), ('RandomForestClassifier', T2, 2), ('ExtraTreesClassifier', T2, 3), ('DecisionTreeRegressor', T1, 1), ('RangerForestClassifier', T2, 2),
                        ('HistGradientBoostingClassifier', T2, 1),
                        ('DecisionTreeClassifier', T1, 2), ('GradientBoostingRegressor', T2, 1), ('HistGradientBoostingRegressor', T2, 1), ('LGBMRegressor', T2, 1),
                        ('LGBMClassifier3', T2 + [('stump', [0])], 1), ('xgb', T2, 1), ('lgb', T2, 1), ('old', T2, 1), ('dict', T2, 2), ('offset', T2, 1), ('flat', T2, 1)):
        nx = 2 if kind in ('dict', 'RandomForestRegressor') else 1
        out.append(H('predict-' + kind, predict, samples=2, overrides=OVERRIDES, kind=kind, trees=tr, D=2, k=k, nx=nx,
                     bounds='trees %s over 2 variables, %d outputs, %d rows, every threshold, leaf value and row' % (tr, k, nx)))
    for k in (1, 2):
        out.append(H('forest-%d' % k, forest, samples=2, overrides=OVERRIDES, trees=T2, D=2, k=k, bounds='trees %s over 2 variables' % (T2,)))
    for nm, sh, M, nx, k, lim in [('two', [('left2', [0, 1]), ('right2', [1, 0])], 2, 1, 1, None), ('rows', [('stump', [1])], 2, 2, 2, None), ('limit', [('stump', [0]), ('left2', [1, 1])], 2, 1, 1, 1)] + (
            [('deep', [('chain3', [0, 1, 2]), ('zig3', [2, 0, 2])], 3, 1, 1, None), ('wide', [('full2', [0, 1, 1]), ('full2', [1, 0, 0]), ('stump', [1])], 2, 2, 1, None)] if th else []):
        out.append(H('cxx-predict-' + nm, cxx_predict, external=True, trees=sh, M=M, nx=nx, k=k, limit=lim, cost=3,
                     bounds='C++: trees %s, %d variables, %d rows, %d outputs, every double, missing entries' % (sh, M, nx, k)))
    for sh in ('leaf', 'chain3', 'zig3', 'full2'):
        for perm in (0, 1):
            out.append(H('cxx-depth-%s%s' % (sh, '-mirrored' if perm else ''), cxx_depth, external=True, shape=sh, perm=perm, k=2, bounds='C++: tree %s, 2 outputs, every double' % sh))
    return out
