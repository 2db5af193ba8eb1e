"""Leaf boxes of the converted ensemble."""
from engine.check import H
from checks.lib_model import *

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite', 'the recursion depth of the C extension cext_acv follows its contract (decided on the C++ source by C20)']


def concrete(v):
    return CTX[0].concretize(v) if isinstance(v, U) else v


def boxes(run, trees, D, N, k, form):
    ts = [Tree(run, 'a%d' % b, s, f, k) for b, (s, f) in enumerate(trees)]
    data = run.reals('d', N, D)
    if form == 'forest':
        o = run.call('acv_explainers.acv_agnosticX:BaseAgnosTree', fake('skranger.ensemble.regressor.RangerForestRegressor',
                     estimators_=[fake(None, tree_=t.as_sklearn(None)) for t in ts]), D)
        sc = Fraction(1, len(ts))
    else:
        o = run.call('acv_explainers.acv_tree:ACVTree', {'trees': [t.as_dict() for t in ts]}, data)
        sc = Fraction(1)
    x = run.reals('x', D)
    P, L, V = o.a['partition_leaves_trees'], o.a['leaf_idx_trees'], o.a['node_idx_trees']
    for b, t in enumerate(ts):
        nb = concrete(o.a['leaves_nb'][b])
        ids = [concrete(L[b, j]) for j in range(nb)]
        run.check('leaves[%d]' % b, sorted(ids) == t.leaves)
        for j, leaf in enumerate(ids):
            if leaf not in t.leaves:
                continue
            inb = band(*[band(lt(P[b, j, f, 0], x[f]), le(x[f], P[b, j, f, 1])) for f in range(D)])
            run.check('box[%d,%d]' % (b, j), bor(band(inb, t.goes(leaf, x)), band(bnot(inb), bnot(t.goes(leaf, x)))))
            run.cover('inside[%d,%d]' % (b, j), inb)
            run.check('variables[%d,%d]' % (b, j), sorted(concrete(v) for v in V[b][j]) == sorted(t.vars(leaf)))
            for q in range(k):
                run.eq('value[%d,%d,%d]' % (b, j, q), o.a['values'][b, leaf, q], arith('*', t.val[leaf][q], sc))
        for j in range(t.n):
            run.check('children[%d,%d]' % (b, j), [concrete(o.a['children_left'][b, j]), concrete(o.a['children_right'][b, j])] == [t.cl[j], t.cr[j]])
            if t.cl[j] >= 0:
                run.check('feature[%d,%d]' % (b, j), concrete(o.a['features'][b, j]) == t.feat[j])
                run.eq('threshold[%d,%d]' % (b, j), o.a['thresholds'][b, j], t.thr[j])
        for j in range(t.n, o.a['children_left'].shape[1]):
            run.check('padding[%d,%d]' % (b, j), concrete(o.a['children_left'][b, j]) == -1 and concrete(o.a['children_right'][b, j]) == -1)
    run.check('max_depth', concrete(o.a['max_depth']) >= max(len(depth_path(t, j)) for t in ts for j in t.leaves))


def depth_path(t, j):
    out = []
    while j:
        j = [q for q in range(t.n) if j in (t.cl[q], t.cr[q])][0]
        out.append(j)
    return out


def buffers(run, trees, D, N, api):
    """the kernels run on the converted model without leaving their work arrays, and a full set gives the value of the leaf of the row"""
    ts = [Tree(run, 'a%d' % b, s, f, 1) for b, (s, f) in enumerate(trees)]
    data = run.reals('d', N, D)
    X = run.reals('x', 1, D)
    for t in ts:
        for j in t.leaves:
            run.split(t.goes(j, X[0]))
            run.assume(bor(bnot(t.goes(j, X[0])), *[t.goes(j, data[i]) for i in range(N)]))
    o = run.call('acv_explainers.acv_tree:ACVTree', {'trees': [t.as_dict() for t in ts]}, data)
    if api == 'shap':
        r = run.call((o, 'shap_values'), X)
        s = Fraction(0)
        for f in range(D):
            s = arith('+', s, r[0, f, 0])
        base = mean([total([t.value(data[i], lambda j, t=t: t.val[j]) for t in ts]) for i in range(N)])[0]
        run.eq('sum', s, arith('-', total([t.value(X[0], lambda j, t=t: t.val[j]) for t in ts])[0], base))
    else:
        r = run.call((o, api), X, ints(range(D)), data)
        run.eq('value', r[0, 0], total([t.value(X[0], lambda j, t=t: t.val[j]) for t in ts])[0])
    run.cover('path', T)


def harnesses(tier):
    out = []
    th = tier == 'thorough'
    cases = [('one', [('left2', [0, 1])], 2), ('same', [('left2', [0, 0])], 2), ('two', [('right2', [1, 0]), ('stump', [0])], 2), ('three', [('stump', [2]), ('zig3', [0, 1, 0]), ('left2', [1, 2])], 3),
             ('full', [('full2', [0, 1, 2])], 3), ('chain', [('chain3', [0, 1, 0]), ('full2', [1, 1, 1])], 2), ('single', [('left2', [0, 0]), ('stump', [0])], 1)]
    if th:
        cases += [('full3', [('full3', [0, 1, 2, 0, 1, 2, 0]), ('chain3', [2, 2, 2])], 3), ('deep', [('zig3', [3, 0, 2]), ('chain3', [1, 3, 1]), ('full2', [2, 2, 0])], 4)]
    for nm, tr, D in cases:
        out.append(H('boxes-tree-' + nm, boxes, samples=2, overrides=OVERRIDES, trees=tr, D=D, N=2, k=2 if nm == 'one' else 1, form='tree',
                     bounds='trees %s over %d variables, every threshold, value and point' % (tr, D)))
        if D > 1:
            out.append(H('boxes-forest-' + nm, boxes, samples=2, overrides=OVERRIDES, trees=tr, D=D, N=2, k=1, form='forest',
                         bounds='trees %s over %d variables, every threshold, value and point' % (tr, D)))
    saf = ('oob', 'oobw', 'uninit')
    for nm, tr, D in [('late-small', [('chain3', [0, 1, 2]), ('stump', [0])], 3), ('late-large', [('stump', [1]), ('right2', [0, 1])], 2)]:
        for api in ('shap', 'compute_exp'):
            out.append(H('use-%s-%s' % (api, nm), buffers, samples=1, cost=3, overrides=OVERRIDES, trees=tr, D=D, N=2, api=api, safety=saf,
                         bounds='trees %s over %d variables, 2 background rows' % (tr, D)))
    return out
