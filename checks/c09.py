"""Projected-forest probabilities."""
from engine.check import H
from checks.lib_forest import *

ASSUMPTIONS = [
    'exact real arithmetic instead of doubles; inputs finite',
    'forest arrays as the library builds them: children ids larger than the parent, leaves marked by negative child ids',
]


def pred_of(kind, clf, y, yd, t, down=None, up=None):
    if kind == 'sdp':
        return [tob(cmp('==', y, v)) if clf else band(le(t[0], v), le(v, t[1])) for v in yd]
    if kind == 'ddp':
        return [bnot(p) for p in pred_of('sdp', clf, y, yd, t)]
    if kind == 'cdp':
        return [tob(cmp('==', y, v)) if clf else band(le(down, v), le(v, up)) for v in yd]
    if kind == 'cdpi':
        return [bnot(tob(cmp('==', y, v))) if clf else band(le(t[0], v), le(v, t[1])) for v in yd]


def setup(run, shapes, D, N, clf, nx=1, feats='sym'):
    F_ = Forest(run, shapes, D, feats)
    X = run.reals('x', nx, D)
    data = run.reals('d', N, D)
    y = run.bits('y', nx) if clf else run.reals('y', nx)
    yd = run.bits('yd', N) if clf else run.reals('yd', N)
    t = run.reals('q', nx, 2)
    S = [symset(run, 'S%d' % i, D) for i in range(nx)]
    return F_, X, data, y, yd, t, S


def forest(run, method, kind, shapes, D, N, clf, ms, nx=1, cond=None, api='agn', form='scalar'):
    F_, X, data, y, yd, t, S = setup(run, shapes, D, N, clf, nx)
    ex = F_.explainer(clf) if api == 'agn' else tree_explainer(run, F_)
    targ = t
    if api == 'tree':
        targ, t = tree_level(run, list(y), form)
    m = run.choice('ms', ms)
    nt = F_.B
    down, up = (run.reals('down', nx), run.reals('up', nx)) if kind == 'cdp' else (None, None)
    cargs = ()
    C = None
    if cond:
        C = run.reals('c', nx, D, 2)
        for i in range(nx):
            for f in range(D):
                run.assume(le(C[i, f, 0], C[i, f, 1]))
        cargs = (C,)
    args = (X, y) + ((down, up) if kind == 'cdp' else ()) + (data, yd, S) + cargs
    kw = dict(min_node_size=m)
    if not clf:
        kw['t'] = targ
    if api == 'tree':
        kw['classifier'] = clf
    kw2 = {}
    if method.endswith('_verbose'):
        method, kw2 = method[:-8], dict(verbose=True)
    out = run.call((ex, method), *args, **dict(kw, **kw2))
    sdp = out[0] if isinstance(out, tuple) else out
    for i in range(nx):
        mem, lo, hi = projection(F_, X[i], data, S[i], None, None if C is None else C[i], intv='intv' in method)
        enough = band(*[tob(cmp('>=', ssum([b2u(q) for q in mb]), m)) for mb in mem])
        run.assume(bor(tob(cmp('==', m, 0)), enough))
        pr = pred_of(kind, clf, y[i], [yd[j] for j in range(N)], t[i], *((down[i], up[i]) if kind == 'cdp' else ()))
        want = frac_of(mem, pr, nt)
        run.eq('probability[%d]' % i, sdp[i], want)
        run.cover('nontrivial', band(tob(cmp('<', Fraction(0), want)), tob(cmp('<', want, Fraction(1)))))
        if 'weights' in method:
            w = out[1]
            for j in range(N):
                run.eq('weight[%d,%d]' % (i, j), w[i, j], weight_of(mem, j, nt))
        if 'rule' in method:
            ru = out[1]
            for f in range(D):
                run.eq('rule_lo[%d,%d]' % (i, f), ru[i, f, 0], lo[f])
                run.eq('rule_hi[%d,%d]' % (i, f), ru[i, f, 1], hi[f])


METHODS = [('compute_sdp_rf', 'sdp', False), ('compute_sdp_rule', 'sdp', False), ('compute_ddp_rf', 'ddp', False), ('compute_ddp_rule', 'ddp', False),
           ('compute_ddp_weights', 'ddp', False), ('compute_ddp_weights_verbose', 'ddp', False), ('compute_cdp_rf', 'cdp', False),
           ('compute_cdp_rule', 'cdp', False), ('compute_cdp_weights', 'cdp', False), ('compute_cdp_weights_verbose', 'cdp', False),
           ('compute_ddp_cond_weights', 'ddp', True), ('compute_cdp_cond_weights', 'cdp', True), ('compute_ddp_intv_weights', 'ddp', True),
           ('compute_cdp_intv_weights', 'cdpi', True)]


def harnesses(tier):
    out = []
    for meth, kind, cond in METHODS:
        for clf in (1, 0):
            out.append(H('%s-%s' % (meth, 'clf' if clf else 'reg'), forest, samples=3, cost=3, method=meth, kind=kind,
                         shapes=['left2', 'stump'], D=2, N=3, clf=clf, ms=[0, 1, 2], cond=cond,
                         bounds='2 trees (depth 2 and 1), 2 features, 3 background rows, 1 explained row, all S, min_node_size 0..2, fully refined trees'))
            out.append(H('%s-%s-d3' % (meth, 'clf' if clf else 'reg'), forest, samples=3, cost=3, method=meth, kind=kind,
                         shapes=['chain3'], D=2, N=2, clf=clf, ms=[0, 1, 2], cond=cond, safety=('oob', 'oobw', 'uninit'),
                         bounds='1 tree of depth 3'))
            out.append(H('%s-%s-x2' % (meth, 'clf' if clf else 'reg'), forest, samples=2, cost=3, method=meth, kind=kind, shapes=['stump'], D=2, N=2, nx=2, clf=clf, ms=[0], cond=cond,
                         safety=('oob', 'oobw', 'uninit'), bounds='1 stump, 2 features, 2 background rows, 2 explained rows'))
    for clf, nm, kw in [(1, 'two', {}), (0, 'two', {}), (0, 'x2', dict(nx=2, form='array')), (1, 'x2', dict(nx=2))]:
        out.append(H('tree-compute_sdp_rf-%s-%s' % ('clf' if clf else 'reg', nm), forest, samples=2, cost=3, method='compute_sdp_rf', kind='sdp', api='tree', shapes=['stump', 'stump'] if nm == 'two' else ['stump'],
                     D=2, N=2, clf=clf, ms=[0, 1, 2] if nm == 'two' else [0], bounds='ACVTree; %s' % kw, **kw))
    return out
