"""Counterfactual rules: what a rule keeps, what it may change, and the probability reported for it."""
from engine.check import H
from checks.lib_forest import *
from checks.lib_tree import ConstRow
from checks.c09 import pred_of
from checks.c12 import alts

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite', 'forest arrays as the library builds them',
               'every distinct background row occurs REP times, so that min_node_size never stops a tree with background rows in it']
REP = 5


def tile(data, rep=REP):
    N, D = data.shape
    a = mkarr((N * rep, D), Fraction(0), 'f')
    for r in range(rep):
        for i in range(N):
            for f in range(D):
                a[r * N + i, f] = data[i, f]
    return a


def tile1(v, rep=REP):
    return type(v)((v.shape[0] * rep,), list(v.reshape(-1)) * rep, v.dt) if False else mk1([e for _ in range(rep) for e in v], v)


def mk1(vals, like):
    a = mkarr((len(vals),), Fraction(0), 'f')
    for i, v in enumerate(vals):
        a[i] = v
    return a


def boxes(run, name, n, D):
    B = run.reals(name, n, D, 2)
    for i in range(n):
        for f in range(D):
            run.assume(lt(B[i, f, 0], B[i, f, 1]))
    return B


def same_box(a, b, D):
    return band(*[tob(cmp('==', a[f][e], b[f][e])) for f in range(D) for e in (0, 1)])


def contains(a, b, D):
    """box a contains box b"""
    return band(*[band(le(a[f][0], b[f][0]), le(b[f][1], a[f][1])) for f in range(D)])


def rows2(B, i, D):
    return [[B[i, f, 0], B[i, f, 1]] for f in range(D)]


def counterfactuals(run, meth, local, reg, shapes, D, N, S_star, L, feats='sym', pi=Fraction(7, 10)):
    F_ = Forest(run, shapes, D, feats)
    X = run.reals('x', 1, D)
    data = tile(run.reals('d', N, D))
    yd = tile1(run.reals('yd', N) if reg else run.bits('yd', N))
    y = run.reals('y', 1) if reg else run.bits('y', 1)
    down, up = run.reals('down', 1), run.reals('up', 1)
    ex = F_.explainer(0 if reg else 1)
    if reg:
        ex.a['model'].a['predict_quantiles'] = ConstRow([Fraction(0), Fraction(1)])
    leaves = boxes(run, 'l', L, D)
    S_bar = [v for v in range(D) if v not in S_star]
    suf = [leaves[i] for i in range(L)]
    args = (ex, suf, list(S_star), list(S_bar), X, y.reshape(1, -1))
    if reg:
        args += (down[0], up[0]) if local else (down, up)
    args += (data, yd)
    reg_ = None
    if not local:
        reg_ = boxes(run, 'c', 1, D)
        args += (reg_,)
    cf, sdp, w = run.call('acv_explainers.utils_cr:' + meth, *args + (pi,))
    n = data.shape[0]
    K = cf.shape[0]
    run.check('sizes', T if K >= 1 and tuple(sdp.shape) == (K,) and tuple(w.shape) == (K, n) and tuple(cf.shape) == (K, D, 2) else F)
    pr = pred_of('cdp', not reg, y[0], list(yd), None, down[0], up[0])
    conds, p, mems = [], [], []
    for i in range(L):
        c = [[leaves[i, f, 0], leaves[i, f, 1]] if f in S_star else ([X[0, f], X[0, f]] if local else [reg_[0, f, 0], reg_[0, f, 1]]) for f in range(D)]
        ca = mkarr((D, 2), Fraction(0), 'f')
        for f in range(D):
            ca[f, 0], ca[f, 1] = c[f]
        mem, _, _ = projection(F_, X[0], data, tuple(S_bar) if local else (), None, ca)
        conds.append(c)
        mems.append(mem)
        p.append(frac_of(mem, pr, F_.B))
    ok = [tob(cmp('>=', q, pi)) for q in p]
    none = bnot(bor(*ok))
    hit = []
    for k in range(K):
        hit.append([band(same_box(rows2(cf, k, D), conds[i], D), tob(cmp('==', sdp[k], p[i])), *[tob(cmp('==', w[k, j], weight_of(mems[i], j, F_.B))) for j in range(n)]) for i in range(L)])
    for k in range(K):
        run.check('rule[%d]' % k, bor(*[band(hit[k][i], bor(ok[i], band(none, *[tob(cmp('>=', p[i], p[j])) for j in range(L)]))) for i in range(L)]))
    for i in range(L):
        run.check('reported[%d]' % i, bor(bnot(ok[i]), *[hit[k][i] for k in range(K)]))
    run.cover('reached', bor(*ok))
    run.cover('none', none)
    run.cover('partial', tob(cmp('<', Fraction(0), p[0])))


def prune(run, R, D, N=2, withsdp=True):
    """no rule lost except those contained in a reported one"""
    B = boxes(run, 'r', R, D)
    if withsdp:
        sdp, w = run.reals('s', R), run.reals('w', R, N)
        rb, sb, wb = run.call('acv_explainers.utils_cr:remove_in_wsdp', B, sdp, w)
    else:
        B0 = B.copy()
        rb = run.call('acv_explainers.utils_cr:remove_in', B)
        B = B0
    K = rb.shape[0]
    run.check('sizes', T if not withsdp or (tuple(sb.shape) == (K,) and tuple(wb.shape) == (K, N)) else F)
    inp, out = [rows2(B, i, D) for i in range(R)], [rows2(rb, k, D) for k in range(K)]
    for i in range(R):
        run.check('covered[%d]' % i, bor(*[contains(out[k], inp[i], D) for k in range(K)]))
    for k in range(K):
        run.check('origin[%d]' % k, bor(*[band(same_box(out[k], inp[i], D), T if not withsdp else band(tob(cmp('==', sb[k], sdp[i])), *[tob(cmp('==', wb[k, j], w[i, j])) for j in range(N)])) for i in range(R)]))
        for l in range(K):
            if l != k:
                run.check('maximal[%d,%d]' % (k, l), bnot(contains(out[l], out[k], D)))
    run.cover('nested', band(contains(inp[0], inp[1], D), bnot(same_box(inp[0], inp[1], D))))
    run.cover('equal', same_box(inp[0], inp[1], D))
    run.cover('apart', bnot(bor(*[contains(inp[i], inp[j], D) for i in range(R) for j in range(R) if i != j])))


def grown(run, D, N, R, iters=1, batch=1, tries=0):
    """growing a leaf keeps it, and adds no background row lying in none of the candidate leaves"""
    rules = boxes(run, 'r', 1, D)
    others = boxes(run, 'o', R, D)
    data = run.reals('d', N, D)
    mod = run.I.module('acv_explainers.utils_cr') if hasattr(run.I, 'module') else None
    vol = run.I.fn('acv_explainers.utils_cr', 'volume_rectangles')
    oth = mkarr((1, R, D, 2), Fraction(0), 'f')
    for i in range(R):
        for f in range(D):
            oth[0, i, f, 0], oth[0, i, f, 1] = others[i, f, 0], others[i, f, 1]
    for v in list(rules.reshape(-1)) + list(others.reshape(-1)):
        run.assume(band(le(Fraction(-10 ** 10), v), le(v, Fraction(10 ** 10))))
    sr, ev = run.call('acv_explainers.utils_cr:rules_by_annealing', vol, rules, oth, data, p_best=Fraction(1, 2), n_try=tries, batch=batch, max_iter=iters, temp=1, max_iter_convergence=1)
    g = sr[-1].reshape(-1)
    run.check('shape', T if g.shape[0] == 2 * D else F)
    g = g.reshape(D, 2)
    new = rows2(g.reshape(1, D, 2), 0, D)
    old = rows2(rules, 0, D)
    run.check('contains', contains(new, old, D))
    inb = lambda b, x: band(*[band(le(b[f][0], x[f]), le(x[f], b[f][1])) for f in range(D)])
    for j in range(N):
        run.check('rows[%d]' % j, bor(bnot(inb(new, data[j])), inb(old, data[j]), *[inb(rows2(others, i, D), data[j]) for i in range(R)]))
    for f in range(D):
        for e in (0, 1):
            run.check('bounds[%d,%d]' % (f, e), bor(*[tob(cmp('==', new[f][e], q)) for q in [old[f][e]] + [others[i, f, e] for i in range(R)]]))
    run.cover('grown', bor(*[bor(lt(new[f][0], old[f][0]), lt(old[f][1], new[f][1])) for f in range(D)]))


def check_local(run, F_, reg, ex, X, data, yd, y, down, up, S_bar, cf, sdp, w, pi, tag=''):
    """a reported list of rules of one row: untouched variables, probabilities, weights, level"""
    D, n = F_.D, data.shape[0]
    K = cf.shape[0]
    run.check(tag + 'sizes', T if K >= 1 and tuple(sdp.shape) == (K,) and tuple(w.shape) == (K, n) else F)
    pr = pred_of('cdp', not reg, y, list(yd), None, down, up)
    for k in range(K):
        for f in S_bar:
            run.check(tag + 'kept[%d,%d]' % (k, f), band(tob(cmp('==', cf[k, f, 0], X[f])), tob(cmp('==', cf[k, f, 1], X[f]))))
        mem, _, _ = projection(F_, X, data, tuple(S_bar), None, cf[k])
        run.check(tag + 'probability[%d]' % k, tob(cmp('==', sdp[k], frac_of(mem, pr, F_.B))))
        for j in range(n):
            run.check(tag + 'weight[%d,%d]' % (k, j), tob(cmp('==', w[k, j], weight_of(mem, j, F_.B))))
        if K > 1:
            run.check(tag + 'level[%d]' % k, tob(cmp('>=', sdp[k], pi)))


def local_class(run, reg, shapes, D, N, feats, thr, rep=REP, pi=Fraction(7, 10), acc=Fraction(3, 10), iters=0, stop=True, mixed=False):
    """the whole local computation of the user-facing class"""
    F_ = Forest(run, shapes, D, feats, thr)
    X = run.reals('x', 1, D)
    data = tile(run.reals('d', N, D), rep)
    yd = tile1(run.reals('yd', N) if reg else run.bits('yd', N), rep)
    y = run.reals('y', 1) if reg else run.bits('y', 1)
    down, up = run.reals('down', 1), run.reals('up', 1)
    if mixed:       # the first distinct row has the target output, the second has not
        yv = [Fraction(1), Fraction(0)]
        yd, y, down, up = tile1(mk1(yv, None), rep), mk1([Fraction(1)], None), mk1([Fraction(1, 2)], None), mk1([Fraction(1)], None)
    okrow = [band(le(down[0], v), le(v, up[0])) if reg else tob(cmp('==', v, y[0])) for v in yd]
    run.assume(bor(*okrow))         # some training row has the target output
    for v in list(X.reshape(-1)) + list(data.reshape(-1)):
        run.assume(band(lt(Fraction(-10 ** 9), v), lt(v, Fraction(10 ** 9))))
    ex = F_.explainer(0 if reg else 1)
    if reg:
        ex.a['model'].a['predict_quantiles'] = ConstRow([Fraction(0), Fraction(1)])
    cr = SObj(run.I.fn('acv_explainers.counterfactual_rules', 'CR'))
    cr.a.update(acv_explainer=ex, x_train=data, y_train=yd, model=None)
    kw = dict(down=down, up=up) if reg else {}
    run.call((cr, 'run_local_divergent_set'), X, y, stop=stop, pi_level=pi, **kw)
    run.call((cr, 'run_local_counterfactual_rules'), X, y, acc_level=acc, pi_level=pi, p_best=Fraction(1, 2), n_try=0, batch=1, max_iter=iters, max_iter_convergence=1, **kw)
    a = cr.a
    cfs, sdps, ws = a['counterfactuals_samples_local'], a['counterfactuals_samples_sdp_local'], a['counterfactuals_samples_w_local']
    run.check('one list per row', T if len(cfs) == len(sdps) == len(ws) == 1 else F)
    S, Sb = [[int(v) for v in a[q][0]] for q in ('S_star_local', 'S_bar_set_local')]
    run.check('split', T if sorted(S + Sb) == list(range(D)) else F)
    check_local(run, F_, reg, ex, X[0], data, yd, y[0], down[0], up[0], Sb, cfs[0], sdps[0], ws[0], pi)
    K = cfs[0].shape[0]
    run.cover('reached', bor(*[tob(cmp('>=', sdps[0][k], pi)) for k in range(K)]))
    if K > 1:
        run.cover('several', T)


def regional_class(run, reg, shapes, D, N, feats, thr, rep=REP, pi=Fraction(7, 10), acc=Fraction(3, 10), iters=0, stop=True, mixed=True):
    """the whole regional computation of the user-facing class, for any sufficient rule"""
    F_ = Forest(run, shapes, D, feats, thr)
    X = run.reals('x', 1, D)
    data = tile(run.reals('d', N, D), rep)
    yd, y, du = tile1(mk1([Fraction(1), Fraction(0)], None), rep), mk1([Fraction(1)], None), mkarr((1, 2), Fraction(1), 'f')
    du[0, 0] = Fraction(1, 2)
    rules = boxes(run, 'c', 1, D)
    for v in list(X.reshape(-1)) + list(data.reshape(-1)) + list(rules.reshape(-1)):
        run.assume(band(lt(Fraction(-10 ** 9), v), lt(v, Fraction(10 ** 9))))
    for f in range(D):      # the region contains the row
        run.assume(band(le(rules[0, f, 0], X[0, f]), le(X[0, f], rules[0, f, 1])))
    ex = F_.explainer(0 if reg else 1)
    if reg:
        ex.a['model'].a['predict_quantiles'] = ConstRow([Fraction(0), Fraction(1)])
    cr = SObj(run.I.fn('acv_explainers.counterfactual_rules', 'CR'))
    cr.a.update(acv_explainer=ex, x_train=data, y_train=yd, model=None, x_rules=X, y_rules=y, rules=rules)
    run.call((cr, 'run_regional_divergent_set'), y, **dict({'down_up': du} if reg else {}, stop=stop, pi_level=pi))
    run.call((cr, 'run_regional_counterfactual_rules'), acc_level=acc, pi_level=pi, p_best=Fraction(1, 2), n_try=0, batch=1, max_iter=iters, max_iter_convergence=1)
    a = cr.a
    cfs, sdps, ws = a['counterfactuals_samples_regional'], a['counterfactuals_samples_sdp_regional'], a['counterfactuals_samples_w_regional']
    run.check('one list per row', T if len(cfs) == len(sdps) == len(ws) == 1 else F)
    S, Sb = [[int(v) for v in a[q][0]] for q in ('S_star_regional', 'S_bar_set_regional')]
    run.check('split', T if sorted(S + Sb) == list(range(D)) else F)
    cf, sdp, w = cfs[0], sdps[0], ws[0]
    n, K = data.shape[0], cf.shape[0]
    run.check('sizes', T if K >= 1 and tuple(sdp.shape) == (K,) and tuple(w.shape) == (K, n) else F)
    pr = pred_of('cdp', not reg, y[0], list(yd), None, du[0, 0], du[0, 1])
    for k in range(K):
        for f in Sb:
            run.check('kept[%d,%d]' % (k, f), band(tob(cmp('==', cf[k, f, 0], rules[0, f, 0])), tob(cmp('==', cf[k, f, 1], rules[0, f, 1]))))
        mem, _, _ = projection(F_, X[0], data, (), None, cf[k])
        run.check('probability[%d]' % k, tob(cmp('==', sdp[k], frac_of(mem, pr, F_.B))))
        for j in range(n):
            run.check('weight[%d,%d]' % (k, j), tob(cmp('==', w[k, j], weight_of(mem, j, F_.B))))
        if K > 1:
            run.check('level[%d]' % k, tob(cmp('>=', sdp[k], pi)))
    run.cover('reached', bor(*[tob(cmp('>=', sdp[k], pi)) for k in range(K)]))


def compatible(run, reg, shapes, D, N, feats, thr, rep=REP, acc=Fraction(3, 5), pi=Fraction(9, 10), iters=0, weights=True, lab=(1, 0, 1)):
    """the candidate leaves: they hold training rows with the target output; accuracies; those accurate enough are kept, else the best one"""
    F_ = Forest(run, shapes, D, feats, thr)
    X = run.reals('x', 1, D)
    base = run.reals('d', N, D)
    data = tile(base, rep)
    lab = [Fraction(v) for v in lab]
    yd = tile1(mk1(lab[:N], None), rep)
    w = mk1([ite(q, Fraction(1), Fraction(0)) if weights else Fraction(1) for q in [run.boolean('w%d' % i) for i in range(N)] * rep], None)
    for v in list(X.reshape(-1)) + list(data.reshape(-1)):
        run.assume(band(lt(Fraction(-10 ** 9), v), lt(v, Fraction(10 ** 9))))
    ex = F_.explainer(0 if reg else 1)
    if reg:
        ex.a['model'].a['predict_quantiles'] = ConstRow([Fraction(0), Fraction(1)])
    kw = dict(pi=pi, acc_level=acc, p_best=Fraction(1, 2), n_try=0, batch=1, max_iter=iters, max_iter_convergence=1)
    args = (ex, X[0], Fraction(1)) + ((Fraction(1, 2), Fraction(1)) if reg else ()) + (list(range(D)), [], w, data, yd)
    suf, part, accs, best, bacc = run.call('acv_explainers.utils_cr:get_compatible_leaf' + ('_reg' if reg else ''), *args, **kw)
    K = len(part)
    inb = lambda b, x: band(*[band(le(b[f][0], x[f]), le(x[f], b[f][1])) for f in range(D)])
    leaf = [[[part[k, f, 0], part[k, f, 1]] for f in range(D)] for k in range(K)]
    run.check('sizes', T if len(accs) == K and K >= 1 and 1 <= len(suf) <= K else F)
    ok = []
    for k in range(K):
        ins = [inb(leaf[k], data[j]) for j in range(N)]
        good = ssum([b2u(g) for g, c in zip(ins, lab) if c == 1])
        run.check('target[%d]' % k, tob(cmp('>', good, 0)))
        run.check('accuracy[%d]' % k, tob(cmp('==', arith('*', accs[k], ssum([b2u(g) for g in ins])), good)))
        ok.append(tob(cmp('>=', accs[k], acc)))
        run.check('best[%d]' % k, tob(cmp('>=', bacc, accs[k])))
    none = bnot(bor(*ok))
    sufl = [[[s[f, 0], s[f, 1]] for f in range(D)] for s in suf]
    for s in sufl:
        run.check('sufficient', bor(*[band(same_box(s, leaf[k], D), bor(ok[k], band(none, tob(cmp('==', accs[k], bacc))))) for k in range(K)]))
    for k in range(K):
        run.check('kept[%d]' % k, bor(bnot(ok[k]), *[same_box(s, leaf[k], D) for s in sufl]))
    # every training row of the target output with a weight lies in one of the leaves
    some = bor(*[tob(cmp('>', w[j], 0)) for j in range(N) if lab[j] == 1])
    run.cover('none', none)
    run.cover('several', T if K > 1 else F)
    run.cover('accurate', bor(*ok))


def harnesses(tier):
    out = []
    th = tier == 'thorough'
    for fn, local, reg in (('return_counterfactuals', 1, 0), ('return_counterfactuals_reg', 1, 1), ('return_ge_counterfactuals', 0, 0), ('return_ge_counterfactuals_reg', 0, 1)):
        for nm, shapes, D, N, S, L in (('stump', ['stump'], 2, 2, [0], 2), ('two', ['stump', 'stump'], 2, 2, [1], 2), ('deep', ['left2'], 3, 2, [2, 0], 2), ('all', ['left2'], 2, 2, [1, 0], 2), ('three', ['stump'], 2, 2, [1], 3)):
            out.append(H('%s-%s' % (fn, nm), counterfactuals, samples=2, cost=4, meth=fn, local=local, reg=reg, shapes=shapes, D=D, N=N + th, S_star=S, L=L, safety=('oob', 'oobw', 'uninit'), timeout_ms=60000,
                         expect_cover=False, bounds='%s, %d variables, changed set %s, %d distinct background rows (each %d times), %d candidate leaves' % (shapes, D, S, N + th, REP, L)))
    for R, D in ((2, 1), (2, 2), (3, 1)) + (((3, 2), (4, 1)) if th else ()):
        for ws in (True, False):
            out.append(H('prune-%d-%d%s' % (R, D, '' if ws else '-leaf'), prune, samples=4, R=R, D=D, withsdp=ws, safety=(), timeout_ms=60000, bounds='%d rules over %d variables' % (R, D)))
    for reg in (0, 1):
        k = 'reg' if reg else 'clf'
        out.append(H('local-%s' % k, local_class, samples=2, cost=7, reg=reg, shapes=['stump'], D=2, N=2, feats=[[0]], thr=[[0]], safety=(), timeout_ms=60000, expect_cover=False, mixed=not th,
                     bounds='1 stump at threshold 0, 2 variables, 2 distinct background rows (each %d times)%s, first candidate' % (REP, '' if th else ', one with the target output')))
        if th or not reg:
            out.append(H('regional-%s' % k, regional_class, samples=2, cost=7, reg=reg, shapes=['stump'], D=2, N=2, feats=[[0]], thr=[[0]], safety=(), timeout_ms=60000, expect_cover=False,
                         bounds='1 stump at threshold 0, 2 variables, any region with the row, 2 distinct background rows (each %d times), one with the target output, first candidate' % REP))
        for nm, lab in (('leaves', (1, 0)), ('leaves1', (1, 1))) + ((('leaves3', (1, 0, 1)),) if th else ()):
            out.append(H('%s-%s' % (nm, k), compatible, samples=2, cost=7, reg=reg, shapes=['stump'], D=1, N=len(lab), feats=[[0]], thr=[[0]], safety=(), timeout_ms=60000, expect_cover=False, weights=False, pi=Fraction(2, 5), lab=lab,
                         bounds='1 stump at threshold 0, 1 variable, %d distinct background rows (each %d times) with outputs %s, first candidate' % (len(lab), REP, lab)))
        if th:
            out.append(H('leaves2-%s' % k, compatible, samples=2, cost=7, reg=reg, shapes=['stump', 'stump'], D=1, N=2, lab=(1, 0), feats=[[0], [0]], thr=[[0], [1]], safety=(), timeout_ms=60000, expect_cover=False,
                         bounds='2 stumps at thresholds 0 and 1, 1 variable, 2 distinct background rows (each %d times), one with the target output, first candidate' % REP))
    out.append(H('grown-1', grown, samples=2, cost=5, D=1, N=2, R=1, safety=(), timeout_ms=60000, bounds='1 variable, 1 candidate leaf, 2 rows, 1 iteration, every random choice'))
    out.append(H('grown-first', grown, samples=2, cost=5, D=2, N=1, R=1, iters=0, safety=(), timeout_ms=60000, bounds='2 variables, 1 candidate leaf, 1 row, first candidate, every random choice'))
    return out
