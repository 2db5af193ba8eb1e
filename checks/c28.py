"""Asking for an explanation leaves everything that was passed in, the fitted arrays and earlier answers as they are, and asking again gives the same answer."""
import importlib, re
from fractions import Fraction
import numpy as np
from engine.check import H
from engine.driver import *
from engine.interp import SObj
from checks.lib_forest import tob

ASSUMPTIONS = ['exact real arithmetic instead of doubles; inputs finite', 'the assumptions of the check whose question is asked twice']

# module -> harnesses (the smallest ones of every method) whose calls are made twice
USED = {
    'c02': r'(x2|normalized.*stumps)$',
    'c03': r'shap_values(_cache)?(_nopa)?-pair$',
    'c05': r'(-6coal|-x2|adap(_nopa)?-2coal)$',
    'c06': r'(-0full2|-2two)$',
    'c07': r'(clf.*-full2|reg.*-left2)$',
    'c08': r'((clf|search|ptrees|reg)-coal|nopa-all|reg_cat-all)$',
    'c09': r'(-clf-d3|-reg-d3|-reg-x2|tree-.*-two)$',
    'c10': r'(one-clf|one-reg)$',
    'c11': r'(-coals?|-x2|tree-clf)$',
    'c12': r'(rf-coal|rf-x2|tree-clf)$',
    'c15': r'(predict-clf|proba|predict-reg)$',
    'c17': r'(exp-agn-two.*|exp-tree-two.*|cdf.*-x2|(quantile|shaff).*-x2)$',
    'c22': r'(-stump|-two)$',
}


def scalar(v):
    return isinstance(v, (B, R, int, Fraction, float, bool)) or isinstance(v, U) and all(isinstance(x, (int, Fraction, bool, R)) for x, g in v.alts)


def same(run, label, a, b, g=T):
    """the two values are equal, cell by cell (where g holds)"""
    def bad(what):
        run.check('%s%s' % (label, what), bnot(g))
    if g is F:
        return
    if a is b:
        return run.check(label, True)
    if isinstance(a, U) and not scalar(a):
        for x, h in a.alts:
            same(run, label, x, b, band(g, h))
        return
    if isinstance(b, U) and not scalar(b):
        for x, h in b.alts:
            same(run, label, a, x, band(g, h))
        return
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return bad(': shape')
        for ix in np.ndindex(*a.shape):
            same(run, '%s%s' % (label, list(ix)), a[ix], b[ix], g)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return bad(': length')
        for i, (x, y) in enumerate(zip(a, b)):
            same(run, '%s[%d]' % (label, i), x, y, g)
    elif isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return bad(': keys')
        for k in a:
            same(run, '%s[%r]' % (label, k), a[k], b[k], g)
    elif scalar(a) and scalar(b):
        if isinstance(a, float) or isinstance(b, float):
            if not (isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b))):
                p = tob(cmp('==', a, b))
                run.check(label, bor(bnot(g), p))
        elif g is T:
            run.eq(label, a, b)
        else:
            p = tob(cmp('==', a, b))
            run.check(label, bor(bnot(g), p))
    elif type(a) is not type(b) or isinstance(a, str) and a != b:
        bad(': kind')


class Twice:
    """the harness of another check whose questions are asked twice; its own assertions are left to that check"""
    def __init__(self, run):
        self.__dict__['run'] = run

    def __getattr__(self, k):
        return getattr(self.run, k)

    def __setattr__(self, k, v):
        setattr(self.run, k, v)

    def check(self, *a, **k):
        pass

    eq = cover = check

    def call(self, path, *args, **kw):
        run = self.run
        (first, again, later, args1, kw1, attrs1), (args0, kw0, attrs0) = run.effects(path, *args, **kw)
        same(run, 'second answer', again, first)
        same(run, 'first answer afterwards', later, first)
        for i, (a, b) in enumerate(zip(args0, args1)):
            same(run, 'argument %d' % i, b, a)
        for k in kw0:
            same(run, 'argument %s' % k, kw1[k], kw0[k])
        for k in attrs0:
            same(run, 'fitted %s' % k, attrs1[k], attrs0[k])
        return later


def twice(run, fn, kws):
    fn(Twice(run), **kws)


def harnesses(tier):
    hs = []
    for m, pat in USED.items():
        for h in importlib.import_module('checks.' + m).harnesses('quick'):
            if (tier == 'thorough' and not h.external and 'annealing' not in h.name) or re.search(pat, h.name):
                if h.external:
                    continue
                q = H('%s-%s' % (m, h.name), twice, samples=1, cost=h.cost, bounds='calls made twice: ' + str(h.bounds), expect_cover=False)
                for k in ('max_paths', 'overrides', 'timeout_ms', 'lazydiv', 'cap', 'unwind', 'races', 'safety', 'ignore'):
                    setattr(q, k, getattr(h, k))
                q.safety, q.races = (), False
                q.kw = dict(fn=h.fn, kws=h.kw)
                hs.append(q)
    return hs
