"""Runs a harness over every fork path, discharges its obligations with z3, extracts counterexamples."""
from fractions import Fraction
import os, sys, time, json, hashlib, traceback
import z3
from .terms import *
from .ctx import *
from . import terms as TM
from .interp import Interp, PyExc, SObj, CVec, Cls, ctype, Closure
from . import replay as RP


class Inconclusive(Exception):
    pass


class Ob:
    """an obligation: `prop` must hold under the harness assumptions"""
    def __init__(self, label, prop, margin=None, info=None):
        self.label, self.prop, self.margin, self.info = label, prop, margin, info


class Run:
    """one harness execution context: symbolic inputs are registered here so that a model becomes a concrete input"""
    def __init__(self, c, I):
        self.c, self.I = c, I
        self.vars = {}
        self.obs = []
        self.covers = []
        self.calls = []
        self.hist = {}           # id of an object built by the code under test -> the calls made on it so far

    # ---- symbolic inputs
    def real(self, name):
        v = R.var(name)
        self.vars[name] = ('r', v)
        return v

    def boolean(self, name):
        v = bvar(name)
        self.vars[name] = ('b', v)
        return v

    def choice(self, name, vals):
        """a value out of a finite list"""
        vals = list(vals)
        if len(vals) == 1:
            return vals[0]
        n = len(vals)
        bits = [bvar('%s?%d' % (name, i)) for i in range(n - 1)]
        alts, rest = [], T
        for i in range(n - 1):
            alts.append((vals[i], band(rest, bits[i])))
            rest = band(rest, bnot(bits[i]))
        alts.append((vals[-1], rest))
        u = mkU(alts)
        self.vars[name] = ('u', u)
        return u

    def split(self, cond):
        """case distinction: the run continues once for every feasible truth value"""
        return self.c.decide(truth(cond))

    def pick(self, name, vals):
        """a value out of a finite list, one path per value"""
        u = self.choice(name, vals)
        vals = list(vals)
        for v in vals[:-1]:
            if self.split(cmp('==', u, v)):
                return v
        return vals[-1]

    def reals(self, name, *shape):
        a = mkarr(shape, Fraction(0), 'f')
        for ix in np.ndindex(*shape):
            a[ix] = self.real('%s[%s]' % (name, ','.join(map(str, ix))))
        return a

    def bits(self, name, *shape):
        """array of 0/1 doubles"""
        a = mkarr(shape, Fraction(0), 'f')
        for ix in np.ndindex(*shape):
            a[ix] = self.choice('%s[%s]' % (name, ','.join(map(str, ix))), [Fraction(0), Fraction(1)])
        return a

    def assume(self, p):
        if p is T:
            return
        self.c.assumptions.append(p)

    # ---- calls of the code under test (recorded for replay and for differential validation)
    def call(self, path, *args, **kw):
        """path: 'module:function' or (SObj, 'method')"""
        I = self.I
        if isinstance(path, tuple):
            f = I.getattr(path[0], path[1])
            h = self.hist.get(id(path[0]))
            rp = ('@hist', list(h[1]), path[1]) if h else (snap(path[0]), path[1])
        else:
            mod, fn = path.split(':')
            f = I.module(mod)
            for part in fn.split('.'):
                f = I.getattr(f, part)
            rp = path
        dts = arg_dts(f, len(args))
        rec = [rp, [snap(a) for a in args], {k: snap(v) for k, v in kw.items()}, None, dts]
        self.calls.append(rec)
        self.c.fnset_call = None
        n0 = self.c.nrand
        out = I.call(f, list(args), dict(kw))
        rec[3] = snap(out)
        rec.append(self.c.nrand > n0)
        if isinstance(f, Cls):
            self.hist[id(out)] = (out, [rec])
        elif isinstance(path, tuple) and h:
            h[1].append(rec)
        return out

    def effects(self, path, *args, **kw):
        """the call made twice on the same objects: (first answer, second answer, first answer as it looks afterwards, arguments afterwards, keyword
        arguments afterwards, arrays of the object afterwards), and the arguments and arrays as they were before"""
        I = self.I
        if isinstance(path, tuple):
            f = I.getattr(path[0], path[1])
            rp = (snap(path[0]), path[1])
            attrs = {k: v for k, v in path[0].a.items() if isinstance(v, (np.ndarray, list)) and not k.startswith('#')}
        else:
            f = I.module(path.split(':')[0])
            for part in path.split(':')[1].split('.'):
                f = I.getattr(f, part)
            rp, attrs = path, {}
        before = [snap(a) for a in args], {k: snap(v) for k, v in kw.items()}, {k: snap(v) for k, v in attrs.items()}
        rec = [('@effects', rp, sorted(attrs)), before[0], before[1], None, arg_dts(f, len(args))]
        self.calls.append(rec)
        self.c.fnset_call = None
        n0 = self.c.nrand
        out = I.call(f, list(args), dict(kw))
        first = snap(out)
        again = I.call(f, list(args), dict(kw))
        now = {k: path[0].a.get(k) for k in attrs}
        after = (first, snap(again), snap(out), [snap(a) for a in args], {k: snap(v) for k, v in kw.items()}, {k: snap(v) for k, v in now.items()})
        rec[3] = after
        rec.append(self.c.nrand > n0)
        return after, before

    def track(self, o):
        """from now on the calls on this object are replayed as one history starting in its current state"""
        self.hist[id(o)] = (o, [['@init', [], {}, None, [], snap(o)]])
        return o

    # ---- obligations
    def check(self, label, prop, margin=None, info=None):
        if isinstance(prop, bool):
            prop = T if prop else F
        self.obs.append(Ob(label, prop, margin, info))

    def eq(self, label, a, b, info=None, tol=Fraction(1, 1000)):
        """a == b (reals); the margin form asks for a visible difference"""
        if isinstance(a, float) or isinstance(b, float):
            self.check(label, T if (a == b) else F, None, info)
            return
        p = tob(cmp('==', a, b))
        m = None
        if p is not T and isinstance(p, B):
            try:
                d = arith('-', a, b)
                m = band(tob(cmp('<', d, tol)), tob(cmp('>', d, -tol)))
            except Exception:
                m = None
        self.check(label, p, m, info)

    def cover(self, label, p):
        self.covers.append((label, p))


class Result:
    def __init__(self, name):
        self.name = name
        self.cex = []            # counterexamples: dicts
        self.inconclusive = []
        self.paths = 0
        self.obligations = 0
        self.trivial = 0
        self.queries = 0
        self.solver_s = 0.0
        self.fns = set()
        self.covers = {}
        self.events = {}
        self.wall = 0.0
        self.forks = 0
        self.races = 0
        self.calls = 0
        self.merges = 0


def snap(v):
    """copy of the mutable structure (symbolic leaves are immutable)"""
    if isinstance(v, SArr):
        r = v.copy()
        r.k, r.cdt = v.k, v.cdt
        if v.k == 'o':
            f = r.reshape(-1)
            for i in range(f.size):
                f[i] = snap(f[i])
        return r
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, list):
        return [snap(x) for x in v]
    if isinstance(v, tuple):
        return tuple(snap(x) for x in v)
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, SObj):
        o = SObj(v._c)
        o.a.update({k: snap(x) for k, x in v.a.items()})
        return o
    if isinstance(v, CVec):
        return CVec(v.st, v.ct)
    return v


def arg_dts(f, n):
    """C element types of the arguments of a cython function"""
    node = getattr(f, 'node', None)
    if node is None or type(node).__name__ != 'CFuncDefNode':
        return [None] * n
    d = node.declarator
    while type(d).__name__ != 'CFuncDeclaratorNode':
        d = d.base
    out = []
    for a in d.args:
        try:
            ct = ctype(a.base_type)
        except Unsupported:
            ct = None
        out.append(ct.elem.name if ct is not None and ct.k == 'mv' and ct.elem is not None else 'vec' if ct is not None and ct.k == 'vec' else None)
    return (out + [None] * n)[:n]


class ZM:
    """a z3 model as a mapping from variable name to value"""
    def __init__(self, m):
        self.m, self.d = m, {}

    def __getitem__(self, n):
        v = self.d.get(n)
        if v is None:
            if n in TM._zv:
                q = self.m.eval(zreal(n), model_completion=True)
                if z3.is_algebraic_value(q):
                    q = q.approx(20)
                v = Fraction(q.numerator_as_long(), q.denominator_as_long())
            else:
                v = z3.is_true(self.m.eval(z3.Bool(n), model_completion=True))
            self.d[n] = v
        return v


def model_vals(m, vars_):
    out = {}
    memo = {}
    for n, (k, v) in vars_.items():
        out[n] = m[n] if k in 'rb' else evV(v, m, memo)
    return out


def nice_model(c, run, neg, m, margin=None):
    """prefer a counterexample with small integer inputs and a visible difference, so that it replays in doubles"""
    rs = [zreal(n) for n, (k, v) in run.vars.items() if k == 'r' and n in TM._zv]
    ints = [z3.IsInt(v) for v in rs] + [z3.And(v >= -60, v <= 60) for v in rs]
    box = [z3.And(v >= -1000, v <= 1000) for v in rs]
    tries = []
    if margin is not None and margin is not T and margin is not F:
        tries += [[bnot(margin)] + ints, [bnot(margin)] + box]
    tries += [[neg] + ints, [neg] + box]
    for t in tries:
        r, m2 = c.check(t, model=True, timeout=10000)
        if r == z3.sat:
            return ZM(m2)
    return ZM(m)


SAFETY = ('oob', 'oobw', 'div0', 'uninit', 'indexerror', 'nan_mean')


def run_harness(name, body, overrides=None, shims=None, timeout_ms=60000, safety=('oob', 'oobw', 'uninit'), max_paths=4000,
                deadline=None, max_cex=1, want_races=False, prune=False, ignore_events=(), unwind=64, batch=True, lazydiv=None, cap=96):
    """body(run) executes the real code symbolically through run.I and registers obligations on run.
    Every fork path is explored; returns a Result."""
    res = Result(name)
    t00 = time.time()
    pend = [[]]
    forkat = set()
    restart = 0
    reset_terms()
    while pend:
        if deadline is not None and time.time() > deadline:
            res.inconclusive.append('deadline reached with %d paths pending' % len(pend))
            break
        if res.paths > max_paths:
            res.inconclusive.append('more than %d paths' % max_paths)
            break
        prefix = pend.pop()
        reset_terms()              # every path starts from the same term table, so prefixes replay exactly
        c = Ctx(timeout_ms=timeout_ms, prune=prune)
        c.prefix = list(prefix)
        c.lazydiv = lazydiv
        TM.CAP[0] = cap
        c.forkat = forkat
        c.max_unwind = unwind
        c.races = []
        c.nrand = 0
        I = Interp(c, overrides=overrides, shims=shims)
        run = Run(c, I)
        c.run = run
        CTX[0] = c
        nfork = len(forkat)
        try:
            body(run)
        except (Restart, NeedFork) as e:
            if isinstance(e, NeedFork) or len(forkat) == nfork:
                res.inconclusive.append('cannot merge at %s (%r)' % (c.where, e))
                break
            restart += 1
            if restart > 400:
                res.inconclusive.append('too many restarts')
                break
            # restart the whole exploration with one more forking site
            pend = [[]]
            res.__init__(name)
            reset_terms()
            continue
        except Unsupported as e:
            res.inconclusive.append('not encodable: %s (at %s)' % (e, c.where))
            if os.environ.get('VERIF_TB'):
                traceback.print_exc()
            break
        except PyExc as e:
            # an exception escaping the harness: a violation candidate unless the path is infeasible
            r, m = c.check([], model=True)
            if r == z3.sat:
                res.cex.append(mkcex('exception:%r' % (e.exc,), nice_model(c, run, z3.BoolVal(True), m), run, c, None, str(e.where or c.where)))
                if os.environ.get('VERIF_TB'):
                    traceback.print_exc()
                if len(res.cex) >= max_cex:
                    break
            elif r == z3.unknown:
                res.inconclusive.append('unknown on exception path')
        pend.extend(c.pending)
        res.paths += 1
        res.fns |= c.fnset
        res.calls += c.stats['calls']
        res.merges += c.stats['merges']
        res.forks += c.stats['forks']
        _discharge(c, run, res, safety, ignore_events, max_cex, want_races, batch)
        res.queries += c.stats['queries']
        res.solver_s += c.stats['solver_s']
        if len(res.cex) >= max_cex:
            break
    res.wall = time.time() - t00
    res.restarts = restart
    return res


def jsonable(v):
    if isinstance(v, Fraction):
        return float(v) if v.denominator != 1 else int(v)
    if isinstance(v, (tuple, list)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    return v if isinstance(v, (int, float, bool, str)) or v is None else repr(v)


def mkcex(label, m, run, c, info=None, where=''):
    memo = {}
    d = dict(label=label, vals={k: jsonable(v) for k, v in model_vals(m, run.vars).items()}, info=jsonable(info) if info is not None else None,
             where=where, specs=[], outs=[], fns=sorted(c.fnset), err=None)
    try:
        for rec in run.calls:
            if rec[3] is None and not label.startswith('exception'):
                pass
            s, o = RP.call_spec(rec, m, memo)
            d['specs'].append(s)
            d['outs'].append(o)
    except Unsupported as e:
        d['err'] = str(e)
    return d


def samples(run, c, n, rng):
    """concrete models of the harness assumptions, spread by fixing random inputs"""
    out = []
    names = [(k, v) for k, v in run.vars.items()]
    for s_ in range(n):
        s = z3.Solver()
        s.set('timeout', 20000)
        for a in c._zassume():
            s.add(a)
        for b, v in c.taken:
            s.add(zB(b) if v else z3.Not(zB(b)))
        fixes = []
        for k, (kind, v) in rng.sample(names, len(names)):
            if kind == 'r':
                # integers and half-integers are exact in doubles
                fixes.append(zreal(k) == z3.RealVal('%d/2' % rng.randint(-6, 10)))
            elif kind == 'b':
                fixes.append(zB(v) if rng.random() < .5 else z3.Not(zB(v)))
            elif isinstance(v, U):
                fixes.append(zB(v.alts[rng.randrange(len(v.alts))][1]))

        t0 = time.time()

        def pin(fs, exact):
            # as many of the pins as are consistent with the assumptions, whole blocks first
            if not fs or time.time() - t0 > 30:
                return
            s.push()
            s.add(*fs)
            r = c.refine(s, 5000) if exact else s.check()
            s.pop()
            if r == z3.sat:
                s.add(*fs)
            elif len(fs) > 1:
                pin(fs[:len(fs) // 2], exact)
                pin(fs[len(fs) // 2:], exact)
        s.set('timeout', 5000)
        s.push()
        pin(fixes, False)          # quotients left open: cheap, and with every input pinned they are determined
        if c.refine(s, 5000) == z3.sat:
            out.append(ZM(s.model()))
            continue
        s.pop()
        if c.qz:
            pin(fixes, True)
            if c.refine(s, 5000) == z3.sat:
                out.append(ZM(s.model()))
    return out


def _discharge(c, run, res, safety, ignore, max_cex, want_races, batch):
    # base feasibility (vacuity witness)
    r = c.check([], timeout=5000)
    if r == z3.unknown and samples(run, c, 1, __import__('random').Random(1)):
        r = z3.sat
    if r == z3.unsat:
        res.covers.setdefault('path', 0)
        return
    if r == z3.unknown:      # its obligations are still decided; only the witness that the path exists is missing
        res.covers.setdefault('path', 0)
        res.covers['path_unknown'] = res.covers.get('path_unknown', 0) + 1
    else:
        res.covers['path'] = res.covers.get('path', 0) + 1
    for lab, p in run.covers:
        if res.covers.get(lab):
            continue
        if p is F:
            res.covers.setdefault(lab, 0)
            continue
        r = c.check([p] if p is not T else [])
        res.covers[lab] = res.covers.get(lab, 0) + (1 if r == z3.sat else 0)
    todo = []
    byk = {}
    for e in c.events:
        k = e.kind.split(':')[0]
        res.events[k] = res.events.get(k, 0) + 1
        if k == 'unwind':
            byk.setdefault((e.kind, str(e.where)), []).append(e.guard)
        elif k in safety and (k, str(e.where)) not in ignore and e.kind not in ignore:
            byk.setdefault((e.kind, str(e.where)), []).append(e.guard)
    for (k, w), gs in byk.items():
        todo.append(Ob('event:%s@%s' % (k, w), bnot(bor(*gs))))
    if want_races:
        for rc in getattr(c, 'races', []):
            todo.append(Ob('race:%s' % (rc[0],), bnot(rc[1])))
            res.races += 1
    for o in todo + run.obs:
        res.obligations += 1
    live = [o for o in todo + run.obs if o.prop is not T]
    res.trivial += len(todo) + len(run.obs) - len(live)
    def neg_of(p):
        return bnot(p) if isinstance(p, B) else z3.Not(p)
    if not live:
        return
    if batch:
        # one query for all of them; split only if it is not unsat
        allp = [zB(o.prop) if isinstance(o.prop, B) else o.prop for o in live]
        q = [z3.Not(z3.And(*allp))]
        r = c.check(q, timeout=QUICK)
        if r == z3.unsat:
            return
        if guided(c, run, res, live, max_cex, r == z3.unknown):
            return
        if r == z3.unknown and len(live) > 1 and c.check(q) == z3.unsat:
            return
    for o in live:
        neg = neg_of(o.prop)
        r, m = c.check([neg], model=True)
        if r == z3.unsat:
            continue
        if r == z3.unknown:
            res.inconclusive.append('unknown: %s' % o.label)
            continue
        if o.label.startswith('event:unwind'):
            res.inconclusive.append('unwinding bound reached: %s' % o.label)
            continue
        m = nice_model(c, run, neg, m, o.margin)
        memo = {}
        res.cex.append(mkcex(o.label, m, run, c, o.info))
        if len(res.cex) >= max_cex:
            return


QUICK = 15000


def guided(c, run, res, live, max_cex, hard):
    """a violation is known or the query is hard: models of the harness assumptions with many inputs pinned, in which an obligation is false.
    Only an accelerator for finding counterexamples; the absence of one is always decided by the unrestricted query."""
    import random
    todo = [o for o in live if isinstance(o.prop, B) and not o.label.startswith('event:unwind')]
    if not todo or any(o.label.startswith('event:unwind') for o in live):
        return False
    rng = random.Random('guided|%d' % len(live))
    t0 = time.time()
    for k in range(8 if hard else 3):
        if time.time() - t0 > 40:
            break
        ms = samples(run, c, 1, rng)
        if not ms:
            break
        memo = {}
        for o in todo:
            try:
                v = evV(o.prop, ms[0], memo)
            except Unsupported:
                continue
            if v is False or v is F:
                if isinstance(o.margin, B) and evV(o.margin, ms[0], memo) in (True, T):
                    continue
                res.cex.append(mkcex(o.label, ms[0], run, c, o.info))
                if len(res.cex) >= max_cex:
                    return True
    return False
