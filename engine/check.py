"""Check runner: symbolic harnesses -> solver verdicts -> replay -> evidence."""
import importlib, json, os, random, sys, time, traceback, threading
import multiprocessing as mp
import multiprocessing.connection as mpc
import pickle, resource

sys.set_int_max_str_digits(0)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
MEM = int(os.environ.get('VERIF_MEM', str(12 << 30)))
NPROC = int(os.environ.get('VERIF_NPROC', '8'))


class H:
    """a harness: fn(run, **kw) in checks module `mod`"""
    def __init__(self, name, fn, safety=(), samples=0, cover=(), timeout_ms=60000, max_paths=3000, bounds='', expect_cover=True, ignore=(),
                 races=False, overrides=None, max_cex=1, cost=1, unwind=64, validate=True, lazydiv=None, cap=96, external=False, **kw):
        self.__dict__.update(locals())
        del self.__dict__['self']


def _work(modname, tier, idx, budget):
    from . import driver as D
    sys.setrecursionlimit(100000)
    t0 = time.time()
    mod = importlib.import_module(modname)
    h = mod.harnesses(tier)[idx]
    if h.external:
        return h.fn(h, idx, **h.kw)
    rng = random.Random('%s|%s|%d' % (modname, h.name, SEED))
    samples = []
    st = {'n': 0}

    def body(run):
        h.fn(run, **h.kw)
        if h.samples and not samples and h.validate and run.calls and st['n'] < 12:
            st['n'] += 1
            from . import replay as RP
            for m in D.samples(run, run.c, h.samples, rng):
                memo = {}
                for rec in run.calls:
                    try:
                        samples.append(RP.call_spec(rec, m, memo))
                    except D.Unsupported as e:
                        samples.append(None)
    ov = h.overrides(h.kw) if callable(h.overrides) else h.overrides
    try:
        r = D.run_harness(h.name, body, overrides=ov, timeout_ms=h.timeout_ms, safety=h.safety, max_paths=h.max_paths, deadline=t0 + budget,
                          max_cex=h.max_cex, want_races=h.races, ignore_events=h.ignore, unwind=h.unwind, lazydiv=h.lazydiv, cap=h.cap)
    except Exception as e:
        return dict(name=h.name, idx=idx, error=traceback.format_exc()[-3000:], wall=time.time() - t0)
    d = {k: v for k, v in r.__dict__.items() if k != 'fns'}
    d.update(idx=idx, fns=sorted(r.fns), samples=[s for s in samples if s], nsamp=len([s for s in samples if s]), bounds=h.bounds, error=None,
             expect_cover=h.expect_cover)
    return d


def known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: ') and 'property=%s ' % prop in ln:
                d = dict(tok.split('=', 1) for tok in ln[7:].split(' -- ')[0].split() if '=' in tok)
                d['text'] = ln.split(' -- ', 1)[1] if ' -- ' in ln else ln
                out.append(d)
    return out


def _child(modname, tier, i, budget, w):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        r = _work(modname, tier, i, budget)
    except BaseException:
        r = traceback.format_exc()[-2000:]
    try:
        w.send_bytes(pickle.dumps(r))
    except BaseException:
        w.send_bytes(pickle.dumps('unsendable result: ' + traceback.format_exc()[-1000:]))
    w.close()
    os._exit(0)


def fork_all(modname, tier, order, n, t0, budget):
    """every harness in its own forked process (same start state, so a run is reproducible); yields (index, result or error text)"""
    ctx = mp.get_context('fork')
    todo, live = list(order), {}
    while todo or live:
        while todo and len(live) < n:
            i = todo.pop(0)
            left = budget - (time.time() - t0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_thread, args=(modname, tier, i, left, w))
            p.start()
            w.close()
            live[r] = (i, p, time.time() + left + 60)
        for r in mpc.wait(list(live), 1):
            i, p, _ = live.pop(r)
            try:
                out = pickle.loads(r.recv_bytes())
            except EOFError:
                out = 'worker died'
            p.join(5)
            r.close()
            yield i, out
        for r in list(live):
            i, p, dl = live[r]
            if time.time() > dl:
                p.kill()
                live.pop(r)
                yield i, 'time budget used up'


def _thread(*a):
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=_child, args=a)
    t.start()
    t.join()


def main(prop, tier):
    t0 = time.time()
    modname = 'checks.' + prop.lower()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(modname)
    hs = mod.harnesses(tier)
    budget = float(os.environ.get('VERIF_BUDGET', '420' if tier == 'quick' else '650'))
    order = sorted(range(len(hs)), key=lambda i: -hs[i].cost)
    from . import front
    from .interp import _parsed
    for n in front.PATHS:          # parse once; the forked workers share it
        try:
            _parsed(n)
        except Exception as e:
            print('cannot parse %s: %s' % (n, str(e)[:300]))
    results = []
    for i, r in fork_all(modname, tier, order, max(1, min(NPROC, len(hs))), t0, budget):
        if isinstance(r, str):
            r = dict(name=hs[i].name, idx=i, error=r, wall=0)
        results.append(r)
        if os.environ.get('VERIF_V'):
            print('  %-40s %s' % (r['name'], r['error'] or 'paths=%d ob=%d triv=%d q=%d solver=%.1fs wall=%.1fs cov=%s ev=%s inc=%s cex=%s' % (
                r['paths'], r['obligations'], r['trivial'], r['queries'], r['solver_s'], r['wall'], r['covers'], r['events'],
                r['inconclusive'][:2], [(c['label'], c['where']) for c in r['cex']])), flush=True)
    results.sort(key=lambda r: r['idx'])
    return finish(prop, tier, mod, hs, results, t0)


def finish(prop, tier, mod, hs, results, t0):
    from . import replay as RP
    problems, violations, knowns = [], [], []
    specs, owners, fns = [], [], set()
    for r in results:
        if r['error']:
            problems.append('%s: %s' % (r['name'], r['error']))
            continue
        for x in r['inconclusive']:
            problems.append('%s: %s' % (r['name'], x))
        if r['expect_cover'] and not r['cex']:
            for k, v in r['covers'].items():
                if not v:
                    problems.append('%s: vacuous: cover point %s not reachable' % (r['name'], k))
            if not r['covers']:
                problems.append('%s: vacuous: no feasible path' % r['name'])
    # replay of counterexamples; one build of the real code serves them all
    cexs = [(r, c) for r in results for c in (r.get('cex') or [])]
    exts = Exts(cexs)
    tp = time.time()
    skipped = 0
    for r, c in cexs:
            if violations and (len(violations) >= 8 or time.time() - tp > 200):
                skipped += 1
                continue
            ok, text, data = confirm(mod, r, c, exts)
            if ok:
                kf = [k for k in known(prop) if k.get('harness') == r['name'] and (k.get('label') in (None, c['label']))]
                path = save_replay(prop, r, c, text, data)
                if kf:
                    knowns.append((kf[0], c))
                else:
                    violations.append((r, c, path, text))
            else:
                problems.append('%s: counterexample for %s not reproduced on the real code: %s' % (r['name'], c['label'], text))
    exts.close()
    if skipped:
        print('%d further counterexamples were not replayed' % skipped)
    # differential validation of the encoding
    validated, mism = 0, []
    allspecs, allouts, vf = [], [], set()
    for r in results:
        if r['error'] or violations:
            continue
        for s, o in r['samples']:
            allspecs.append(s)
            allouts.append((r['name'], o))
            vf |= set(r['fns'])
    if allspecs:
        try:
            outs, err, _ = RP.run_calls(allspecs, entry_fns(vf, allspecs))
        except Exception as e:
            outs, err = None, repr(e)
        if outs is None:
            problems.append('differential validation could not run: %s' % err)
        else:
            for s, (nm, o), q in zip(allspecs, allouts, outs):
                if not q['ok']:
                    mism.append('%s: real %s raised %s %s' % (nm, s['fn'], q['exc'], q['msg']))
                elif not RP.close(o, q['out']):
                    mism.append('%s: %s: encoding %s real %s args %s' % (nm, s['fn'], str(o)[:300], str(q['out'])[:300], json.dumps(s['args'])[:700]))
                else:
                    validated += 1
    for x in mism[:3]:
        problems.append('encoding disagrees with the real code: ' + x)
    wall = time.time() - t0
    cov = dict(
        states=sum(r.get('paths', 0) + r.get('merges', 0) for r in results),
        transitions=sum(r.get('steps', 0) or r.get('calls', 0) for r in results),
        traces_validated_against_impl=validated,
        samples=[dict(harness=r['name'], bounds=r.get('bounds', ''), example=(r['samples'][0][0]['args'] if r.get('samples') else None))
                 for r in results if not r['error']][:2],
        explanation='Bounded symbolic execution of the functions listed, parsed from the working tree; states = explored fork paths plus symbolic '
                    'branch merges, transitions = statements executed symbolically; every obligation is an SMT query over all inputs within the bounds.',
        functions_encoded=sorted({f for r in results for f in r.get('fns', [])}),
        harnesses=[dict(name=r['name'], bounds=r.get('bounds', ''), paths=r.get('paths'), obligations=r.get('obligations'), syntactic=r.get('trivial'),
                        queries=r.get('queries'), solver_s=round(r.get('solver_s', 0), 2), wall_s=round(r.get('wall', 0), 2), covers=r.get('covers'),
                        error=r['error']) for r in results],
        obligations=sum(r.get('obligations', 0) for r in results),
        discharged=sum(r.get('obligations', 0) - len(r.get('cex') or []) for r in results),
        queries=sum(r.get('queries', 0) for r in results),
        solver_seconds=round(sum(r.get('solver_s', 0) for r in results), 2),
        problems=problems[:20],
        known_findings=[k['text'] for k, c in knowns],
    )
    ev = dict(property=prop, tier=tier, seed=SEED, level='model_checking', coverage=cov, wall_s=round(wall, 2), violations=len(violations),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k, c in knowns:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    for p in problems[:20]:
        print('PROBLEM: ' + p)
    print('%s %s: %d harnesses, %d obligations, %d queries, %.1fs solver, %d traces validated, wall %.1fs' % (
        prop, tier, len(results), cov['obligations'], cov['queries'], cov['solver_seconds'], validated, wall))
    if violations:
        for r, c, path, text in violations:
            print('violated: %s %s: %s' % (r['name'], c['label'], text[:600]))
        for path in sorted({v[2] for v in violations}):
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if problems:
        return 3
    return 0


def entry_fns(fns, specs):
    """cython functions to compile for a set of calls"""
    return {f for f in fns if f.startswith('cyext_')}


class Exts:
    """the compiled slices needed by the replays, plain and bounds-checked"""
    def __init__(self, cexs):
        self.fns = {}
        for r, c in cexs:
            for f in c['fns']:
                if f.startswith('cyext_'):
                    mod, fn = f.rsplit('.', 1)
                    self.fns.setdefault(mod, set()).add(fn)
        self.e = {}

    def get(self, checked):
        from . import slicer
        if not self.fns:
            return None
        if checked not in self.e:
            self.e[checked] = slicer.Ext({k: sorted(v) for k, v in self.fns.items()}, checked)
        return self.e[checked]

    def close(self):
        for e in self.e.values():
            e.close()


def confirm(mod, r, c, exts):
    from . import replay as RP
    if c.get('cxx'):
        from . import cxx
        ok, text = cxx.replay(c['cxx'])
        return ok, 'compiled program on %s: %s' % (json.dumps(c['vals'])[:600], text[:600]), dict(program=c['cxx'])
    if hasattr(mod, 'confirm'):
        q = mod.confirm(r, c)
        if q is not None:
            return q
    if not c['specs']:
        return False, 'no recorded call (%s)' % c['err'], None
    fns = entry_fns(set(c['fns']), c['specs'])
    lab = c['label']
    try:
        if lab.startswith('event:oob'):
            outs, err, stderr = RP.run_calls(c['specs'], fns, checked=True, ext=exts.get(True))
            hit = bool(err) or 'IndexError' in (stderr or '') or any((not o['ok']) and 'Out of bounds' in (o.get('msg') or '') or
                                                                     (not o['ok'] and o.get('exc') == 'IndexError') for o in outs or [])
            return hit, 'bounds-checked build: %s' % ((stderr or '')[-300:] or err or [o.get('msg') for o in outs]), dict(outs=outs)
        outs, err, stderr = RP.run_calls(c['specs'], fns, ext=exts.get(False))
    except Exception as e:
        return False, 'replay failed: %r' % (e,), None
    if outs is None:
        if lab.startswith('exception') or lab.startswith('event'):
            return True, 'real code died: %s' % err, None
        return False, 'replay failed: %s' % err, None
    if lab.startswith('exception'):
        bad = [o for o in outs if not o['ok']]
        if bad:
            return True, 'real code raised %s: %s' % (bad[0]['exc'], bad[0]['msg']), dict(outs=outs)
        return False, 'real code did not raise', None
    if lab.startswith('event:div0') or lab.startswith('event:nan'):
        s = json.dumps([o.get('out') for o in outs])
        if 'NaN' in s or 'Infinity' in s or any(not o['ok'] for o in outs):
            return True, 'real code returned non-finite values: %s' % s[:400], dict(outs=outs)
        return False, 'no non-finite value in %s' % s[:300], None
    if lab.startswith('race:'):
        return True, 'two parallel iterations touch the same cell: %s' % lab, None
    diff = []
    for s, o, q in zip(c['specs'], c['outs'], outs):
        if not q['ok']:
            return True, 'real %s raised %s: %s' % (s['fn'], q['exc'], q['msg']), dict(outs=outs)
        if not RP.close(o, q['out']):
            diff.append('%s: encoding %s real %s' % (s['fn'], str(o)[:400], str(q['out'])[:400]))
    if diff:
        return False, '; '.join(diff), None
    return True, 'real code returned %s on %s; broken: %s %s' % (str([o.get('out') for o in outs])[:500], json.dumps(c['vals'])[:900], lab, c['info'] or ''), dict(outs=outs)


def save_replay(prop, r, c, text, data):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, ''.join(ch if ch.isalnum() else '_' for ch in r['name'])))
    with open(p, 'w') as f:
        json.dump(dict(property=prop, harness=r['name'], label=c['label'], text=text, inputs=c['vals'], calls=c['specs'], expected_from_encoding=c['outs'],
                       functions=c['fns'], real=data), f, indent=1, default=str)
    return p
