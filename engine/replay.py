"""Concrete replay of solver models on the real code."""
import json, os, subprocess, tempfile, shutil
from fractions import Fraction
import numpy as np
from .terms import *
from .ctx import *
from .interp import SObj, Closure, Bound, CVec, CSet, VRef, Cls, Mod, Opaque
from . import slicer, front

DT = {'f': 'float64', 'i': 'int64', 'b': 'bool', 'o': 'object'}


def conc(v, m, memo):
    """concrete python value of a symbolic value under model m"""
    if isinstance(v, (B, R, U)):
        r = evV(v, m, memo)
        return conc(r, m, memo) if not isinstance(r, (int, Fraction, float, bool)) else r
    if isinstance(v, CVec):
        return conc(v.st, m, memo)
    if isinstance(v, (list,)):
        return [conc(x, m, memo) for x in v]
    if isinstance(v, tuple):
        return tuple(conc(x, m, memo) for x in v)
    if isinstance(v, np.ndarray):
        out = np.empty(v.shape, dtype=object)
        fo, fv = out.reshape(-1), np.asarray(v).reshape(-1)
        for i in range(fv.size):
            fo[i] = conc(fv[i], m, memo)
        return out
    if isinstance(v, dict):
        return {k: conc(x, m, memo) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return set(conc(x, m, memo) for x in v)
    if isinstance(v, SObj) and v._c is not None and not v.a.get('#fake'):
        if ('obj', id(v)) in memo:
            return '<again>'
        memo['obj', id(v)] = True
        d = {k: conc(x, m, memo) for k, x in v.a.items() if not k.startswith('#')}
        del memo['obj', id(v)]
        d['#obj'] = v._c.name
        return d
    return v


def num(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return float(x)
    return x


def enc(v, m, memo, dt=None):
    """encode a (symbolic) argument for the worker"""
    if isinstance(v, (B, R, U)):
        r = evV(v, m, memo)
        if isinstance(r, (int, Fraction, float, bool)):
            return dict(t='v', v=num(r))
        return enc(r, m, memo, dt)
    if isinstance(v, CVec):
        return enc(v.st, m, memo)
    if isinstance(v, np.ndarray):
        k = getattr(v, 'k', None)
        if v.dtype != object:
            return dict(t='nd', dtype=str(v.dtype), shape=list(v.shape), data=v.reshape(-1).tolist())
        flat = [conc(x, m, memo) for x in v.reshape(-1)]
        if k in ('f', 'i', 'b'):
            cdt = getattr(v, 'cdt', None)
            d = {'int': 'int32', 'long': 'int64', 'float': 'float32', 'double': 'float64'}.get(cdt or dt, DT[k])
            if k == 'b':
                d = 'bool'
            if d.startswith('int') and k == 'f':
                d = 'float64'
            return dict(t='nd', dtype=d, shape=list(v.shape), data=[num(x) for x in flat])
        return dict(t='ndo', shape=list(v.shape), data=[enc(x, m, memo) for x in flat])
    if isinstance(v, list):
        return dict(t='list', v=[enc(x, m, memo) for x in v])
    if isinstance(v, tuple):
        return dict(t='tuple' if not dt else 'list', v=[enc(x, m, memo) for x in v])
    if isinstance(v, (set, frozenset)):
        return dict(t='set', v=[enc(x, m, memo) for x in v])
    if isinstance(v, dict):
        return dict(t='dict', v=[[enc(k, m, memo), enc(x, m, memo)] for k, x in v.items()])
    if isinstance(v, SObj):
        cls = v._c
        if v.a.get('#fake') or cls is None:
            return dict(t='fake', types=v.a.get('#types'), attrs={k: enc(x, m, memo) for k, x in v.a.items() if not k.startswith('#') and (not callable(x) or hasattr(x, '__replay__'))})
        return dict(t='obj', cls=cls.mod.replace('/', '.') + ':' + cls.name, id=id(v),
                    attrs={k: enc(x, m, memo) for k, x in v.a.items() if not k.startswith('#')})
    if v is None or isinstance(v, (str, int, float, bool)):
        return dict(t='v', v=v)
    if isinstance(v, Fraction):
        return dict(t='v', v=float(v))
    if hasattr(v, '__replay__'):
        return v.__replay__(m, memo, enc)
    raise Unsupported('cannot encode %r for replay' % (type(v),))


def plain(v):
    """output of the encoding -> comparable json-like value"""
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(plain(x) for x in v)
    if isinstance(v, CVec):
        return plain(v.st)
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    return '<%s>' % type(v).__name__


def close(a, b, tol=1e-6):
    if isinstance(a, str) and a.startswith('<'):
        return True
    if isinstance(b, str) and b.startswith('<'):
        return True
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if '#obj' in a and '#obj' in b:          # objects: the numbers both sides have (the order of a set of variables is free)
            return a['#obj'] == b['#obj'] and all(close(a[k], b[k], tol) for k in a if k in b and not k.startswith('node_idx'))
        return set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return (a != a) and (b != b)
        if a in (float('inf'), float('-inf')) or b in (float('inf'), float('-inf')):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def call_spec(call, m, memo):
    path, args, kw, out, dts = call[:5]
    if path == '@init':
        return dict(mod='@init', obj=enc(call[5], m, memo), args=[], kw={}), None
    s = dict(args=[enc(a, m, memo, d) for a, d in zip(args, dts)], kw={k: enc(a, m, memo) for k, a in kw.items()})
    if isinstance(path, tuple) and path[0] == '@effects':
        s['effects'] = path[2]
        path = path[1]
    if isinstance(path, tuple) and path[0] == '@hist':
        s.update(mod='@hist', steps=[call_spec(q, m, memo)[0] for q in path[1]], fn=path[2])
    elif isinstance(path, tuple):
        obj, fn = path
        s.update(mod='@obj', obj=enc(obj, m, memo), fn=fn)
    else:
        mod, fn = path.split(':')
        s.update(mod=mod, fn=fn)
    want = plain(conc(out, m, memo))
    if len(call) > 5 and call[5]:
        s['rng'] = want          # random choices: the real code must be able to produce this outcome
    return s, want


def run_calls(specs, fns, checked=False, timeout=240, ext=None):
    """execute call specs on the real code; fns = set of 'mod.fn' names whose current source must be compiled"""
    mods = {}
    for f in fns:
        mod, fn = f.rsplit('.', 1)
        if mod.startswith('cyext_'):
            mods.setdefault(mod, []).append(fn)
    own = ext is None
    if own:
        ext = slicer.Ext(mods, checked) if mods else None
    d = tempfile.mkdtemp(prefix='acvjob_')
    try:
        jf, of = os.path.join(d, 'job.json'), os.path.join(d, 'out.json')
        with open(jf, 'w') as f:
            json.dump(dict(calls=specs), f)
        env = dict(slicer.ENV)
        env['PYTHONPATH'] = ':'.join(([ext.dir] if ext else []) + ['/opt/acv-build/lib', front.REPO])
        p = subprocess.run([slicer.PYPY, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'worker.py'), jf, of], cwd=d, env=env,
                           capture_output=True, text=True, timeout=timeout)
        if not os.path.exists(of):
            return None, 'worker died rc=%s %s' % (p.returncode, p.stderr[-800:]), p.stderr
        with open(of) as f:
            return json.load(f), None, p.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if own and ext is not None:
            ext.close()
