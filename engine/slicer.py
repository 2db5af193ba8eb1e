"""Compiles the repository's current Cython functions (only the ones a replay needs) under PyPy, in a scratch directory."""
import hashlib, os, re, shutil, subprocess, sys, tempfile, json
from . import front

PYPY = '/opt/pypyvenv/bin/python'
ENV = dict(HOME='/root', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/acv-build/mpl', PYTHONDONTWRITEBYTECODE='1', PATH=os.environ.get('PATH', '/usr/bin:/bin'),
           OMP_NUM_THREADS='4')


def stat_spans(src, name):
    tree = front.parse_source(src, name)
    stats = tree.body.stats if type(tree.body).__name__ == 'StatListNode' else [tree.body]
    out = []
    for st in stats:
        line = st.pos[1]
        for d in (getattr(st, 'decorators', None) or []):
            line = min(line, d.pos[1])
        t = type(st).__name__
        nm = None
        if t == 'CFuncDefNode':
            from .interp import declname_fn
            nm = declname_fn(st.declarator)
        elif t == 'DefNode':
            nm = st.name
        out.append([line, nm, t])
    return out


def slice_pyx(modname, fns, checked=False):
    """source text of the functions `fns` of a pyx module with everything they call"""
    src = front.src_of(modname)
    lines = src.split('\n')
    sp = stat_spans(src, modname)
    sp.sort(key=lambda x: x[0])
    pre, defs = [], {}
    first = sp[0][0]
    for k, (ln, nm, t) in enumerate(sp):
        end = sp[k + 1][0] - 1 if k + 1 < len(sp) else len(lines)
        # decorators directly above belong to the next function
        txt = '\n'.join(lines[ln - 1:end])
        if nm:
            defs[nm] = (ln, txt)
        else:
            pre.append((ln, txt))
    need, todo = set(), list(fns)
    while todo:
        f = todo.pop()
        if f in need or f not in defs:
            continue
        need.add(f)
        for w in set(re.findall(r'[A-Za-z_]\w*', defs[f][1])):
            if w in defs and w not in need:
                todo.append(w)
    body = '\n\n'.join(defs[f][1] for f in sorted(need, key=lambda q: defs[q][0]))
    head = '\n'.join(lines[:first - 1])
    keep = []
    for ln, txt in pre:
        m = re.match(r'\s*from\s+acv_explainers\S*\s+import\s+(.*)', txt)
        if m:
            names = [q.strip().split(' as ')[-1] for q in m.group(1).split(',')]
            if not any(re.search(r'\b%s\b' % q, body) for q in names):
                continue
        keep.append(txt)
    # helper constants/aliases defined at module level stay in the preamble
    txt = head + '\n' + '\n'.join(keep) + '\n\n' + body + '\n'
    if checked:
        txt = txt.replace('@cython.boundscheck(False)', '@cython.boundscheck(True)')
    return txt


class Ext:
    def __init__(self, mods, checked=False, keep=None):
        """mods: {modname: [fn]}"""
        self.dir = tempfile.mkdtemp(prefix='acvrep_', dir=os.environ.get('VERIF_TMP', '/tmp'))
        self.mods = mods
        try:
            procs = []
            for m, fns in mods.items():
                txt = slice_pyx(m, fns, checked)
                with open(os.path.join(self.dir, m + '.pyx'), 'w') as f:
                    f.write(txt)
            code = _BUILD % (sorted(mods),)
            with open(os.path.join(self.dir, 'build.py'), 'w') as f:
                f.write(code)
            p = subprocess.run([PYPY, 'build.py'], cwd=self.dir, env=ENV, capture_output=True, text=True, timeout=400)
            if p.returncode != 0:
                raise RuntimeError('replay build failed: ' + p.stdout[-1500:] + p.stderr[-1500:])
        except BaseException:
            self.close()
            raise

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


_BUILD = r'''
import os, sys, subprocess, sysconfig
from concurrent.futures import ThreadPoolExecutor
import numpy
from Cython.Compiler.Main import compile as cc, CompilationOptions
mods = %r
inc = [sysconfig.get_paths()['include'], numpy.get_include()]
suf = sysconfig.get_config_var('EXT_SUFFIX')
def one(m):
    r = cc([m + '.pyx'], options=CompilationOptions(cplus=True, language_level=2))
    if r.num_errors: return 1
    return 0
for m in mods:
    if one(m): sys.exit(1)
def gcc(m):
    return subprocess.call(['g++', '-O1', '-w', '-fPIC', '-shared', '-fopenmp', '-fwrapv'] + ['-I' + i for i in inc] + [m + '.cpp', '-o', m + suf])
with ThreadPoolExecutor(4) as ex:
    rs = list(ex.map(gcc, mods))
sys.exit(max(rs))
'''
