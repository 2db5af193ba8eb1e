"""C++ sources of the repository, decided by CBMC (bit-precise, SAT) and replayed by a compiled program."""
import json, os, re, shutil, struct, subprocess, tempfile, time
from . import front

STUBS = {'algorithm': '''namespace std {
inline int max(int a, int b) { return a < b ? b : a; }
inline unsigned max(unsigned a, unsigned b) { return a < b ? b : a; }
inline double max(double a, double b) { return a < b ? b : a; }
inline int min(int a, int b) { return b < a ? b : a; }
inline unsigned min(unsigned a, unsigned b) { return b < a ? b : a; }
inline double min(double a, double b) { return b < a ? b : a; }
}
''', 'iostream': '', 'fstream': '', 'ctime': '', 'cmath': '', 'cstdlib': '', 'cstring': '', 'vector': '', 'cassert': '', 'utility': ''}

HEAD = '''#include "%(header)s"
#ifdef REPLAY
#include <cstdio>
#define ASSUME(c) do { if (!(c)) { printf("assumption violated\\n"); return 9; } } while (0)
#define CHECK(l, c) do { if (!(c)) { printf("broken: %%s\\n", l); bad = 1; } } while (0)
double in_d[] = {%(ds)s};
int in_i[] = {%(is)s};
#else
double nondet_double();
int nondet_int();
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(l, c) __CPROVER_assert(c, l)
double in_d[%(nd)d];
int in_i[%(ni)d];
#endif
%(decl)s
int main() {
  int bad = 0;
#ifndef REPLAY
%(init)s
#endif
%(body)s
#ifdef REACH
  __CPROVER_assert(0, "reach");
#endif
  return bad;
}
'''


def source(header, decl, body, nd, ni, ds=(), is_=()):
    init = ''.join('  in_d[%d] = nondet_double();\n' % i for i in range(nd)) + ''.join('  in_i[%d] = nondet_int();\n' % i for i in range(ni))
    return HEAD % dict(header=header, ds=', '.join(ds) or '0', is_=0, nd=nd or 1, ni=ni or 1, decl=decl, init=init, body=body, **{'is': ', '.join(is_) or '0'})


def cbmc(src, unwind, timeout, extra=()):
    d = tempfile.mkdtemp(prefix='acvcxx_')
    try:
        for k, v in STUBS.items():
            with open(os.path.join(d, k), 'w') as f:
                f.write(v)
        p = os.path.join(d, 'harness.cpp')
        with open(p, 'w') as f:
            f.write(src)
        r = subprocess.run(['cbmc', p, '-I', d, '--drop-unused-functions', '--unwind', str(unwind), '--unwinding-assertions', '--json-ui', '--trace'] + list(extra),
                           capture_output=True, text=True, timeout=timeout, cwd=d)
        try:
            out = json.loads(r.stdout)
        except ValueError:
            return None, 'cbmc: %s' % (r.stdout[-500:] + r.stderr[-500:])
        res = [x['result'] for x in out if 'result' in x]
        if not res:
            return None, 'cbmc: ' + ' '.join(x.get('messageText', '') for x in out if x.get('messageType') == 'ERROR')[:500]
        return res[0], None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def values(trace, nd, ni):
    ds, is_ = ['0.0'] * nd, ['0'] * ni
    for st in trace:
        m = re.match(r'in_([di])\[(\d+)l*\]$', st.get('lhs', '')) if st.get('stepType') == 'assignment' else None
        v = st.get('value', {})
        if not m or 'binary' not in v:
            continue
        i = int(m.group(2))
        if m.group(1) == 'd' and i < nd:
            x = struct.unpack('>d', int(v['binary'], 2).to_bytes(8, 'big'))[0]
            ds[i] = repr(x) if x == x and abs(x) != float('inf') else '(1.0/0.0)' if x > 0 else '(-1.0/0.0)' if x < 0 else '(0.0/0.0)'
        elif m.group(1) == 'i' and i < ni:
            is_[i] = str(struct.unpack('>i', int(v['binary'], 2).to_bytes(4, 'big'))[0])
    return ds, is_


def replay(src):
    """compile against the real headers and run"""
    d = tempfile.mkdtemp(prefix='acvcxx_')
    try:
        p = os.path.join(d, 'replay.cpp')
        with open(p, 'w') as f:
            f.write(src)
        r = subprocess.run(['g++', '-O0', '-DREPLAY', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-o', os.path.join(d, 'a'), p], capture_output=True, text=True, timeout=120)
        if r.returncode:
            return False, 'replay does not compile: ' + r.stderr[-500:]
        r = subprocess.run([os.path.join(d, 'a')], capture_output=True, text=True, timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        return r.returncode not in (0, 9), (r.stdout + r.stderr[-600:]).strip() or 'nothing broken'
    except subprocess.TimeoutExpired:
        return True, 'the compiled program does not terminate'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def decide(name, header, decl, body, nd, ni, unwind, fns, bounds, idx, timeout=400):
    t0 = time.time()
    h = os.path.join(front.REPO, header)
    res, err = cbmc(source(h, decl, body, nd, ni), unwind, timeout)
    bad = [q for q in res or [] if q['status'] != 'SUCCESS']
    if bad and all('unwinding' in q.get('description', '') for q in bad):
        unwind *= 4
        res, err = cbmc(source(h, decl, body, nd, ni), unwind, timeout)
    out = dict(name=name, idx=idx, error=err, inconclusive=[], paths=1, obligations=len(res or []), trivial=0, queries=1, solver_s=time.time() - t0, covers={}, events={},
               wall=0, forks=0, races=0, calls=len(fns), merges=0, restarts=0, fns=fns, samples=[], nsamp=0, bounds=bounds, expect_cover=True, cex=[])
    if err:
        return out
    for q in res:
        if q['status'] == 'SUCCESS':
            continue
        lab = q.get('description', q['property'])
        ds, is_ = values(q.get('trace', []), nd, ni)
        out['cex'].append(dict(label='cxx:' + lab, where=str(q.get('sourceLocation', {}).get('line', '')), vals=dict(doubles=ds, ints=is_), err=None, outs=[], specs=[], fns=fns, info=None,
                               cxx=source(h, decl, body, nd, ni, ds, is_)))
        if len(out['cex']) >= 2:
            break
    if not out['cex']:
        res, err = cbmc(source(h, decl, body, nd, ni), unwind, timeout, ['-DREACH', '--property', 'main.assertion.%d' % (sum(1 for q in res if q['property'].startswith('main.assertion')) + 1)])
        out['covers'] = {'end': int(bool(res) and any(q['status'] == 'FAILURE' for q in res))}
        out['queries'] += 1
    out['wall'] = out['solver_s'] = time.time() - t0
    return out
