#!/opt/veriftools/pyvenv/bin/python
"""run.py <property> [--tier quick|thorough]   decide one property on /repo's working tree
run.py --replay FILE                          re-run a recorded counterexample on the real code"""
import os, sys, json
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import threading, resource


def go():
    a = sys.argv[1:]
    if a[0] == '--replay':
        from engine import replay as RP
        d = json.load(open(a[1]))
        if (d.get('real') or {}).get('program'):
            from engine import cxx
            print(json.dumps(dict(label=d['label'], inputs=d['inputs'], real=cxx.replay(d['real']['program'])), indent=1))
            return 0
        outs, err, se = RP.run_calls(d['calls'], {f for f in d['functions'] if f.startswith('cyext_')}, checked=d['label'].startswith('event:oob'))
        print(json.dumps(dict(label=d['label'], inputs=d['inputs'], real=outs, err=err, stderr=(se or '')[-400:]), indent=1))
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    from engine import check
    return check.main(a[0], tier)


rc = [4]


def t():
    try:
        rc[0] = go()
    except BaseException:
        import traceback
        traceback.print_exc()


threading.stack_size(512 * 1024 * 1024)
th = threading.Thread(target=t)
th.start()
th.join()
sys.stdout.flush()
os._exit(rc[0])
