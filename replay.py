"""Concrete replay on the real code (runs in the interpreter the project is installed in).

  /opt/venv/bin/python replay.py FILE      one recorded counterexample: prints what fails, exit 1
  /opt/venv/bin/python replay.py --batch   cases on stdin (JSON list), results on stdout
"""
import json
import os
import signal
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(1, os.path.join(REPO, 'scripts'))
sys.path.insert(1, os.path.join(REPO, 'src'))
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/verif'

from symx.ctx import RealCtx, Skip          # noqa: E402
from symx import runner                      # noqa: E402
from ref import itm                          # noqa: E402

_cache = {}
CPU_LIMIT = 20


class TooSlow(BaseException):
    pass


def slow(*_):
    raise TooSlow()



def one(case):
    key = (case['property'], case['tier'])
    if key not in _cache:
        _cache[key] = {o.name: o for o in runner.obligations(*key)[1]}
    ob = _cache[key][case['obligation']]
    if '__seed__' in case['inputs'] and not case.get('again'):
        # an input of the harness's domain is wanted: draw until its assumptions hold
        for k in range(25):
            r = one(dict(case, again=True, inputs={'__seed__': case['inputs']['__seed__'] + 1000003 * k}))
            if r['status'] != 'skip':
                break
        return r
    itm.UNCLEAR.clear()
    c = RealCtx(dict(case['inputs']), ob.params, case.get('loose', 1.0))
    try:
        signal.signal(signal.SIGVTALRM, slow)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            ob.fn(c, **ob.params)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except TooSlow:
        c.goals.append(('the call ends', False, 'still running after %d s of CPU time' % CPU_LIMIT, None))
    except Skip:
        return {'status': 'skip'}
    except Exception as e:
        import traceback
        return {'status': 'error', 'why': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()}
    if itm.UNCLEAR and not all(g[1] for g in c.goals):
        return {'status': 'skip'}
    return {'status': 'done', 'goals': c.goals, 'obs': clean(c.obs), 'inputs': c.inputs}


def clean(x):
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, dict):
        return [clean(x[k]) for k in sorted(x, key=str)]
    if hasattr(x, 'tolist'):
        return clean(x.tolist())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (bool, int, float)):
        return float(x)
    return str(x)


def main():
    if sys.argv[1] == '--batch':
        def default(o):
            try:
                return float(o)
            except Exception:
                return str(o)
        real = sys.stdout
        sys.stdout = open(os.devnull, 'w')       # (the runners print)
        for c in json.load(sys.stdin):
            real.write('@@' + json.dumps(one(c), default=default) + '\n')
            real.flush()
        return 0
    d = json.load(open(sys.argv[1]))
    r = one(d['case'])
    print(json.dumps(d['case'], indent=1))
    if r['status'] != 'done':
        print(r)
        return 2
    bad = [g for g in r['goals'] if not g[1]]
    for g in bad:
        print('FAILS: %s: %s %s' % (g[0], g[2], '' if g[3] is None else 'expected %s' % g[3]))
    if not bad:
        print('holds on this input')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
