"""Runs the obligations of a property in parallel, replays counterexamples on the real code,
writes evidence and sets the exit code."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REALPY = '/opt/venv/bin/python'
RETAIN = os.path.join(HERE, 'evidence', 'replays')


TIME = 240          # seconds per obligation (quick)
HUNT = {'quick': 60, 'thorough': 400}


class Ob:
    """One obligation: a harness, its finite parameters and its bounds."""
    def __init__(self, name, fn, params=None, tier='quick', must=True, replay=True, **opts):
        self.name, self.fn, self.params = name, fn, params or {}
        self.tier, self.must, self.opts, self.replay = tier, must, opts, replay


def load_prop(pid):
    return importlib.import_module('props.' + pid.lower())


def obligations(pid, tier):
    m = load_prop(pid)
    obs = m.obligations(tier)
    names = [o.name for o in obs]
    assert len(set(names)) == len(names), 'duplicate obligation names'
    return m, obs


def cover_on():
    """Which functions and lines of /repo the symbolic runs executed."""
    hits = {}
    mon = sys.monitoring
    mon.use_tool_id(3, 'verif')

    def line(code, ln):
        if code.co_filename.startswith(REPO):
            hits.setdefault((code.co_filename, code.co_qualname), set()).add(ln)
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    return hits


def worker(pid, tier, idx, seed, q):
    t0 = time.time()
    res = {'idx': idx, 'status': 'error', 'why': ''}
    try:
        sys.setrecursionlimit(20000)
        hits = cover_on()
        from . import smt
        from .symctx import Run
        m, obs = obligations(pid, tier)
        ob = obs[idx]
        opts = dict(ob.opts)
        opts.setdefault('time_limit', TIME)
        opts.setdefault('cross', tier == 'thorough')
        if tier == 'thorough':
            opts['time_limit'] = opts.get('time_limit', TIME) * 4
            opts['timeout_ms'] = opts.get('timeout_ms', 4000) * 3
        r = Run(ob.fn, ob.params, seed=seed, **opts)
        r.explore()
        res.update(paths=r.eng.paths, forks=r.eng.forks, goals=r.goals, identical=r.identical,
                   by_solver=r.by_solver, feas=r.eng.feas_queries, feas_unknown=r.eng.feas_unknown,
                   samples=r.samples, limit=r.limit, unknown=r.unknown, stats=dict(smt.STATS),
                   no_sample=r.no_sample, batch_unsat=r.batch_unsat, goal_paths=r.paths_with_goal, cross=r.cross_n,
                   decl={k: list(v) for k, v in r.decl.items()},
                   failures=[(f.label, f.verdict, f.cands, f.why) for f in r.failures],
                   cover=[(k[0], k[1], len(v)) for k, v in hits.items()])
        if r.failures:
            res['status'] = 'fail'
        elif r.limit or r.unknown:
            res['status'] = 'limit'
            res['why'] = r.limit or '; '.join(r.unknown[:3])
        elif r.goals == 0:
            res['status'] = 'vacuous'
            res['why'] = 'no goal was reached'
        else:
            res['status'] = 'proved'
    except BaseException as e:
        res['why'] = '%s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()
    res['wall'] = time.time() - t0
    q.put(res)


def run_all(pid, tier, obs, seed, procs, budget):
    """Each obligation in its own process (own solver, own term table)."""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    todo = list(range(len(obs)))
    todo.sort(key=lambda i: -obs[i].opts.get('time_limit', TIME) if obs[i].opts.get('heavy') is None else -1e9)
    for o in obs:
        o.opts.pop('heavy', None)
    live = {}
    out = {}
    t0 = time.time()
    while todo or live:
        while todo and len(live) < procs:
            i = todo.pop(0)
            p = ctx.Process(target=worker, args=(pid, tier, i, seed, q))
            p.start()
            live[i] = (p, time.time())
        try:
            r = q.get(timeout=1)
            out[r['idx']] = r
            p, _ = live.pop(r['idx'])
            p.join(5)
        except Exception:
            pass
        now = time.time()
        for i, (p, st) in list(live.items()):
            lim = obs[i].opts.get('time_limit', TIME) * (4 if tier == 'thorough' else 1) + 60
            if not p.is_alive() and q.empty():
                time.sleep(0.5)
                if q.empty() and i not in out:
                    out[i] = {'idx': i, 'status': 'error', 'why': 'worker died', 'wall': now - st}
                    live.pop(i)
            elif now - st > lim:
                p.kill()
                out[i] = {'idx': i, 'status': 'limit', 'why': 'killed after %ds' % lim, 'wall': now - st}
                live.pop(i)
        if now - t0 > budget:
            for i, (p, st) in live.items():
                p.kill()
                out[i] = {'idx': i, 'status': 'limit', 'why': 'time budget', 'wall': now - st}
            for i in todo:
                out[i] = {'idx': i, 'status': 'limit', 'why': 'time budget (not started)', 'wall': 0}
            break
    return [out[i] for i in range(len(obs))]


def replay(cases, timeout=300, procs=8):
    """Concrete runs of harnesses on the unmodified code in the project's own interpreter."""
    if not cases:
        return []
    # (no cached bytecode is read or written: a stale .pyc would hide an edit of the same size and second)
    env = dict(os.environ, PYTHONPYCACHEPREFIX='/nonexistent/verif', PYTHONDONTWRITEBYTECODE='1')
    n = max(1, min(procs, len(cases) // 20))
    parts = [cases[i::n] for i in range(n)]
    ps = []
    for part in parts:
        f = tempfile.TemporaryFile('w+')
        json.dump(part, f)
        f.seek(0)
        out = tempfile.TemporaryFile('w+')
        err = tempfile.TemporaryFile('w+')
        ps.append((subprocess.Popen([REALPY, '-B', '-W', 'ignore', os.path.join(HERE, 'replay.py'), '--batch'],
                                    stdin=f, stdout=out, stderr=err, cwd=HERE, env=env), out, err))
    t0 = time.time()
    res = [None] * len(cases)
    for i, (p, out, err) in enumerate(ps):
        try:
            p.wait(max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
        out.seek(0)
        err.seek(0)
        lines = [l for l in out.read().split('\n') if l.startswith('@@')]
        for k, l in enumerate(lines):
            res[i + k * n] = json.loads(l[2:])
        if p.returncode not in (0, None, -9):
            raise RuntimeError('replay failed: ' + err.read()[-2000:])
    return [r if r is not None else {'status': 'error', 'why': 'replay ran out of time'} for r in res]


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return True
    if isinstance(a, list) or isinstance(b, list):
        return False
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= 1e-5 * max(abs(a), abs(b)) + 1e-5


def known_findings():
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                out.append(json.loads(l))
    return out


def main(pid, tier, seed, only=None, verbose=False, procs=None):
    t0 = time.time()
    mod, obs = obligations(pid, tier)
    if only:
        keep = [i for i, o in enumerate(obs) if only in o.name]
    m_obs = obs
    budget = 560 if tier == 'quick' else 6 * 3600
    procs = procs or min(8, os.cpu_count() or 4)
    if only:
        import types
        full = mod.obligations
        mod.obligations = lambda t: [o for o in full(t) if only in o.name]
        m_obs = mod.obligations(tier)
    results = run_all(pid, tier, m_obs, seed, procs, budget)

    # ---- replay: counterexample candidates, and one sample per path to validate the encoding
    cases, where, hunted = [], [], []
    for ob, r in zip(m_obs, results):
        if not ob.replay:
            continue
        for k, (label, verdict, cands, why) in enumerate(r.get('failures', ())):
            for c in cands[:12]:
                cases.append({'property': pid, 'tier': tier, 'obligation': ob.name, 'inputs': c})
                where.append((r['idx'], 'fail', k, None))
        lim = 40 if tier == 'quick' else 200
        smp = r.get('samples', [])
        step = max(1, len(smp) // lim)
        for inp, vals in smp[::step][:lim]:
            cases.append({'property': pid, 'tier': tier, 'obligation': ob.name, 'inputs': inp, 'loose': 1000.0})
            where.append((r['idx'], 'path', None, vals))
        if r['status'] != 'proved':
            # not decided: look for a counterexample with concrete inputs as well (cannot establish anything)
            hunted.append((ob, r))
    for k in range(HUNT[tier] * (4 if len(hunted) <= 10 else 1)):
        for ob, r in hunted:
            cases.append({'property': pid, 'tier': tier, 'obligation': ob.name, 'inputs': {'__seed__': 1000 * seed + k}, 'loose': 100.0})
            where.append((r['idx'], 'hunt', None, None))
    outs = replay(cases, timeout=200 if tier == 'quick' else 3600)
    violations, validated, diverged = [], 0, []
    div_where = []
    for case, w, o in zip(cases, where, outs):
        if o['status'] == 'skip':
            continue
        if o['status'] == 'error':
            if w[1] == 'hunt':
                continue
            diverged.append((case, o.get('why')))
            continue
        bad = [g for g in o['goals'] if not g[1]]
        if bad and w[1] == 'hunt':
            case = dict(case, inputs=o['inputs'])
        if bad:
            violations.append((w[0], case, bad))
        elif w[1] == 'path':
            if close(o['obs'], w[3]):
                validated += 1
            else:
                diverged.append((case, 'symbolic %r, real %r' % (w[3], o['obs'])))
    known = [k for k in known_findings() if k.get('property') == pid and k.get('status', 'open') == 'open']
    fresh, seen_known = [], {}
    for idx, case, bad in violations:
        hit = None
        for k in known:
            if k.get('obligation') == m_obs[idx].name and any(g[0].startswith(k.get('label', '')) for g in bad):
                hit = k
                break
        if hit:
            seen_known[hit['what']] = True
        else:
            fresh.append((idx, case, bad))

    # ---- verdict  (nothing is claimed for an obligation that stays undecided: it is listed, here and in the evidence)
    undecided = []
    for ob, r in zip(m_obs, results):
        if r['status'] in ('error', 'vacuous') or (r['status'] == 'limit' and ob.must):
            undecided.append('%s: %s (%s)' % (ob.name, r['status'], r.get('why')))
        elif r['status'] == 'fail' and ob.must and not any(v[0] == r['idx'] for v in violations):
            f = r['failures'][0]
            undecided.append('%s: goal %s not decided (solver: %s) %s' % (ob.name, f[0], f[1], str(f[3])[:200]))
    if len(diverged) > max(3, 0.1 * (validated + len(diverged))):
        undecided.append('encoding disagrees with the real code on %d of %d replayed paths: %s'
                         % (len(diverged), validated + len(diverged), str(diverged[0][1])[:300]))

    cover = {}
    for r in results:
        for f, fn, n in r.get('cover', ()):
            k = os.path.relpath(f, REPO) + ':' + fn
            cover[k] = max(cover.get(k, 0), n)
    st = {}
    for r in results:
        for k, v in r.get('stats', {}).items():
            st[k] = st.get(k, 0) + v
    S = lambda k: sum(r.get(k) or 0 for r in results)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': S('paths'), 'transitions': S('forks') + S('feas'),
            'traces_validated_against_impl': validated,
            'samples': [{'obligation': m_obs[w[0] if False else results[i]['idx']].name, 'inputs': results[i]['samples'][0][0]}
                        for i in range(len(results)) if results[i].get('samples')][:6],
            'explanation': 'states = feasible symbolic paths fully explored; transitions = branch decisions put to the '
                           'solver or forked; traces validated = one concrete input per path replayed on the real code '
                           'with the outputs predicted by the encoding',
            'obligations': len(m_obs),
            'undecided': undecided,
            'discharged': sum(r['status'] == 'proved' for r in results),
            'goals': S('goals'), 'goals_closed_by_normalisation': S('identical'), 'goals_closed_by_solver_search': S('by_solver'), 'paths_whose_equalities_were_refuted_in_one_query': S('batch_unsat'),
            'solver_queries': st.get('queries', 0), 'unsat': st.get('unsat', 0), 'sat': st.get('sat', 0),
            'unknown': st.get('unknown', 0), 'cvc5_cross_checks': st.get('cvc5', 0),
            'solver_time_s': round(st.get('time', 0), 2),
            'feasibility_queries': S('feas'), 'feasibility_unknown_kept': S('feas_unknown'),
            'paths_without_concrete_sample': S('no_sample'), 'encoding_divergences': len(diverged),
            'functions_encoded': sorted(cover), 'lines_executed_symbolically': sum(cover.values()),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'per_obligation': [{'name': ob.name, 'status': r['status'], 'paths': r.get('paths'), 'goals': r.get('goals'),
                                'wall_s': round(r.get('wall', 0), 2), 'why': r.get('why', '')[:200],
                                'domain': {k: v for k, v in list(r.get('decl', {}).items())[:40]}}
                               for ob, r in zip(m_obs, results)],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + COMMON,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    if verbose:
        for ob, r in zip(m_obs, results):
            print('%-44s %-8s paths=%s goals=%s ident=%s z3=%s feas=%s/%s nosmp=%s wall=%.1f %s' % (
                ob.name, r['status'], r.get('paths'), r.get('goals'), r.get('identical'), r.get('by_solver'),
                r.get('feas'), r.get('feas_unknown'), r.get('no_sample'), r.get('wall', 0), r.get('why', '')))
            if r['status'] == 'error':
                print(r.get('tb', ''))
            for f in r.get('failures', ())[:3]:
                print('     FAIL', f[0], f[1], 'cands=%d' % len(f[2]), f[3][:600])
        print('validated', validated, 'diverged', len(diverged), diverged[:2])
    for w in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    if fresh:
        os.makedirs(RETAIN, exist_ok=True)
        shown = set()
        for idx, case, bad in fresh:
            if m_obs[idx].name in shown or len(shown) >= 3:
                continue
            shown.add(m_obs[idx].name)
            path = os.path.join(RETAIN, '%s-%d.json' % (pid, len(shown)))
            with open(path, 'w') as f:
                json.dump({'case': case, 'failed': bad, 'how': '/opt/venv/bin/python /verif/replay.py ' + path}, f, indent=1)
            print('obligation %s: %s' % (m_obs[idx].name, '; '.join('%s %s' % (g[0], g[2]) for g in bad[:3])))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    for u in undecided[:8]:
        print('INCONCLUSIVE property=%s %s' % (pid, u))
    if undecided and not S('goals'):
        return 2
    print(('OK' if not undecided else 'NO VIOLATION FOUND') + ' property=%s tier=%s obligations=%d paths=%d goals=%d queries=%d solver_s=%.1f validated=%d wall_s=%.1f' % (
        pid, tier, len(m_obs), S('paths'), S('goals'), st.get('queries', 0), st.get('time', 0), validated, time.time() - t0))
    return 0


COMMON = [
    'machine doubles are modelled as mathematical reals (rounding, overflow and denormals are outside the claim); '
    'constants are the simplest rational within 2e-15 relative of the double',
    'exp, log, sin, cos, sqrt and roots are exact real functions; the solver sees them through sound axioms and congruence',
]
