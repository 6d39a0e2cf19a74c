"""Runs one property check: proofs, concrete cross-check, evidence."""

import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = '/opt/venv/bin/python'


def repo_dir():
    return os.environ.get('PV_REPO', '/repo')


def load_known():
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            if line.startswith('known: property='):
                pid, sig, what = line[len('known: property='):].split(' ', 2)
                out.setdefault(pid, {})[sig.replace('sig=', '')] = what
    return out


def _worker(args):
    mod, i, seed, tier, repo = args
    t0 = time.time()
    try:
        from pv import spec
        m = importlib.import_module(mod)
        c = m.contracts()[i]
        try:
            # a runaway proof must not take the machine down
            import resource
            lim = 6 * 1024 ** 3
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        except Exception:
            pass
        E = spec.verify(c, seed, tier, repo)
        st = E.stats
        return dict(label=c.label, func=c.func, generated=st.generated,
                    discharged=st.discharged, by=st.by,
                    solver_s=st.solver_s, paths=st.paths,
                    max_query_s=st.max_query_s, funcs=st.funcs,
                    covers=st.covers, stubs=st.stub_uses,
                    names=sorted(st.names), wall_s=time.time() - t0,
                    failures=[f.as_dict() for f in E.failures])
    except BaseException as e:
        return dict(label=str(args[:2]), func='?', generated=0, discharged=0,
                    by={}, solver_s=0.0, paths=0, max_query_s=0.0, funcs={},
                    covers=0, stubs={}, names=[], wall_s=time.time() - t0,
                    failures=[{'obligation': '%s contract %d' % (mod, i),
                               'outcome': 'unsupported', 'detail':
                               'verifier stopped: %s: %s %s' % (
                                   type(e).__name__, e,
                                   traceback.format_exc()[-1500:]),
                               'model': {}, 'path': []}])


def run_oracle(pid, seed, tier, hints, budget, repo):
    """Run the concrete contract evaluator on the real code (CPython)."""
    path = os.path.join(ROOT, 'oracle', pid + '.py')
    if not os.path.exists(path):
        return None
    tmp = tempfile.mkdtemp(prefix='pvo_')
    hf = os.path.join(tmp, 'hints.json')
    of = os.path.join(tmp, 'out.json')
    with open(hf, 'w') as f:
        json.dump(hints, f)
    env = dict(os.environ, PYTHONPATH=repo + os.pathsep + os.path.join(
        ROOT, 'oracle'), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
        HOME=tmp, XDG_CONFIG_HOME=tmp, TMPDIR=tmp, OMP_NUM_THREADS='1',
        OPENBLAS_NUM_THREADS='1', PV_REPO=repo, PV_SCRATCH=tmp)
    cmd = [VENV, '-W', 'ignore', os.path.join(ROOT, 'oracle', 'common.py'),
           pid, '--seed', str(seed), '--tier', tier, '--hints', hf, '--out',
           of, '--budget', str(budget)]
    p = subprocess.Popen(cmd, cwd=tmp, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True,
                         start_new_session=True)
    return dict(p=p, of=of, tmp=tmp, cmd=cmd)


def end_oracle(h, timeout):
    if h is None:
        return None
    try:
        so, se = h['p'].communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(h['p'].pid, 9)
        so, se = h['p'].communicate()
        se = 'timeout\n' + (se or '')
    res = None
    if os.path.exists(h['of']):
        try:
            res = json.load(open(h['of']))
        except ValueError:
            res = None
    if res is None:
        res = {'evaluations': 0, 'distinct': 0, 'violations': [], 'known': [],
               'samples': [], 'rule': '', 'crash': (se or '')[-3000:]}
    import shutil
    shutil.rmtree(h['tmp'], ignore_errors=True)
    return res


def blank(mod, i, outcome, detail, failed=True):
    """What is known of a contract whose verification gave no result."""
    name = '%s contract %d' % (mod, i)
    return dict(
        label=name, func='?', generated=0, discharged=0, by={}, solver_s=0.0,
        paths=0, max_query_s=0.0, funcs={}, covers=0, stubs={}, names=[],
        wall_s=0, failures=[{
            'obligation': name, 'outcome': outcome, 'detail': detail,
            'model': {}, 'path': []}] if failed else [])


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    repo = repo_dir()
    ev_dir = os.path.join(ROOT, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    sys.path.insert(0, ROOT)
    mod = 'checks.' + pid
    try:
        m = importlib.import_module(mod)
        n = len(m.contracts())
        load_err = None
    except Exception:
        m, n, load_err = None, 0, traceback.format_exc()
    obudget = 8 if tier == 'quick' else 200
    obudget = getattr(m, 'ORACLE_BUDGET', {}).get(tier, obudget)
    oh = run_oracle(pid, seed, tier, [], obudget, repo)
    ctx = mp.get_context('fork')
    nproc = max(1, min((os.cpu_count() or 2) - 1, n or 1))
    results = []
    limit = 480 if tier == 'quick' else 3000
    if n:
        pool = ctx.Pool(nproc, maxtasksperchild=1)
        jobs = [pool.apply_async(_worker, ((mod, i, seed, tier, repo),))
                for i in range(n)]
        todo = dict(enumerate(jobs))
        while todo:
            for i in [i for i in todo if todo[i].ready()]:
                try:
                    results.append(todo.pop(i).get())
                except Exception as e:
                    results.append(blank(mod, i, 'unsupported', repr(e)))
                if results[-1]['failures']:
                    # the verdict is known: the others get one more minute
                    limit = min(limit, time.time() - t0 + 60)
            if todo and time.time() - t0 > limit:
                bad = any(r['failures'] for r in results)
                for i in sorted(todo):
                    results.append(blank(mod, i, 'budget', 'time limit',
                                         failed=not bad))
                break
            if todo:
                time.sleep(0.05)
        pool.terminate()
        pool.join()
    failures = [dict(f, func=r['func']) for r in results
                for f in r['failures']]
    ores = end_oracle(oh, obudget * 3 + 60)
    known = load_known().get(pid, {})
    if failures and not [v for v in (ores or {}).get('violations', [])
                         if v.get('sig') not in known]:
        # the proof failed: look harder for a failing input
        hints = [f['model'] for f in failures if f['model']]
        oh2 = run_oracle(pid, seed + 1000, 'thorough', hints,
                         60 if tier == 'quick' else 300, repo)
        o2 = end_oracle(oh2, 300)
        if o2:
            if ores is None:
                ores = o2
            else:
                ores['violations'] += o2['violations']
                ores['evaluations'] += o2['evaluations']
                ores['distinct'] += o2['distinct']
                if o2.get('crash'):
                    ores['crash'] = o2['crash']
    viol = []
    seen_known = set()
    crash = None
    if ores:
        for v in ores['violations']:
            if v.get('sig') in known:
                seen_known.add(v['sig'])
            else:
                viol.append(v)
        crash = ores.get('crash')
    for s in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[s]))
    st = dict(generated=sum(r['generated'] for r in results),
              discharged=sum(r['discharged'] for r in results))
    by = {}
    for r in results:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    status = 0
    replay = os.path.join(ev_dir, 'replay_%s.json' % pid)
    if os.path.exists(replay):
        os.unlink(replay)
    if viol or failures or crash or load_err or (n == 0 and not getattr(
            m, 'BOUNDED_ONLY', None)):
        status = 1
        with open(replay, 'w') as f:
            json.dump({
                'property': pid, 'tier': tier, 'seed': seed,
                'failing_inputs': viol[:20],
                'failed_obligations': failures[:20],
                'oracle_crash': crash, 'load_error': load_err,
                'how_to_replay': 'PYTHONPATH=%s:%s/oracle %s %s/oracle/'
                'common.py %s --replay %s' % (repo, ROOT, VENV, ROOT, pid,
                                              replay)}, f, indent=1,
                default=str)
        for f in failures[:8]:
            print('FAILED OBLIGATION %s [%s] %s' % (
                f['obligation'], f['outcome'], f['detail'][:300]))
        for v in viol[:5]:
            print('FAILING INPUT %s: %s' % (json.dumps(v.get('case'),
                                                       default=str)[:600],
                                            v.get('message', '')[:400]))
        if crash:
            print('ORACLE STOPPED: %s' % crash[-800:])
        if load_err:
            print(load_err[-800:])
        if viol:
            print('VIOLATION property=%s replay=%s' % (pid, replay))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found'
                  % (pid, replay))
    level = getattr(m, 'LEVEL', 'proof')
    trusted = list(getattr(m, 'TRUSTED', []))
    stubs = {}
    for r in results:
        for k, v in r['stubs'].items():
            stubs[k] = stubs.get(k, 0) + v
    cov = {
        'obligations': st['generated'],
        'discharged': st['discharged'],
        'checker_cmd': 'python3-vt run_check.py %s --tier %s' % (pid, tier),
        'trusted_base': BASE + trusted,
        'functions_under_contract': sorted({r['func'] for r in results}),
        'contracts': [dict(label=r['label'], function=r['func'],
                           obligations=r['generated'],
                           discharged=r['discharged'], paths=r['paths'],
                           loops_cut=sum(x.get('loops', 0) for x in
                                         r['funcs'].values()),
                           wall_s=round(r['wall_s'], 2)) for r in results],
        'discharged_by': by,
        'solver_s': round(sum(r['solver_s'] for r in results), 2),
        'max_query_s': round(max([r['max_query_s'] for r in results]
                                 or [0]), 2),
        'preconditions_shown_reachable': sum(r['covers'] for r in results),
        'callee_contract_uses': stubs,
        'failed_obligations': [f['obligation'] for f in failures][:20],
        'obligation_names': sorted({x for r in results
                                    for x in r['names']})[:120],
    }
    if ores:
        cov.update(
            evaluations=ores['evaluations'],
            distinct_nontrivial=ores['distinct'],
            rule='bounded CPython cross-check of the same contracts on the '
                 'real code, never counted as proved: ' + ores.get('rule',
                                                                   ''),
            samples=ores.get('samples', [])[:6])
    if level == 'other':
        cov['explanation'] = getattr(m, 'EXPLANATION', '')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': ASSUME + list(
              getattr(m, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2),
          'violations': len(viol) + len(failures)}
    with open(os.path.join(ev_dir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged (%s), %d contracts, oracle %s '
          'evaluations, %.1f s' % (
              pid, st['generated'], st['discharged'], ', '.join(
                  '%s %d' % x for x in sorted(by.items())), n,
              ores['evaluations'] if ores else 0, time.time() - t0))
    return status


BASE = [
    'pv/ (path exploration, invariant inference, term rewriting) and the '
    'solvers z3 and cvc5',
    'pv/npf.py, pv/arr.py, pv/dtf.py: the contracts assumed of numpy, of '
    'Python numbers and of datetime',
    'the mechanical instrumentation of pv/loader.py (loops, comprehensions, '
    'string formatting, docstrings dropped)',
]
ASSUME = [
    'numbers are mathematical reals extended with NaN and infinities; '
    'rounding, overflow and 64-bit integer wrap-around are not modelled',
    'loops are proved partially correct: termination is assumed',
]
