"""Concrete contract evaluator: runs the real code under CPython.

Each oracle module defines
    RULE            text
    cases(rng, tier, hints)   iterable of JSON-able case dicts
    check(case)     None, or a message, or (signature, message)
"""
import argparse
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, float)):
        return float(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    return x if isinstance(x, (int, str, bool, type(None))) else str(x)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--hints')
    ap.add_argument('--out')
    ap.add_argument('--budget', type=float, default=25)
    ap.add_argument('--replay')
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    rng = random.Random(a.seed)
    t0 = time.time()
    m = importlib.import_module(a.pid)
    signal.signal(signal.SIGALRM, _alarm)
    if a.replay:
        d = json.load(open(a.replay))
        bad = 0
        for v in d['failing_inputs']:
            r = evaluate(m, v['case'])
            print(json.dumps(v['case'])[:400], '->', r)
            bad |= r is not None
        for f in d['failed_obligations']:
            print('obligation', f['obligation'], f['outcome'],
                  f['detail'][:500])
        sys.exit(1 if bad else 0)
    hints = json.load(open(a.hints)) if a.hints else []
    n = 0
    seen = set()
    viol = []
    sigs = {}
    samples = []
    timeouts = 0
    for case in m.cases(rng, a.tier, hints):
        if time.time() - t0 > a.budget:
            break
        n += 1
        key = json.dumps(jsonable(case), sort_keys=True)
        case = json.loads(key)
        if key not in seen:
            seen.add(key)
        if len(samples) < 4 and rng.random() < 0.05 + (n < 3):
            samples.append(case if len(key) < 1500 else key[:1500])
        r = evaluate(m, case)
        if r is not None:
            sig, msg = r if isinstance(r, tuple) else ('', r)
            if sig == '#timeout':
                timeouts += 1
            k = sigs.get(sig, 0)
            sigs[sig] = k + 1
            if k < (3 if sig else 12):
                viol.append({'case': case, 'sig': sig, 'message': msg})
            if sigs.get('', 0) >= 12 or timeouts >= 2:
                break
    out = {'evaluations': n, 'distinct': len(seen), 'violations': viol,
           'samples': samples, 'rule': getattr(m, 'RULE', ''),
           'wall_s': time.time() - t0}
    if n == 0:
        out['crash'] = 'no cases were generated'
    if a.out:
        with open(a.out + '.tmp', 'w') as f:
            json.dump(out, f, default=str)
        os.rename(a.out + '.tmp', a.out)
    else:
        print(json.dumps(out, indent=1, default=str)[:6000])


def evaluate(m, case):
    signal.alarm(getattr(m, 'CASE_TIMEOUT', 20))
    try:
        return m.check(case)
    except Timeout:
        return ('#timeout', 'the call did not return within %d s'
                % getattr(m, 'CASE_TIMEOUT', 20))
    except Exception as e:
        return ('the code under test raised %s: %s\n%s' % (
            type(e).__name__, e, traceback.format_exc()[-1200:]))
    finally:
        signal.alarm(0)


if __name__ == '__main__':
    main()
