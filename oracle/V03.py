"""Concrete contract of the rotation to the destination pole."""
import math

import numpy as np

from ocbpy import vectors as vc

RULE = ('random and special vectors at data/pole geometries in both '
        'hemispheres; non-trivial: aligned poles, no horizontal vector, NaN '
        'elements, given or missing quadrants, integers, mixed shapes, every '
        'quadrant pair')
NAN = float('nan')
NAMES = ('vect_lt', 'vect_lat', 'vect_n', 'vect_e', 'vect_z', 'pole_lt',
         'pole_lat', 'pole_angle')


def one(rng):
    a = rng.choice([0.0, 6.0, 12.5, rng.uniform(-30, 60)])
    b = a + rng.choice([0.0, 12.0, -12.0, 24.0, 36.0, 6.0, 18.0, 11.9, 12.1,
                        rng.uniform(-40, 40), rng.uniform(0, 24)])
    h = rng.choice([1, -1])
    la, lb = h * rng.choice([60.0, 80., rng.uniform(40, 89)]), h * rng.choice(
        [90.0, 80., rng.uniform(40, 90)])
    p = rng.choice([0.0, 180.0, 90.0, 45.0, 135.0, 89.999, 90.001,
                    rng.uniform(0, 180), rng.uniform(0, 180),
                    rng.uniform(.1, 20)])

    def comp():
        return rng.choice([0.0, 1.0, -1.0, -250.0, rng.uniform(-900, 900),
                           rng.uniform(-900, 900), rng.uniform(-1, 1)])
    n, e, z = comp(), comp(), comp()
    v = [a, la, n, e, z, b, lb, p]
    if rng.random() < .15:
        v[rng.choice([0, 1, 2, 3, 4, 5, 6, 7])] = NAN
    return v


def cases(rng, tier, hints):
    for h in hints:
        v = [h.get(k) for k in NAMES]
        v = [x if isinstance(x, (int, float)) else z for x, z in
             zip(v, (0., 70., 3., 4., 1., 2., 85., 30.))]
        if h.get('nan?vect_z'):
            v[4] = NAN
        for sc in (0, 1023):
            for q in range(4):
                yield {'v': [v, v], 'sc': sc, 'q': q}
                yield {'v': [v, one(rng)], 'sc': sc, 'q': q}
    while True:
        n = rng.choice([1, 1, 2, 3, 6])
        v = [one(rng) for _ in range(n)]
        if rng.random() < .15:
            for w in v:
                for i in range(5):
                    w[i] = 0.0 if w[i] != w[i] else float(int(w[i]))
            it = 1
        else:
            it = 0
        yield {'v': v, 'it': it, 'q': rng.randrange(4), 'sc': rng.choice(
            [0, 0, 0, 1023, 1023, rng.randrange(1024)]),
            'part': rng.random() < .2}


def quad(west, south):
    return {(0, 0): 1, (1, 0): 2, (1, 1): 3, (0, 1): 4}[int(west),
                                                        int(south)]


def pole_q(a, b, p):
    if a != a or b != b or p != p:
        return 0
    return quad(np.remainder(b - a, 24.) >= 12, p >= 90)


def vect_q(n, e):
    return 0 if n != n or e != e else quad(e < 0, n < 0)


def check(c):
    v = [[NAN if x is None else x for x in k] for k in c['v']]
    m, sc = len(v), c['sc']
    cols = [list(k) for k in zip(*v)]
    full, args = [], []
    for i in range(8):
        x = cols[i]
        if sc >> i & 1:
            x = [x[0]] * m
        full.append(x)
    qs = []
    for j, f in ((0, lambda i: vect_q(full[2][i], full[3][i])),
                 (1, lambda i: pole_q(full[0][i], full[5][i], full[7][i]))):
        q = [f(i) if c['q'] >> j & 1 else 0 for i in range(m)]
        if c.get('part') and m > 1:
            q[-1] = 0
        one_ = sc >> (8 + j) & 1
        if one_ and len(set(q)) > 1:
            one_ = 0
        qs.append((q, one_))
    if sc != 1023 and all(o for _, o in qs) and (sc & 255) == 255:
        qs[0] = (qs[0][0], 0)
    scal = []
    for i in range(8):
        s = sc >> i & 1
        x = full[i]
        if c.get('it') and i < 5:
            x = [int(k) for k in x]
        args.append(x[0] if s else np.array(x))
        scal.append(s)
    qa = [q[0] if o else np.array(q) for q, o in qs]
    call = args[:5] + [qa[0]] + args[5:8] + [qa[1]]
    allsc = all(np.ndim(x) == 0 for x in call)
    if allsc:
        m = 1
    keep = [np.array(x, copy=True) for x in call]
    ok = [all(full[k][i] == full[k][i] for k in (0, 2, 3, 5, 7)) and
          not (full[2][i] == 0 and full[3][i] == 0) and
          full[7][i] not in (0, 180) for i in range(m)]
    try:
        r = vc.adjust_vector(*call)
    except ValueError as e:
        if 'undefined' in str(e) and not any(ok):
            return None
        raise
    for x, y in zip(call, keep):
        if not np.array_equal(np.array(x), y, equal_nan=True):
            return 'an input was modified'
    shape = () if allsc else (m,)
    for x in r:
        if np.shape(x) != shape:
            return 'shape %r, expected %r' % (np.shape(x), shape)
    rn, re, rz = [np.ravel(x) for x in r]
    for i in range(m):
        a, la, n, e, z, b, lb, p = [full[k][i] for k in range(8)]
        got = (rn[i], re[i], rz[i])
        txt = '(n, e, z)=%r at %r h, %r deg with the pole at %r h, %r deg, ' \
            'angle %r' % ((n, e, z), a, la, b, lb, p)
        tol = 1e-6 * (1 + sum(abs(x) for x in (n, e) if x == x))
        if n == 0 and e == 0:
            if got[0] != 0 or got[1] != 0 or bad(got[2], z, 0):
                return 'no horizontal vector gives %r from %s' % (got, txt)
            continue
        if p in (0, 180):
            w = aligned(a, la, b, lb, p)
            if bad(got[2], z, 0) or (w is not None and (
                    bad(got[0], w * n, tol) or bad(got[1], w * e, tol))):
                return 'aligned vector gives %r from %s' % (got, txt)
            continue
        if not ok[i]:
            if not (math.isnan(got[0]) and math.isnan(got[1])):
                return 'undefined vector gives %r from %s' % (got, txt)
            continue
        k = 1 if pole_q(a, b, p) in (1, 4) else -1
        cp, sp = math.cos(math.radians(p)), k * math.sin(math.radians(p))
        want = (n * cp + e * sp, e * cp - n * sp)
        if any(math.isnan(x) or abs(x - y) > tol for x, y in zip(got, want)):
            return 'rotated to %r, expected %r from %s' % (got, want, txt)
        if bad(got[2], z, 0):
            return 'vertical %r from %s' % (got[2], txt)
    return None


def bad(x, y, tol):
    if y != y:
        return x == x
    return not abs(x - y) <= tol


def aligned(a, la, b, lb, p):
    if p == 0:
        if la != la or lb != lb:
            return None
        return 1 if abs(la) < abs(lb) else None
    if a != a or b != b:
        return 1
    d = np.remainder(b - a, 24.)
    return -1 if d == 0 else (1 if 1e-6 < d < 24 - 1e-6 else None)
