"""Boundary objects for the concrete contracts."""
import datetime as dt
import math

import numpy as np

from ocbpy import _boundary, ocb_correction

METHODS = ['none', 'const', 'circ', 'ellip', 'harm', 'own', 'mixed']
T0 = dt.datetime(2000, 5, 5, 11, 35, 27)


def own(mlt, a=1.0, b=0.5):
    """A user supplied correction that depends on the local time."""
    return a + b * np.cos(np.asarray(mlt) * np.pi / 12.0)


def rnd(rng, sp, lo, hi):
    return rng.choice(sp) if rng.random() < .35 else rng.uniform(lo, hi)


def spec(rng, cls=None, hemi=None, n=None):
    """A JSON description of a boundary object."""
    n = rng.choice([1, 2, 3, 5]) if n is None else n
    cls = cls or rng.choice(['OCBoundary', 'EABoundary'])
    hemi = hemi or rng.choice([1, -1])
    return {'cls': cls, 'hemi': hemi,
            'blat': rnd(rng, [74.0, 64.0, 80.0], 55, 85),
            'phi': [rnd(rng, [0., 90., 180., 270., 359.9], 0, 360)
                    for _ in range(n)],
            'rc': [rnd(rng, [0., 4.], 0, 10) for _ in range(n)],
            'r': [rnd(rng, [14., 10.], 8, 28) for _ in range(n)],
            'fom': [rng.uniform(0, 20) for _ in range(n)],
            'sec': sorted(rng.sample(range(0, 86400, 60), n)),
            'rf': [rng.choice(METHODS)] * n if rng.random() < .6 else
            [rng.choice(METHODS) for _ in range(n)],
            'rec': rng.randrange(n)}


def corr(kind, mlt):
    """Correction value, as the functions of ocbpy give it."""
    if kind == 'none':
        return 0.0
    if kind == 'const':
        return 2.5
    if kind == 'circ':
        return 0.0
    if kind == 'ellip':
        return float(ocb_correction.elliptical(mlt, instrument='ampere',
                                               method='gaussian'))
    if kind == 'harm':
        return float(ocb_correction.harmonic(mlt, method='median'))
    if kind == 'own':
        return float(own(mlt))
    return float(own(mlt, a=-1.0, b=2.0))


def func(kind):
    return {'none': (ocb_correction.circular, {}),
            'const': (ocb_correction.circular, {'r_add': 2.5}),
            'circ': (ocb_correction.circular, {'r_add': 0.0}),
            'ellip': (ocb_correction.elliptical,
                      {'instrument': 'ampere', 'method': 'gaussian'}),
            'harm': (ocb_correction.harmonic, {'method': 'median'}),
            'own': (own, {}), 'mixed': (own, {'a': -1.0, 'b': 2.0})}[kind]


def fill(o, d):
    n = len(d['r'])
    o.records = n
    o.rec_ind = d['rec']
    o.dtime = np.array([T0 + dt.timedelta(seconds=s) for s in d['sec']])
    o.phi_cent = np.array(d['phi'])
    o.r_cent = np.array(d['rc'])
    o.r = np.array(d['r'])
    o.fom = np.array(d['fom'])
    o.rfunc = np.array([func(k)[0] for k in d['rf']])
    o.rfunc_kwargs = np.array([func(k)[1] for k in d['rf']])
    return o


def build(d):
    o = getattr(_boundary, d['cls'])(
        filename=None, instrument=d.get('inst', ''), hemisphere=d['hemi'],
        boundary_lat=d['blat'] * d['hemi'])
    return fill(o, d)


def position(d, lat, mlt, i=None):
    """Boundary coordinates of a magnetic location, or None outside."""
    i = d['rec'] if i is None else i
    h = d['hemi']
    if lat != lat or mlt != mlt or lat * h <= 0:
        return None
    th = math.radians(mlt * 15.)
    ph = math.radians(d['phi'][i])
    p = 90. - h * lat
    rc = corr(d['rf'][i], mlt)
    k = (90. - d['blat']) / (d['r'][i] + rc)
    x = (p * math.cos(th) - d['rc'][i] * math.cos(ph)) * k
    y = (p * math.sin(th) - d['rc'][i] * math.sin(ph)) * k
    return x, y, rc


def back(d, olat, omlt, rc, i=None):
    i = d['rec'] if i is None else i
    h = d['hemi']
    th = math.radians(omlt * 15.)
    ph = math.radians(d['phi'][i])
    k = (d['r'][i] + rc) / (90. - d['blat'])
    p = (90. - h * olat) * k
    return (p * math.cos(th) + d['rc'][i] * math.cos(ph),
            p * math.sin(th) + d['rc'][i] * math.sin(ph))


def at(x, y, h, lat, mlt, tol=1e-7):
    """Whether latitude and local time name the point (x, y)."""
    if not 0. <= mlt < 24. or h * lat > 90. + tol:
        return False
    p = 90. - h * lat
    th = math.radians(mlt * 15.)
    return math.hypot(p * math.cos(th) - x, p * math.sin(th) - y) < tol


def state(o):
    out = {}
    for k, v in o.__dict__.items():
        out[k] = (v.tolist() if isinstance(v, np.ndarray) else v)
    return repr(sorted(out.items(), key=lambda t: t[0]))


LAT = [0.0, 90.0, 80.0, 74.0, 65.0, 45.0, -80.0, -90.0, -60.0, float('nan')]
MLT = [0.0, 6.0, 12.0, 18.0, 24.0, -6.0, 23.999, 30.0, 6, float('nan')]


def locs(rng, n, hemi):
    lat = [rng.choice(LAT) if rng.random() < .3 else
           hemi * rng.uniform(40, 90) * (1 if rng.random() < .9 else -1)
           for _ in range(n)]
    mlt = [rng.choice(MLT) if rng.random() < .4 else rng.uniform(-30, 54)
           for _ in range(n)]
    return lat, mlt


def same(a, b, tol=1e-7):
    return (a != a and b != b) or abs(a - b) < tol


def shaped(vals, mode):
    """One of the accepted ways to hand over values."""
    if mode == 'scalar':
        return vals[0]
    if mode == 'list':
        return list(vals)
    if mode == '0d':
        return np.array(vals[0])
    if mode == 'int':
        return np.array([0 if v != v else int(round(v)) for v in vals])
    return np.array(vals, float)


# ------------------------------------------------- stand-in for aacgmv2
#
# The conversions of the library are assumed; here they are replaced by fast
# invertible functions of everything they get, so that a wrong time, height,
# flag or order of arguments shows.

def _flags(method):
    return frozenset(str(method).upper().split('|')) - {'', 'G2A', 'A2G'}


def _ab(h, fl, t):
    a = 1. - 2e-5 * h - (.01 if 'TRACE' in fl else 0.) - (
        .013 if 'GEOCENTRIC' in fl else 0.) - 1e-4 * t.hour
    b = 20. + .01 * h + (3. if 'ALLOWTRACE' in fl else 0.) + (
        5. if 'GEOCENTRIC' in fl else 0.) + .01 * t.minute
    return a, b


def _one(*xs):
    xs = [np.asarray(x, float) for x in xs]
    if any(x.ndim > 1 for x in xs):
        raise ValueError('unable to process multi-dimensional arrays')
    return np.broadcast_arrays(*[np.atleast_1d(x) for x in xs])


def bend(lat, a):
    return np.sign(lat) * 90. * (abs(lat) / 90.) ** a


def f_convert(lat, lon, height, dtime, method_code='G2A'):
    lat, lon, height = _one(lat, lon, height)
    fl = _flags(method_code)
    a, b = _ab(height, fl, dtime)
    if 'A2G' in str(method_code).upper():
        out = np.where(abs(lat) < 90., bend(lat, 1. / a), lat * .9 * a), (
            lon - b + 180.) % 360. - 180.
    else:
        out = bend(lat, a), (lon + b + 180.) % 360. - 180.
    return np.array(out[0]), np.array(out[1]), 1. + height / 6371.


def f_mlt(arr, dtime, m2a=False):
    arr, = _one(arr)
    ut = dtime.hour + dtime.minute / 60. + dtime.second / 3600. + 4.5
    if m2a:
        out = ((arr - ut) * 15. + 180.) % 360. - 180.
        return out if len(out) == 1 else list(out)
    return (arr / 15. + ut) % 24.


def f_coord(lat, lon, height, dtime, method='ALLOWTRACE'):
    fl = str(method).upper() + '|G2A'
    a, b, _ = f_convert(lat, lon, height, dtime, fl)
    return a, b, f_mlt(b, dtime)


def fake():
    import aacgmv2
    for m in (aacgmv2, aacgmv2.wrapper):
        m.convert_latlon_arr = f_convert
        m.get_aacgm_coord_arr = f_coord
        m.convert_mlt = f_mlt
        m.convert_latlon = lambda *a, **k: tuple(
            float(x[0]) for x in f_convert(*a, **k))
        m.get_aacgm_coord = lambda *a, **k: tuple(
            float(x[0]) for x in f_coord(*a, **k))


def pair(rng, n=None, m=None, hemi=None, step=30, span=20):
    """JSON description of a dual boundary object."""
    hemi = hemi or rng.choice([1, -1])
    out = {'delta': rng.choice([1, 30, 60, 60, 100])}
    for k, cls in (('ocb', 'OCBoundary'), ('eab', 'EABoundary')):
        num = n if k == 'ocb' else m
        num = rng.choice([1, 2, 3, 6]) if num is None else num
        d = spec(rng, cls=cls, hemi=hemi, n=max(num, 1))
        d['blat'] = rng.uniform(72, 80) if k == 'ocb' else \
            rng.uniform(58, 68)
        sec = rng.sample(range(span * 4), num)
        d['sec'] = sorted(s * step // 4 for s in sec)
        for x in ('phi', 'rc', 'r', 'fom', 'rf'):
            d[x] = d[x][:num]
        d['fom'] = [rng.choice([0., 1., 2., 3.]) for _ in range(num)]
        d['rec'] = rng.randrange(-1, num + 1) if num else -1
        out[k] = d
    return out


def build_dual(d):
    return _boundary.DualBoundary(eab=build(d['eab']), ocb=build(d['ocb']),
                                  eab_lat=d['eab']['blat'],
                                  ocb_lat=d['ocb']['blat'],
                                  max_delta=d['delta'])


def edge(d, mlt, i):
    """AACGM latitude of the boundary at a local time, NaN if undefined;
    None close to the limit of being defined."""
    if mlt != mlt:
        return float('nan')
    a = math.radians(mlt * 15. - d['phi'][i])
    s = d['r'][i] + corr(d['rf'][i], mlt % 24.)
    q = s * s - (d['rc'][i] * math.sin(a)) ** 2
    if abs(q) < 1e-6:
        return None
    if q < 0:
        return float('nan')
    rad = d['rc'][i] * math.cos(a) + math.sqrt(q)
    if abs(rad) < 1e-6:
        return None
    return d['hemi'] * (90. - rad) if rad > 0 else float('nan')


def pairing(b, lo=None, hi=None, crit=None, elo=None, ehi=None, ecrit=None):
    """Good records of both boundaries."""
    from oracle_util import OPS
    out = []
    for k, x, y, cr in (('ocb', lo, hi, crit), ('eab', elo, ehi, ecrit)):
        d = b[k]
        at = {'r': d['r'], 'r_cent': d['rc'], 'fom': d['fom'],
              'phi_cent': d['phi']}
        out.append([i for i in range(len(d['r']))
                    if (x is None or d['fom'][i] >= x) and
                    (y is None or d['fom'][i] <= y) and
                    all(OPS[op](at[z][i], v)
                        for z, (op, v) in (cr or {}).items() if z in at)])
    return out


def paired(rng):
    """A dual boundary with some pairs, not of equal record numbers."""
    d = pair(rng, n=rng.choice([1, 2, 3]), m=1)
    n = len(d['ocb']['r'])
    d['delta'] = 60
    d['ocb']['sec'] = [300 * k for k in range(n)]
    d['ocb']['fom'] = [1.] * n
    sec = []
    for k in range(n):
        if k == 0 or rng.random() < .8:
            sec.append(300 * k + rng.choice([0, 0, 20, -20]))
        if rng.random() < .4:
            sec.append(300 * k + 150)
    e = spec(rng, cls='EABoundary', hemi=d['ocb']['hemi'], n=len(sec))
    e.update(sec=sec, fom=[1.] * len(sec), blat=d['eab']['blat'], rec=0)
    e['r'] = [rng.uniform(22, 35) for _ in sec]
    if rng.random() < .2:
        e['rc'] = [rng.uniform(8, 40) for _ in sec]
    if rng.random() < .2:
        d['ocb']['rc'] = [rng.uniform(8, 30) for _ in range(n)]
    d['eab'] = e
    d['ocb']['rec'] = 0
    return d


def bounds_of(o):
    """The boundary locations a dual object holds."""
    out = []
    for b in (o.ocb, o.eab):
        for a in ('lat', 'mlt'):
            x = getattr(b, 'aacgm_boundary_' + a, None)
            out.append(None if x is None else [
                None if y is None else np.array(y, copy=True) for y in x])
    return out


def bounds_after(c, o, was, mlt, edges, over, used):
    """What is wrong with the boundary locations kept by a call."""
    now = bounds_of(o)
    if not used:
        if repr(now) != repr(was):
            return 'boundary locations changed without need'
        return None
    for k, b in enumerate((o.ocb, o.eab)):
        rec = b.rec_ind
        for z in (0, 1):
            new = now[2 * k + z]
            old = was[2 * k + z] or [None] * b.records
            if new is None or len(new) != b.records:
                return 'boundary locations missing'
            for i in range(b.records):
                if i != rec or (not over and old[i] is not None):
                    if repr(new[i]) != repr(old[i]):
                        return 'kept boundary locations changed'
                elif new[i] is None:
                    return 'no boundary location was set'
                elif z == 0:
                    for x, y in zip(np.ravel(new[i]), edges[k]):
                        if y is not None and not same(x, y):
                            return 'boundary latitude %r, expected %r' % (
                                x, y)
    return None


def rest(o):
    """State of a dual boundary without the boundary locations."""
    out = []
    for b in (o.ocb, o.eab):
        keep = {k: v for k, v in b.__dict__.items()
                if not k.startswith('aacgm_boundary_')}
        for k, v in list(keep.items()):
            keep[k] = v.tolist() if isinstance(v, np.ndarray) else v
        out.append(repr(sorted(keep.items())))
    for k in sorted(o.__dict__):
        if k not in ('ocb', 'eab'):
            out.append((k, repr(o.__dict__[k])))
    return out
