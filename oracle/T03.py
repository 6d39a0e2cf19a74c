"""Concrete contract of the time stamp conversions."""
import datetime as dt

import numpy as np

from ocbpy import ocb_time as ot

RULE = ('random and boundary instants written in every supported format and '
        'read back; non-trivial: the instant is next to a minute, day, leap '
        'day or year boundary, or has fractional seconds or trailing text')


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def cases(rng, tier, hints):
    for h in hints:
        if 'soy' in h:
            yield {'k': 'soy', 'y': min(9998, max(1, int(h.get('year',
                                                                2000)))),
                   's': h['soy']}
    edge = [0, 59, 60, 3599, 3600, 86399, 86400, 86401, 5184000, 5097600,
            31535999, 31536000, 31622399]
    while True:
        y = rng.choice([1900, 1999, 2000, 2001, 2004, 2100, rng.randint(
            1900, 2100), rng.randint(1000, 9998)])
        n = 366 if leap(y) else 365
        k = rng.choice(['soy', 'csoy', 'yd', 'ydsod', 'datesod', 'datetod',
                        'ydtod', 'long'])
        s = rng.choice(edge) if rng.random() < .4 else rng.randint(
            0, n * 86400 - 1)
        s %= n * 86400
        fr = rng.choice([0, 0, 0.25, 0.4, 0.6, 0.7, 0.9999, rng.random()])
        if k not in ('soy', 'csoy') and y < 1900:
            y += 1000
            s %= 365 * 86400
        yield {'k': k, 'y': y, 's': s + fr if fr else s,
               'f': rng.randrange(6), 'tail': rng.choice(
                   ['', '', '.25', 'Z', '.999999'])}


def check(c):
    y, s = c['y'], c['s']
    base = dt.datetime(y, 1, 1)
    exact = base + dt.timedelta(microseconds=round(s * 1e6))
    k = c['k']
    if k in ('soy', 'csoy'):
        r = ot.year_soy_to_datetime(y, s) if k == 'soy' else \
            ot.convert_time(year=y, soy=s)
        d = (r - base).total_seconds() - s
        if r.microsecond or abs(d) > 0.5 + 1e-6:
            return '%d + %r s became %s' % (y, s, r)
        return None
    day = int(s // 86400)
    sod = s - day * 86400
    if k in ('ydsod', 'datesod') and int(s) % 3 == 0:
        # seconds of day may run past the end of the day
        o = min(day, 1 + int(s) % 2)
        day, sod = day - o, sod + 86400 * o
    midnight = base + dt.timedelta(days=day)
    yd = '{:02d}{:03d}'.format(y - 1900, day + 1)
    if k == 'yd':
        for t in ('', '.0', '.99'):
            r = ot.yyddd_to_date(yd + t)
            if r != midnight:
                return '%s became %s' % (yd + t, r)
        try:
            ot.yyddd_to_date(int(yd))
            return 'a number was accepted as text'
        except ValueError:
            return None
    whole = dt.datetime(y, 1, 1) + dt.timedelta(days=day, seconds=int(sod))
    tod = whole.strftime('%H:%M:%S')
    date = '{:04d}'.format(y) + midnight.strftime('-%m-%d')
    fmts = [{}, {'datetime_fmt': '%Y-%m-%d'}, {'datetime_fmt': 'YYDDD'},
            {'datetime_fmt': 'yyddd SOD'}, {'datetime_fmt': 'SOD'},
            {'datetime_fmt': '%Y-%m-%d SOD'}]
    if k in ('ydsod', 'datesod'):
        if k == 'ydsod':
            r = ot.convert_time(yyddd=yd, sod=sod, **fmts[c['f']])
        else:
            r = ot.convert_time(date=date, sod=sod)
        d = (r - exact).total_seconds()
        if abs(d) > 1.6e-6:
            return '%s, %r s became %s' % (yd, sod, r)
        r = ot.convert_time(yyddd=yd) if k == 'ydsod' else ot.convert_time(
            date=date)
        if r != midnight:
            return '%s became %s' % (yd, r)
        return None
    if k == 'datetod':
        r = ot.convert_time(date=date, tod=tod + c['tail'])
    elif k == 'ydtod':
        r = ot.convert_time(yyddd=yd, tod=tod + c['tail'], **(
            {} if c['f'] % 2 else {'datetime_fmt': 'YYDDD %H:%M:%S'}))
    else:
        ln = ot.get_datetime_fmt_len('%Y-%m-%d %H:%M:%S')
        if ln < len(date + ' ' + tod):
            return 'format length %d is too short' % ln
        if c['f'] % 2:
            r = ot.convert_time(date=whole.strftime('%d/%m/%Y'), tod=tod,
                                datetime_fmt='%d/%m/%Y %H:%M:%S')
        else:
            r = ot.convert_time(date=date.replace('-', ''), tod=tod.replace(
                ':', ''), datetime_fmt='%Y%m%d %H%M%S')
    if r != whole:
        return '%s %s%s became %s' % (date, tod, c['tail'], r)
    return None
