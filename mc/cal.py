"""boring calendar arithmetic and reference averages, independent of pandas/cftime/xarray"""
import math

ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(cal, y):
    if cal in ('noleap', '365_day'):
        return False
    if cal in ('all_leap', '366_day'):
        return True
    if cal == 'julian':
        return y % 4 == 0
    if cal in ('standard', 'gregorian') and y < 1582:
        return y % 4 == 0
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def dim(cal, y, m):
    if cal == '360_day':
        return 30
    return ML[m - 1] + (1 if m == 2 and leap(cal, y) else 0)


def add_minutes(cal, t, minutes):
    """t = (y, m, d, H, M)"""
    y, m, d, H, M = t
    tot = H * 60 + M + minutes
    days, rem = divmod(int(tot), 1440)
    d += days
    while d > dim(cal, y, m):
        d -= dim(cal, y, m)
        m += 1
        if m == 13:
            y, m = y + 1, 1
    while d < 1:
        m -= 1
        if m == 0:
            y, m = y - 1, 12
        d += dim(cal, y, m)
    return (y, m, d, rem // 60, rem % 60)


def add_months(t, n):
    y, m, d, H, M = t
    k = y * 12 + m - 1 + n
    return (k // 12, k % 12 + 1, d, H, M)


def clamp(cal, t):
    return t[:2] + (min(t[2], dim(cal, t[0], t[1])),) + t[3:]


def series(cal, start, step, n):
    """n time stamps from start; step = ('M', k) or ('min', k)"""
    out, t = [], start
    for i in range(n):
        out.append(clamp(cal, t))
        t = add_months(start, (i + 1) * step[1]) if step[0] == 'M' else add_minutes(cal, t, step[1])
    return out


def bin_of(freq, t):
    """start of the period that contains t"""
    y, m, d, H, _ = t
    if freq == 'hour':
        return (y, m, d, H, 0)
    if freq == 'day':
        return (y, m, d, 0, 0)
    if freq == 'month':
        return (y, m, 1, 0, 0)
    if freq == 'year':
        return (y, 1, 1, 0, 0)
    if freq == 'season':
        k = y * 12 + m - 1
        k -= (m % 12) % 3
        return (k // 12, k % 12 + 1, 1, 0, 0)
    raise KeyError(freq)


def minutes_in(cal, freq, b):
    if freq == 'hour':
        return 60
    if freq == 'day':
        return 1440
    n = {'month': 1, 'season': 3, 'year': 12}[freq]
    tot = 0
    for i in range(n):
        y, m = add_months(b, i)[:2]
        tot += dim(cal, y, m) * 1440
    return tot


def next_bin(cal, freq, b):
    return add_minutes(cal, b, minutes_in(cal, freq, b))


def center(cal, freq, b):
    """(y, m, d, H, M) half way through the period"""
    return add_minutes(cal, b, minutes_in(cal, freq, b) // 2)


def all_bins(cal, freq, times):
    b, last, out = bin_of(freq, times[0]), bin_of(freq, times[-1]), []
    while b <= last:
        out.append(b)
        b = next_bin(cal, freq, b)
    return out


NAN = float('nan')


def mean(v):
    v = [x for x in v if not math.isnan(x)]
    return math.fsum(v) / len(v) if v else NAN


def monthly(cal, times, vals):
    """ordered list of (month bin, mean of valid values)"""
    acc = {}
    for t, v in zip(times, vals):
        acc.setdefault(bin_of('month', t), []).append(v)
    return [(b, mean(v)) for b, v in sorted(acc.items())]


def wmean(cal, months):
    num = den = 0.0
    for b, v in months:
        if not math.isnan(v):
            w = dim(cal, b[0], b[1])
            num += w * v
            den += w
    return num / den if den else NAN


def calendar_average(cal, times, vals, freq):
    """list of (bin, value), one per period from the first to the last"""
    bins = all_bins(cal, freq, times)
    if freq in ('season', 'year'):
        mm = monthly(cal, times, vals)
        acc = {}
        for b, v in mm:
            acc.setdefault(bin_of(freq, b), []).append((b, v))
        return [(b, wmean(cal, acc.get(b, []))) for b in bins]
    acc = {}
    for t, v in zip(times, vals):
        acc.setdefault(bin_of(freq, t), []).append(v)
    return [(b, mean(acc.get(b, []))) for b in bins]


def group_key(freq, t):
    return {'hour': (t[1], t[2], t[3]), 'day': (t[1], t[2]), 'month': (t[1],), 'year': (t[0],)}[freq]


SEASONS = {s: [(i + k - 1) % 12 + 1 for k in range(3)] for i, s in
           enumerate(['JFM', 'FMA', 'MAM', 'AMJ', 'MJJ', 'JJA', 'JAS', 'ASO', 'SON', 'OND', 'NDJ', 'DJF'], start=1)}


def climatology(cal, times, vals, freq):
    """list of (group key, value) in calendar order"""
    acc = {}
    for t, v in zip(times, vals):
        acc.setdefault(group_key(freq, t), []).append(v)
    return [(k, mean(v)) for k, v in sorted(acc.items())]


def season_climatology(cal, times, vals, season):
    mm = [(b, v) for b, v in monthly(cal, times, vals) if b[1] in SEASONS[season]]
    return wmean(cal, mm)


def anomaly(cal, times, vals, freq):
    if freq == 'season':
        name = {m: s for s in ('DJF', 'MAM', 'JJA', 'SON') for m in SEASONS[s]}
        c = {s: season_climatology(cal, times, vals, s) for s in ('DJF', 'MAM', 'JJA', 'SON')}
        return [v - c[name[t[1]]] for t, v in zip(times, vals)]
    if freq == 'year':
        c = {b[0]: v for b, v in calendar_average(cal, times, vals, 'year')}
        return [v - c[t[0]] for t, v in zip(times, vals)]
    c = dict(climatology(cal, times, vals, freq))
    return [v - c[group_key(freq, t)] for t, v in zip(times, vals)]


def month_to_season(cal, times, vals, season):
    """list of ((y, m, 1, 0, 0) of the centre month, mean of the valid months present)"""
    have = {}
    for t, v in zip(times, vals):
        have[(t[0], t[1])] = v
    mid = SEASONS[season][1]
    out = []
    for (y, m) in sorted(have):
        if m == mid:
            three = [add_months((y, m, 1, 0, 0), k)[:2] for k in (-1, 0, 1)]
            out.append(((y, m, 1, 0, 0), mean([have.get(q, NAN) for q in three])))
    return out


# ------------------------------------------------------------------ building xarray input
def to_index(cal, times, kind):
    import numpy as np
    if kind == 'np':
        return np.array(['%04d-%02d-%02dT%02d:%02d' % t for t in times], dtype='datetime64[ns]')
    import cftime
    cls = {'standard': cftime.DatetimeGregorian, 'noleap': cftime.DatetimeNoLeap, '360_day': cftime.Datetime360Day,
           'all_leap': cftime.DatetimeAllLeap, 'julian': cftime.DatetimeJulian,
           'proleptic_gregorian': cftime.DatetimeProlepticGregorian}[cal]
    return np.array([cls(*t) for t in times])


def stamp(v):
    """(y, m, d, H, M) of a numpy or cftime time stamp"""
    import numpy as np
    if isinstance(v, np.datetime64):
        s = str(v.astype('datetime64[m]'))
        return (int(s[:4]), int(s[5:7]), int(s[8:10]), int(s[11:13]), int(s[14:16]))
    return (v.year, v.month, v.day, v.hour, v.minute)
