"""time-series scenarios shared by the climatology checks"""
import hashlib, math
import numpy as np, xarray as xr
from . import cal as K
from .core import gen

# (name, start stamp, step, n)   M = months, C = centre of consecutive months, min = minutes
STARTS = {
    'jan': (2001, 1, 1, 0, 0), 'leap': (2000, 1, 1, 0, 0), 'dec': (2003, 12, 1, 0, 0), 'feb15': (2004, 2, 15, 0, 0),
    'mar': (1999, 3, 1, 0, 0), 'sep30': (1999, 9, 30, 0, 0), 'y1': (1, 1, 1, 0, 0), 'y999': (999, 11, 1, 0, 0),
    'c1900': (1899, 12, 1, 0, 0), 'jul': (2019, 7, 1, 0, 0), 'nov': (2011, 11, 1, 0, 0), 'noon': (2020, 2, 1, 12, 0),
}
STEPS = {'month': ('M', 1), 'day': ('min', 1440), '12h': ('min', 720), '6h': ('min', 360), '2day': ('min', 2880), '5day': ('min', 7200),
         'hour': ('min', 60), 'center': ('C', 1), '3h': ('min', 180),
         'eom': ('E', 1), '2month': ('M', 2), 'quarter': ('M', 3), '30min': ('min', 30), '8h': ('min', 480), 'yearly': ('M', 12)}
CALS = ['np', 'standard', 'noleap', '360_day', 'all_leap', 'julian', 'proleptic_gregorian']


def times_of(s):
    cal = 'proleptic_gregorian' if s['cal'] == 'np' else s['cal']
    start, step = STARTS[s['start']], STEPS[s['step']]
    if s['cal'] == '360_day':
        start = start[:2] + (min(start[2], 30),) + start[3:]
    if step[0] == 'C':
        b = K.bin_of('month', start)
        return cal, [K.center(cal, 'month', K.add_months(b, i)) for i in range(s['n'])]
    if step[0] == 'E':   # last day of consecutive months
        ms = [K.add_months(start, i * step[1]) for i in range(s['n'])]
        return cal, [(y, m, K.dim(cal, y, m), H, M) for y, m, _, H, M in ms]
    return cal, K.series(cal, start, step, s['n'])


def ok_np(s):
    return s['cal'] != 'np' or STARTS[s['start']][0] > 1700


PATTERNS = ['full', 'none', 'third', 'first', 'month', 'season', 'year', 'last']


def columns(cal, times, nan=True):
    """one column per missing-value pattern"""
    n = len(times)
    base = gen((n, len(PATTERNS)), 7, -20, 35)
    months = sorted({K.bin_of('month', t) for t in times})
    seas = sorted({K.bin_of('season', t) for t in times})
    years = sorted({t[0] for t in times})
    m_mid = months[len(months) // 2]
    s_mid = seas[len(seas) // 2]
    y_mid = years[len(years) // 2]
    if not nan:
        return base
    for i, t in enumerate(times):
        base[i, 1] = np.nan
        if i % 3 == 1:
            base[i, 2] = np.nan
        if K.bin_of('month', t) == months[0]:
            base[i, 3] = np.nan
        if K.bin_of('month', t) == m_mid:
            base[i, 4] = np.nan
        if K.bin_of('season', t) == s_mid:
            base[i, 5] = np.nan
        if t[0] == y_mid:
            base[i, 6] = np.nan
        if K.bin_of('month', t) == months[-1]:
            base[i, 7] = np.nan
    return base


LAYOUTS = ['c', 'cT', '3d', '1d', 'ds', 'f4', 'i8', 'chunk', 'secs', 'mixed', 'aux', 'big', 'inf', 'bool']
BIG = 150   # columns of the 'big' layout, 8 patterns repeated with other values
INTS = ('i8', 'bool')


def build(s, attrs=True):
    """-> (object, cal, times, values (nt, ncol), extract(result, time_dim) -> (nt', ncol))"""
    cal, times = times_of(s)
    lay = s['lay']
    vals = columns(cal, times, nan=lay not in INTS)
    if s.get('nonan'):
        vals = columns(cal, times, nan=False)
    if lay == 'i8':
        vals = np.round(vals * 10).astype('i8')
    if lay == 'bool':
        vals = vals > 5
    if lay == 'inf':      # an infinite value among the others
        vals[len(times) // 2, 0] = np.inf
    if lay == 'big':
        vals = np.concatenate([vals + 0.37 * k for k in range(BIG)], axis=1)
    if lay == 'f4':
        vals = vals.astype('f4')
    td = s.get('tdim', 'time')
    idx = K.to_index(cal, times, 'np' if s['cal'] == 'np' else 'cf')
    at = {'units': 'K', 'long': 'x'} if attrs else {}
    if lay == 'secs' and s['cal'] == 'np':
        idx = idx.astype('datetime64[s]')
    co = {td: (td, idx, {'standard_name': 'time', 'axis': 'T'} if td != 'time' else {})}
    if lay == '1d':
        vals = vals[:, [PATTERNS.index(s.get('col', 'full'))]]
        o = xr.DataArray(vals[:, 0], dims=[td], coords=co, attrs=at, name='v')
        ext = lambda r, t: np.asarray(r.values, float)[:, None]
    elif lay == 'cT':
        o = xr.DataArray(vals.T, dims=['c', td], coords={**co, 'c': np.arange(vals.shape[1]) * 10}, attrs=at, name='v')
        ext = lambda r, t: np.asarray(r.transpose(t, 'c').values, float)
    elif lay == '3d':
        o = xr.DataArray(np.moveaxis(vals.reshape(len(times), 2, -1), 0, 1), dims=['lat', td, 'lon'],
                         coords={**co, 'lat': [10., -10.], 'lon': np.arange(vals.shape[1] // 2) * 1.0}, attrs=at, name='v')
        ext = lambda r, t: np.asarray(r.transpose(t, 'lat', 'lon').values, float).reshape(r.sizes[t], -1)
    elif lay == 'ds':
        o = xr.Dataset({'v': ((td, 'c'), vals[:, :4], at), 'w': (('c', td), vals[:, 4:].T, {'u2': 1})}, coords=co, attrs={'title': 'T'})
        ext = lambda r, t: np.concatenate([np.asarray(r['v'].transpose(t, 'c').values, float), np.asarray(r['w'].transpose(t, 'c').values, float)], axis=1)
    elif lay == 'mixed':  # variables of other kinds next to each other, some without time
        o = xr.Dataset({'v': ((td, 'c'), vals[:, :4], at), 'n': (('c',), np.arange(4) + 2.5), 'w': (('c', td), vals[:, 4:].T.astype('f4')),
                        'k': ((), 7.0), 'i': ((td,), np.arange(len(times)) % 13), 'b': ((td,), np.arange(len(times)) % 3 == 0)}, coords=co)
        vals = np.concatenate([vals[:, :4], vals[:, 4:].astype('f4').astype(float), (np.arange(len(times)) % 13)[:, None], (np.arange(len(times)) % 3 == 0)[:, None]], axis=1)
        ext = lambda r, t: np.concatenate([np.asarray(r['v'].transpose(t, 'c').values, float), np.asarray(r['w'].transpose(t, 'c').values, float),
                                           np.asarray(r['i'].values, float)[:, None], np.asarray(r['b'].values, float)[:, None]], axis=1)
    elif lay == 'aux':    # auxiliary coordinates, also along time and without any dimension
        o = xr.DataArray(vals, dims=[td, 'c'], attrs=at, name='v', coords={
            **co, 'c': [f'st{j}' for j in range(vals.shape[1])], 'lat2': ('c', np.arange(vals.shape[1]) * 1.5), 'height': 2.0, 'run': 'r1',
            'step_no': (td, np.arange(len(times)))})
        ext = lambda r, t: np.asarray(r.transpose(t, 'c').values, float)
    else:
        o = xr.DataArray(vals, dims=[td, 'c'], coords={**co, 'c': np.arange(vals.shape[1]) * 10}, attrs=at, name='v')
        if lay == 'chunk':
            o = o.chunk({td: max(1, len(times) // 3), 'c': 3})
        ext = lambda r, t: np.asarray(r.transpose(t, 'c').values, float)
    return o, cal, times, np.asarray(vals, float), ext


def pick(options, *key):
    """the same option for the same key; spreads evenly, without the resonance a counter has with the loop lengths"""
    return options[int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=6).digest(), 'big') % len(options)]


def vary(a):
    """one secondary variant of the scenario a: layout (half of them the plain one), name of time and how it is given, column"""
    lay = pick(['c'] * len(LAYOUTS) + LAYOUTS, 'lay', *sorted(a.items(), key=str))
    return vary_as(a, lay)


def vary_as(a, lay):
    s = dict(a, lay=lay, tdim=pick(['time', 'time', 'T0'], 'tdim', lay, *sorted(a.items(), key=str)), pas=pick([0, 1], 'pas', lay, *sorted(a.items(), key=str)))
    if lay == '1d':
        s['col'] = pick(PATTERNS, 'col', *sorted(a.items(), key=str))
    return s
