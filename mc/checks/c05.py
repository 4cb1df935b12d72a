"""time labels of period averages"""
import numpy as np, xarray as xr
from ..core import Prop
from .. import cal as K
from ..cal import stamp
from ..climdata import *
from .c04 import C04


class C05(Prop):
    id = 'C05'
    title = 'Averages are stamped at the exact centre of their period, in the data calendar'
    oracle = 'calendar arithmetic: midpoint of period start and next period start'

    def bounds_text(self, tier):
        return '7 calendar encodings x 12 start dates x record lengths 3..29 months (every length; thorough ..130) and daily/sub-daily records; calendar and climatology averages at every frequency'

    def scenarios(self, tier):
        hi = 30 if tier == 'quick' else 131
        # long daily records, other units of time, Datasets and chunked data
        for cal in CALS:
            for st in ('jan', 'leap', 'sep30', 'y999'):
                if ok_np(dict(cal=cal, start=st)):
                    yield dict(cal=cal, start=st, step='day', n=3700, what='calendar', freqs=['month', 'season', 'year', 'day'])
                    yield dict(cal=cal, start=st, step='month', n=420, what='calendar', freqs=['month', 'season', 'year'])
                    yield dict(cal=cal, start=st, step='day', n=3700, what='climatology', freqs=['month', 'day'])
        for cal in ('np', 'noleap', 'standard'):
            for form in ('s', 'ms', 'us', 'ds', 'chunk', 'other', 'attrs'):
                for step, n, what, freqs in [('month', 26, 'calendar', ['month', 'season', 'year']), ('day', 130, 'calendar', ['day', 'month', 'year']),
                                             ('month', 31, 'climatology', ['month']), ('day', 800, 'climatology', ['day', 'month']), ('hour', 60, 'climatology', ['hour'])]:
                    yield dict(cal=cal, start='leap', step=step, n=n, what=what, freqs=freqs, form=form)
        for cal in CALS:
            for st in STARTS:
                if not ok_np(dict(cal=cal, start=st)):
                    continue
                for n in range(3, hi):
                    yield dict(cal=cal, start=st, step='month' if n % 2 else 'center', n=n, what='calendar', freqs=['month', 'season', 'year'])
                for step, n in [('day', 60), ('day', 130), ('6h', 200), ('2day', 80), ('12h', 99), ('hour', 50), ('eom', 17), ('quarter', 9), ('2month', 13), ('30min', 70)] + ([('day', 800), ('5day', 300)] if tier != 'quick' else []):
                    if step in ('quarter', '2month') and STARTS[st][2:] != (1, 0, 0):
                        continue
                    yield dict(cal=cal, start=st, step=step, n=n, what='calendar',
                               freqs=['month', 'season', 'year'] + (['day'] if step not in ('2day', '5day', 'eom', 'quarter', '2month') else []) + (['hour'] if step in ('hour', '30min') else []))
                for step, n, fr in [('month', 12, 'month'), ('month', 31, 'month'), ('month', 5, 'month'), ('center', 16, 'month'), ('eom', 27, 'month'), ('30min', 70, 'hour'), ('day', 40, 'day'), ('day', 420, 'day'),
                                    ('day', 800, 'day'), ('day', 800, 'month'), ('6h', 90, 'hour'), ('hour', 60, 'hour'), ('hour', 60, 'day'), ('2day', 300, 'day'), ('12h', 800, 'hour')]:
                    yield dict(cal=cal, start=st, step=step, n=n, what='climatology', freqs=[fr])

    def run(self, s, R):
        import geocat.comp as gc
        cal, times = times_of(s)
        idx = K.to_index(cal, times, 'np' if s['cal'] == 'np' else 'cf')
        o = xr.DataArray(np.arange(float(len(times))), dims=['time'], coords={'time': idx})
        form = s.get('form')
        if form in ('s', 'ms', 'us') and s['cal'] == 'np':
            o = o.assign_coords(time=idx.astype(f'datetime64[{form}]'))
        elif form == 'ds':
            o = xr.Dataset({'a': o, 'b': o * 2})
        elif form == 'chunk':
            o = o.chunk({'time': 7})
        elif form == 'attrs':
            o['time'].attrs.update(standard_name='time', axis='T', bounds='time_bnds')
            o['time'].encoding.update(units='hours since 1800-01-01', calendar='standard')
        td = 'time'
        if form == 'other':
            td = 'when'
            o = o.rename(time=td)
        kw = {} if td == 'time' else {'time_dim': td}
        for f in s['freqs']:
            if s['what'] == 'calendar':
                v = R.value(R.call(gc.calendar_average, o, f, **kw), f)
                if v is None:
                    return
                if s['n'] < 2:
                    continue
                got = [stamp(t) for t in v[td].values]
                R.equal(got, [K.center(cal, f, b) for b in K.all_bins(cal, f, times)], f'calendar:{f}')
                t0 = v[td].values[0]
                if s['cal'] == 'np':
                    R.true(isinstance(t0, np.datetime64), 'calendar-type', type(t0).__name__)
                else:
                    R.true(getattr(t0, 'calendar', None) == cal, 'calendar-kept', f'{t0!r}')
            else:
                v = R.value(R.call(gc.climatology_average, o, f, **kw), 'clim:' + f)
                if v is None:
                    return
                got = [stamp(t) for t in v[td].values]
                keys = [k for k, _ in K.climatology(cal, times, np.arange(float(len(times))), f)]
                y = got[0][0]
                R.true(all(g[0] == y for g in got), 'one-year', f'{sorted({g[0] for g in got})}')
                R.true(times[0][0] <= y <= times[-1][0], 'year-in-record', f'{y} not in {times[0][0]}..{times[-1][0]}')
                bins = [(y,) + (k + (1, 0, 0))[:4 - 0] if f == 'month' else (y,) + k + (0, 0) if f == 'day' else (y,) + k + (0,) for k in keys]
                bins = [b[:5] for b in bins]
                R.equal(got, [K.center(cal, f, b) for b in bins], f'climatology:{f}')
                t0 = v[td].values[0]
                if not isinstance(t0, np.datetime64):
                    c = t0.calendar
                    R.true(c == cal or {c, cal} <= {'standard', 'gregorian'}, 'calendar-kept', f'{t0!r} {c}')


PROP = C05()
