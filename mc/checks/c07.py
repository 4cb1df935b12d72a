"""climate_anomaly"""
import numpy as np, xarray as xr
from ..core import Prop
from .. import cal as K
from ..climdata import *


class C07(Prop):
    id = 'C07'
    title = 'climate_anomaly is the data minus its own period mean, step by step'
    oracle = 'pure-Python: value minus the climatological (day, month, season) or yearly mean of its group'

    def bounds_text(self, tier):
        return ('7 calendar encodings x 12 starts x day/month/season/year x 7 samplings x 8 layouts x 8 missing patterns; records of up to 230 years')

    def scenarios(self, tier):
        th = tier == 'thorough'
        for cal in CALS:
            for st in STARTS:
                if not ok_np(dict(cal=cal, start=st)):
                    continue
                for step, n, fr in [('month', 30, 'month'), ('center', 25, 'month'), ('day', 800, 'month'), ('day', 800, 'day'), ('day', 400, 'day'), ('12h', 900, 'day'), ('eom', 27, 'month'), ('eom', 26, 'season'), ('eom', 25, 'year'), ('8h', 200, 'day'), ('quarter', 9, 'month'),
                                    ('5day', 200, 'day'), ('2day', 600, 'month'), ('month', 36, 'season'), ('center', 15, 'season'), ('day', 760, 'season'),
                                    ('month', 31, 'year'), ('day', 760, 'year'), ('6h', 1600, 'year'), ('month', 2500, 'year')]:
                    if step == 'quarter' and STARTS[st][2:] != (1, 0, 0):
                        continue
                    if n == 2500 and (cal not in ('noleap', 'np', 'standard') or st not in ('jan', 'c1900', 'leap')):
                        continue
                    a = dict(cal=cal, start=st, step=step, n=n, freq=fr)
                    if th and n < 2000:
                        for lay in LAYOUTS:
                            yield vary_as(a, lay)
                    elif n <= 300 or (st in ('jan', 'leap', 'feb15', 'sep30', 'y999') and pick([0, 1], 'use', cal, st, step, n, fr)):
                        yield vary(a)
        for st in ('jan', 'c1900'):
            for cal in ('np', 'noleap', 'standard', '360_day'):
                yield dict(cal=cal, start=st, step='month', n=2500, freq='year', lay='1d', tdim='time', pas=0, col='full')

    def run(self, s, R):
        import geocat.comp as gc
        o, cal, times, vals, ext = build(s)
        kw = {}
        if s['tdim'] != 'time' and s['pas']:
            kw['time_dim'] = s['tdim']
        v = R.value(R.call(gc.climate_anomaly, o, s['freq'], **kw), 'call')
        if v is None:
            return
        if not R.true(type(v) is type(o), 'type', f'{type(v).__name__} for {type(o).__name__}'):
            return
        tol = dict(rtol=1e-9, atol=1e-9) if s['lay'] not in ('f4', 'mixed') else dict(rtol=1e-4, atol=1e-4)
        exp = np.array([K.anomaly(cal, times, vals[:, j], s['freq']) for j in range(vals.shape[1])]).T
        R.equal([K.stamp(t) for t in v[s['tdim']].values], [tuple(t) for t in times], 'labels')
        R.close(ext(v, s['tdim']), exp, f"values:{s['freq']}", **tol)


PROP = C07()
