"""calendar_average values"""
import numpy as np, xarray as xr
from ..core import Prop
from .. import cal as K
from ..climdata import *


class C04(Prop):
    id = 'C04'
    title = 'calendar_average gives each period the correctly weighted mean of its data'
    oracle = 'pure-Python binning by calendar arithmetic; months averaged over valid steps, seasons/years weighted by days per month'
    freqs = ['hour', 'day', 'month', 'season', 'year']

    def bounds_text(self, tier):
        return ('7 calendar encodings x 12 start dates (years 1..2020, mid-month, leap, century) x 9 samplings x record lengths x 5 frequencies '
                'x 8 layouts x 8 missing-value patterns per record (thorough: full product and longer records)')

    def axis(self, tier):
        """(cal, start, step, n)"""
        th = tier == 'thorough'
        for cal in CALS:
            for st in STARTS:
                for step, ns in [('month', (12, 13, 25) if not th else (12, 13, 24, 25, 29, 37, 60)), ('center', (14,) if not th else (12, 14, 36)),
                                 ('day', (70, 430) if not th else (70, 366, 430, 800, 1500)), ('6h', (260,) if not th else (260, 900)),
                                 ('2day', (100,) if not th else (100, 400)), ('5day', (90,)), ('12h', (150,) if not th else (150, 700)),
                                 ('eom', (14, 25)), ('2month', (14,)), ('quarter', (9,)), ('30min', (100,)), ('8h', (95,)),
                                 ('hour', (80,) if not th else (80, 800)), ('3h', (40,))]:
                    if step in ('2month', 'quarter') and STARTS[st][2:] != (1, 0, 0):
                        continue
                    for n in ns:
                        yield dict(cal=cal, start=st, step=step, n=n)

    def coarse_enough(self, step, f):
        order = ['hour', 'day', 'month', 'season', 'year']
        need = {'eom': 2, '2month': 2, 'quarter': 3, '30min': 0, '8h': 1, 'month': 2, 'center': 2, 'day': 1, '12h': 1, '6h': 1, '3h': 1, '2day': 2, '5day': 2, 'hour': 0}[step]
        return order.index(f) >= need

    def scenarios(self, tier):
        for a in self.axis(tier):
            if not ok_np(a):
                continue
            for f in self.freqs:
                if not self.coarse_enough(a['step'], f):
                    continue
                if f == 'hour' and a['n'] > 300:
                    continue
                b = dict(a, freq=f)
                if tier == 'thorough':
                    for lay in LAYOUTS if a['n'] < 500 else ['c', 'cT']:
                        yield vary_as(b, lay)
                else:
                    yield vary(b)

    def run(self, s, R):
        import geocat.comp as gc
        o, cal, times, vals, ext = build(s)
        kw = {}
        if s['tdim'] != 'time' and s['pas']:
            kw['time_dim'] = s['tdim']
        v = R.value(R.call(gc.calendar_average, o, s['freq'], **kw), 'call')
        if v is None:
            return
        if not R.true(type(v) is type(o), 'type', f'{type(v).__name__} for {type(o).__name__}'):
            return
        e = [K.calendar_average(cal, times, vals[:, j], s['freq']) for j in range(vals.shape[1])]
        exp = np.array([[x[1] for x in col] for col in e]).T
        tol = dict(rtol=1e-9, atol=1e-9) if s['lay'] not in ('f4', 'mixed') else dict(rtol=1e-4, atol=1e-4)
        R.close(ext(v, s['tdim']), exp, f"values:{s['freq']}", **tol)
        R.equal([stamp(t) for t in v[s['tdim']].values], [K.center(cal, s['freq'], b) for b, _ in e[0]], 'labels')


from ..cal import stamp
PROP = C04()
