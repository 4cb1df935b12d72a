"""climatology_average values"""
import itertools
import numpy as np, xarray as xr
from ..core import Prop
from .. import cal as K
from ..climdata import *

NAMES = list(K.SEASONS)


class C06(Prop):
    id = 'C06'
    title = 'climatology_average pools every year of each hour, day, month or season'
    oracle = 'pure-Python grouping; seasons are day-weighted means of monthly means over the requested three months'

    def bounds_text(self, tier):
        return ('7 calendar encodings x 12 starts x 8 samplings x hour/day/month/season x 8 layouts x 8 missing patterns; '
                'all 12 custom seasons singly, as string and list, all ordered pairs, and longer lists')

    def scenarios(self, tier):
        th = tier == 'thorough'
        for cal in CALS:
            for st in STARTS:
                if not ok_np(dict(cal=cal, start=st)):
                    continue
                for step, n, fr in [('month', 30, 'month'), ('month', 12, 'month'), ('center', 25, 'month'), ('day', 800, 'month'), ('day', 800, 'day'), ('day', 400, 'day'),
                                    ('5day', 200, 'day'), ('6h', 1600, 'hour'), ('6h', 1500, 'day'), ('hour', 100, 'hour'), ('eom', 27, 'month'), ('eom', 26, 'season'), ('30min', 150, 'hour'), ('8h', 200, 'day'), ('quarter', 9, 'month'), ('12h', 70, 'hour'), ('2day', 600, 'month'),
                                    ('month', 36, 'season'), ('month', 13, 'season'), ('center', 27, 'season'), ('day', 760, 'season'), ('5day', 160, 'season'), ('6h', 1700, 'season')]:
                    if step == 'quarter' and STARTS[st][2:] != (1, 0, 0):
                        continue
                    a = dict(cal=cal, start=st, step=step, n=n, freq=fr)
                    if th:
                        for lay in LAYOUTS:
                            yield vary_as(a, lay)
                    elif n <= 300 or (st in ('jan', 'leap', 'feb15', 'sep30', 'y1') and pick([0, 1], 'use', cal, st, step, n, fr)):
                        yield vary(a)
        # custom seasons: every single season and every ordered pair
        for cal, st in [('noleap', 'jan'), ('standard', 'sep30'), ('np', 'leap')]:
            base = dict(cal=cal, start=st, step='month', n=36, freq='season', lay='c', tdim='time', pas=0)
            for a in NAMES:
                yield dict(base, seasons=a)
                yield dict(base, seasons=[a])
                yield dict(base, seasons=a, lay='ds', start='dec')
                for b in NAMES:
                    if th or cal == 'noleap':
                        yield dict(base, seasons=[a, b])
            yield dict(base, seasons=NAMES)
            yield dict(base, seasons=NAMES[::-1], lay='3d')
            yield dict(base, seasons=['DJF', 'JJA', 'DJF'])
            yield dict(base, seasons=[])

    def run(self, s, R):
        import geocat.comp as gc
        o, cal, times, vals, ext = build(s)
        kw = {}
        if s['tdim'] != 'time' and s['pas']:
            kw['time_dim'] = s['tdim']
        if 'seasons' in s:
            kw['custom_seasons'] = s['seasons']
        v = R.value(R.call(gc.climatology_average, o, s['freq'], **kw), 'call')
        if v is None:
            return
        if not R.true(type(v) is type(o), 'type', f'{type(v).__name__} for {type(o).__name__}'):
            return
        tol = dict(rtol=1e-9, atol=1e-9) if s['lay'] not in ('f4', 'mixed') else dict(rtol=1e-4, atol=1e-4)
        if s['freq'] == 'season':
            names = s.get('seasons') or ['DJF', 'JJA', 'MAM', 'SON']
            if isinstance(names, str):
                names = [names]
            exp = np.array([[K.season_climatology(cal, times, vals[:, j], q) for j in range(vals.shape[1])] for q in names])
            if not R.equal([str(q) for q in v['season'].values], list(names), 'season-labels'):
                return
            R.close(ext(v, 'season'), exp, 'values:season', **tol)
        else:
            e = [K.climatology(cal, times, vals[:, j], s['freq']) for j in range(vals.shape[1])]
            exp = np.array([[x[1] for x in col] for col in e]).T
            R.close(ext(v, s['tdim']), exp, f"values:{s['freq']}", **tol)
            key = {'month': slice(1, 2), 'day': slice(1, 3), 'hour': slice(1, 4)}[s['freq']]
            R.equal([K.stamp(t)[key] for t in v[s['tdim']].values], [k for k, _ in e[0]], 'labels')


PROP = C06()
