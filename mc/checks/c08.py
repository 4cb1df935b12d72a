"""month_to_season"""
import numpy as np, xarray as xr
from ..core import Prop
from .. import cal as K
from ..climdata import *


class C08(Prop):
    id = 'C08'
    title = 'month_to_season yields one correct three-month mean per year of data'
    oracle = 'pure-Python: for each centre month in the record, mean of the valid months among itself and its neighbours'

    def bounds_text(self, tier):
        return '7 calendar encodings x every start month x 12..48 months x all 12 seasons x mid/first-of-month stamps x 8 layouts x 8 missing patterns'

    def scenarios(self, tier):
        for cal in CALS:
            for m in range(1, 13):
                for n in (12, 24, 36) if tier == 'quick' else (12, 24, 36, 48, 120):
                    for season in K.SEASONS:
                        key = (cal, m, n, season)
                        if tier == 'quick' and cal not in ('np', 'noleap') and pick([0, 1, 1], 'skip', *key):
                            continue
                        a = dict(cal=cal, m=m, n=n, season=season, step=pick(['center', 'month', 'month', 'eom'], 'step', *key),
                                 year=pick([1999, 2003, 2, 1899][:4 if cal != 'np' else 2], 'year', *key))
                        if tier != 'quick' and n < 100:
                            for lay in LAYOUTS:
                                yield vary_as(a, lay)
                        else:
                            yield vary(a)
        for n in (1, 3, 11, 13, 18, 25):
            yield dict(cal='noleap', m=1, step='month', n=n, season='JFM', lay='c', tdim='time', pas=0, year=2001, bad=1)
        for q in ('', 'jja', 'XYZ', 'DJFM', 'JF'):
            yield dict(cal='noleap', m=1, step='month', n=24, season=q, lay='c', tdim='time', pas=0, year=2001, bad=1)

    def run(self, s, R):
        import geocat.comp as gc
        STARTS['_%d_%d' % (s['year'], s['m'])] = (s['year'], s['m'], 1, 0, 0)
        s = dict(s, start='_%d_%d' % (s['year'], s['m']))
        o, cal, times, vals, ext = build(s)
        kw = {}
        if s['tdim'] != 'time' and s['pas']:
            kw['time_coord_name'] = s['tdim']
        c = R.call(gc.month_to_season, o, s['season'], **kw)
        if s.get('bad'):
            R.raises(c, 'invalid-accepted')
            return
        v = R.value(c, 'call')
        if v is None:
            return
        if not R.true(type(v) is type(o), 'type', f'{type(v).__name__} for {type(o).__name__}'):
            return
        e = [K.month_to_season(cal, times, vals[:, j], s['season']) for j in range(vals.shape[1])]
        R.equal([K.stamp(t) for t in v[s['tdim']].values], [b for b, _ in e[0]], 'season-stamps')
        exp = np.array([[x[1] for x in col] for col in e]).T
        tol = dict(rtol=1e-9, atol=1e-9) if s['lay'] not in ('f4', 'mixed') else dict(rtol=1e-4, atol=1e-4)
        R.close(ext(v, s['tdim']), exp, 'values', **tol)


PROP = C08()
