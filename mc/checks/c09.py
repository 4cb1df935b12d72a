"""C09 metadata of climatology results: attributes, coordinates, kind of container"""
import numpy as np, xarray as xr
from ..core import Prop, product
from .. import climdata as D

CASES = [('calendar_average', f) for f in ('hour', 'day', 'month', 'season', 'year')] + \
        [('climatology_average', f) for f in ('hour', 'day', 'month', 'season', 'custom')] + \
        [('climate_anomaly', f) for f in ('day', 'month', 'season', 'year')] + \
        [('month_to_season', f) for f in ('DJF', 'JJA', 'NDJ')]


class P(Prop):
    id = 'C09'
    oracle = 'attribute sets, coordinates, container and laziness expected from the keep_attrs rule, written down without the code'
    assumptions = ['names of DataArrays, attributes of data variables inside a Dataset (anomalies drop them) and attributes of '
                   'coordinates are not claimed; nor are the extra season coordinate of seasonal anomalies, what becomes of auxiliary coordinates along time '
                   'in averages, and variables without time in anomalies']

    def bounds_text(self, tier):
        return 'every climatology function x frequency x keep_attrs in {unset,True,None,False} x attribute sets x layouts x calendars x time name inferred/explicit'

    def scenarios(self, tier):
        th = tier == 'thorough'
        for (fn, f) in CASES:
            for s in product(lay=['c', 'cT', '3d', 'ds', 'chunk'] + (['f4', 'i8', '1d'] if th else []),
                             cal=['np', 'noleap'] + (['standard', '360_day', 'julian'] if th else []),
                             tdim=['time', 'tt'], given=[True, False], attrs=['some', 'empty', 'clash'],
                             step=['month', 'day', '6h'] if th else ['month', 'day'],
                             start=['jan', 'sep30'] if th else ['jan']):
                if f in ('hour',) and s['step'] != '6h' and not (s['step'] == 'day' and not th):
                    continue
                if s['step'] == 'month' and f in ('day', 'hour'):
                    continue
                if fn == 'month_to_season' and (s['step'] != 'month' or s['start'] != 'jan'):
                    continue
                if s['start'] == 'sep30' and s['step'] == 'month':
                    continue
                if f == 'hour' and not th and s['lay'] not in ('c', 'ds'):
                    continue
                if not th and s['step'] == 'day' and (s['lay'] not in ('c', 'ds') or s['cal'] != 'np' or s['attrs'] == 'empty' or s['given'] != (s['tdim'] == 'tt')):
                    continue
                if not th and s['cal'] != 'np' and (s['attrs'] == 'empty' or s['lay'] in ('3d', 'cT')):
                    continue
                s.update(fn=fn, freq=f, n={'month': 24, 'day': 40 if f == 'hour' else 430, '6h': 500}[s['step']])
                yield s

        # auxiliary coordinates, labels, and the option of xarray next to the argument
        for (fn, f) in CASES:
            if f in ('hour', 'day'):
                st, n = ('day', 430) if f == 'day' else ('6h', 300)
            else:
                st, n = 'month', 24
            for s in product(lay=['aux', 'mixed', 'big', 'secs', 'c', 'ds'], cal=['np', 'noleap', 'standard'], tdim=['time', 'tt'], opt=[None, True, False]):
                if (s['lay'] not in ('aux', 'c', 'ds') and s['opt'] is not None) or (s['lay'] in ('c', 'ds') and s['opt'] is None):
                    continue
                if n > 250 and not th and (s['cal'] == 'standard' or s['tdim'] == 'tt'):
                    continue
                s.update(fn=fn, freq=f, n=n, step=st, start='jan', given=s['tdim'] == 'tt', attrs='some')
                yield s

    def run(self, s, R):
        import xarray as xr
        with xr.set_options(**({} if s.get('opt') is None else {'keep_attrs': s['opt']})):
            self.run_(s, R)

    def run_(self, s, R):
        import geocat.comp as gc
        fn, f = getattr(gc, s['fn']), s['freq']
        for ka in ('unset', True, None, False) if s.get('opt') is not False else (True, False):
            o, cal, times, vals, ext = D.build(s)
            td = s['tdim']
            if s['attrs'] == 'empty':
                o.attrs = {}
            elif s['attrs'] == 'clash':
                # same names as the attributes of the time coordinate, other values
                o.attrs = {'standard_name': 'air_temperature', 'axis': 'none', 'units': 'K', 'n': 3}
            if td == 'tt' and s['given']:
                o[td].attrs.clear()
            want = {} if ka is False else dict(o.attrs)
            kw = {} if ka == 'unset' else {'keep_attrs': ka}
            if s['given']:
                kw['time_coord_name' if s['fn'] == 'month_to_season' else 'time_dim'] = td
            if f == 'custom':
                r = R.value(R.call(fn, o, 'season', custom_seasons=['JFM', 'OND'], **kw), 'call')
            else:
                r = R.value(R.call(fn, o, f, **kw), 'call')
            if r is None:
                return
            R.equal(type(r).__name__, type(o).__name__, 'container')
            R.equal(dict(r.attrs), want, f'attrs keep_attrs={ka}')
            if isinstance(o, xr.Dataset):
                R.equal(sorted(r.data_vars), sorted(o.data_vars), 'variables')
                if ka is False:
                    for v in o.data_vars:
                        R.equal(dict(r[v].attrs), {}, 'variable attrs keep_attrs=False')
                elif s['fn'] != 'climate_anomaly':
                    for v in o.data_vars:
                        if not (s.get('opt') is False and f in ('season', 'custom', 'year')):
                            R.equal(dict(r[v].attrs), dict(o[v].attrs), f'variable attrs keep_attrs={ka}')
            newdim = 'season' if (s['fn'] == 'climatology_average' and f in ('season', 'custom')) else td
            pairs = [(r[v], o[v]) for v in o.data_vars] if isinstance(o, xr.Dataset) else [(r, o)]
            for a, b in pairs:
                if td not in b.dims:
                    # variables without time: their value whatever the period (the averages may repeat it along time)
                    if s['fn'] != 'climate_anomaly':
                        bb = np.broadcast_to(b.values, a.transpose(..., *b.dims).shape) if b.dims else np.full(a.shape, b.values)
                        aa = a.transpose(..., *b.dims).values
                        if f == 'hour':     # hours without data in between
                            bb = np.where(np.isnan(aa), np.nan, bb)
                        R.close(aa, bb, 'variable without time', rtol=1e-12)
                    continue
                R.equal(sorted(a.dims), sorted(newdim if d == td else d for d in b.dims), 'dims')
                for d in b.dims:
                    if d != td and d in a.dims:
                        R.equal(a.sizes[d], b.sizes[d], 'size of other dims')
            for c in o.coords:
                if td in o[c].dims and (c == td or s['fn'] != 'climate_anomaly'):
                    continue
                R.true(c in r.coords, 'coordinate lost', c)
                if c in r.coords:
                    R.equal(r[c].dims, o[c].dims, 'coordinate dims', )
                    R.equal(r[c].dtype.kind in 'OUT', o[c].dtype.kind in 'OUT', 'coordinate type')
                    R.equal(np.asarray(r[c].values).tolist(), np.asarray(o[c].values).tolist(), f'coordinate values {c}')
            if newdim == 'season':
                R.equal([str(x) for x in r['season'].values], ['JFM', 'OND'] if f == 'custom' else ['DJF', 'JJA', 'MAM', 'SON'], 'season labels')
            else:
                R.true(newdim in r.coords, 'time coordinate lost')
                if s['fn'] == 'climate_anomaly':
                    R.equal(r[td].shape, o[td].shape, 'anomaly time size')
                    R.true(bool((r[td].values == o[td].values).all()), 'anomaly time stamps', '')
            if s['lay'] == 'chunk':
                R.true(r.chunks is not None, 'laziness', 'a chunked input was computed eagerly')


PROP = P()
