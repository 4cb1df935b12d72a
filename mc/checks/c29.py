"""C29 invalid options and inconsistent inputs are reported"""
import copy, itertools, string
import numpy as np, pandas as pd, xarray as xr
from ..core import Prop, gen, product
from .. import cal as K

BADF = ['', 'Month', 'MONTH', 'months', 'monthly', 'week', 'D', 'YS', 'seasons', 'decade', 'hourly', 'minute', ' day', 'day ', None, 1]
VALID = {'calendar_average': ['hour', 'day', 'month', 'season', 'year'], 'climatology_average': ['hour', 'day', 'month', 'season'],
         'climate_anomaly': ['day', 'month', 'season', 'year']}
ALSO = {'climatology_average': ['year'], 'climate_anomaly': ['hour'], 'calendar_average': []}
SEASONS = ['DJF', 'JFM', 'FMA', 'MAM', 'AMJ', 'MJJ', 'JJA', 'JAS', 'ASO', 'SON', 'OND', 'NDJ']
CALS = ['np', 'noleap', '360_day', 'standard']
LAYS = ['1d', '2d', 'ds', 'named']


def tdata(cal, lay, times):
    idx = K.to_index('proleptic_gregorian' if cal == 'np' else cal, times, 'np' if cal == 'np' else 'cf')
    n = len(times)
    t = 'date' if lay == 'named' else 'time'
    at = {'standard_name': 'time'} if lay == 'named' else {}
    if lay == '1d' or lay == 'named':
        return xr.DataArray(gen((n,)), dims=[t], coords={t: (t, idx, at)})
    if lay == '2d':
        return xr.DataArray(gen((2, n)), dims=['x', t], coords={t: (t, idx)})
    return xr.Dataset({'v': (('time',), gen((n,))), 'w': (('x', 'time'), gen((2, n)))}, coords={t: (t, idx)})


def monthly(cal, n, start=(2001, 1, 1, 0, 0)):
    return K.series('proleptic_gregorian' if cal == 'np' else cal, start, ('M', 1), n)


def daily(cal, n, start=(2003, 12, 29, 0, 0), step=1440):
    return K.series('proleptic_gregorian' if cal == 'np' else cal, start, ('min', step), n)


def snap(x):
    return copy.deepcopy(x)


def unchanged(R, a, b, sig='inputs unchanged'):
    for x, y in zip(a, b):
        if isinstance(x, (xr.DataArray, xr.Dataset)):
            R.true(x.identical(y), sig, repr(y)[:300])
        elif isinstance(x, np.ndarray):
            R.true(np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'), sig, repr(y)[:300])


class P(Prop):
    id = 'C29'
    oracle = 'the documented domains of the options, written down as sets and simple conditions on the arguments'
    assumptions = ['which exception type is raised is not claimed', 'arguments that are documented as ignored may have any value',
                   'shape mismatch of relhum and dewtemp is not claimed (numpy broadcasting applies)']

    def bounds_text(self, tier):
        return ('16 invalid frequencies (and those valid for another function only) x time name x calendar x layout; every dropped, shifted or repeated step of daily, 6-hourly and monthly '
                'records x all frequencies; all 500 three-letter strings over the month initials that are no season, for every position of a custom season list; record lengths 1..40; '
                'full products of the options of the interpolation functions; all type tuples and length mismatches of the hybrid functions; humidity outside 0..100 at every position')

    def scenarios(self, tier):
        for fn in VALID:
            for cal in CALS:
                for lay in LAYS:
                    for given in (0, 1):
                        yield dict(k='freq', fn=fn, cal=cal, lay=lay, given=given)
                    yield dict(k='notime', fn=fn, cal=cal, lay=lay)
        for fn in ('calendar_average', 'climatology_average'):
            for cal in CALS:
                for lay in LAYS:
                    for rec in ('day', '6h', 'month', 'center'):
                        for how in ('drop', 'shift', 'dup', 'swap'):
                            yield dict(k='uneven', fn=fn, cal=cal, lay=lay, rec=rec, how=how, every=int(tier == 'thorough' or lay == 'ds'))
        for cal in CALS:
            for lay in LAYS:
                yield dict(k='mts_len', cal=cal, lay=lay)
                for a in 'JFMASOND':
                    yield dict(k='season', cal=cal, lay=lay, a=a, lists=int(tier == 'thorough' or (cal, lay) in (('np', '1d'), ('noleap', 'ds'))))
                yield dict(k='season_other', cal=cal, lay=lay)
                yield dict(k='custom_warn', cal=cal, lay=lay)
        for ex in (False, True):
            for var in (None, 'temperature', 'geopotential', 'other', 'bad', 'Temperature', '', 'T'):
                for tb in (0, 1):
                    for ph in (0, 1):
                        for m in ('linear', 'log', 'cubic', '', 'Linear', None):
                            for ld in ('given', 'infer', 'none'):
                                for ch in (0, 1):
                                    yield dict(k='i2p', ex=ex, var=var, tb=tb, ph=ph, m=m, ld=ld, ch=ch)
        for mask in range(1, 16):
            for to in ('np', 'list', 'ds'):
                for ex in (0, 1):
                    yield dict(k='i2p_type', mask=mask, to=to, ex=ex)
        for m in ('linear', 'log', 'cubic', '', 'LOG', None):
            for ld in ('given', 'infer', 'none'):
                for ch in (0, 1):
                    yield dict(k='s2h', m=m, ld=ld, ch=ch)
        for la, lo, cyc, mv in itertools.product((0, 1), (0, 1), (0, 1), (None, 99.)):
            for m in ('linear', 'nearest', 'bogus'):
                yield dict(k='multi', lat=la, lon=lo, cyc=cyc, mv=mv, m=m)
        for fn in ('pressure_at_hybrid_levels', 'delta_pressure_hybrid'):
            for ty in itertools.product(('np', 'xr', 'list', 'float', 'ds'), repeat=3):
                yield dict(k='hyb_type', fn=fn, ty=list(ty))
            for a, b in itertools.product(range(1, 5), repeat=2):
                for ty in ('np', 'xr'):
                    for nd in (0, 1, 2):
                        yield dict(k='hyb_len', fn=fn, a=a, b=b, ty=ty, nd=nd)
            yield dict(k='hyb_misc', fn=fn)
        for c in ('np', 'xr', 'list'):
            for lt, ln in itertools.product((None, 1, 2), repeat=2):
                for dc in ('none', 'lat', 'lon', 'both'):
                    yield dict(k='grad', c=c, lat=lt, lon=ln, dc=dc)
        for c in ('np', 'list', 'xr', 'scalar', 'dask'):
            for nan in (0, 1):
                for alt in (False, True):
                    yield dict(k='hi', c=c, nan=nan, alt=alt)
        for fn in ('heat_index', 'relhum_ice', 'relhum_water', 'relhum', 'dewtemp'):
            yield dict(k='met_type', fn=fn)
        yield dict(k='daylight')
        for fn in ('delta_pressure', 'dpres_plev'):
            for lc in ('np', 'list', 'xr'):
                for desc in (0, 1):
                    for shape in ((), (1,), (3,), (2, 2), (2, 1, 2)):
                        for sc in ('np', 'xr'):
                            yield dict(k='dp', fn=fn, lc=lc, desc=desc, shape=list(shape), sc=sc)
        for ty in itertools.product(('da', 'ds', 'np', 'list'), repeat=2):
            yield dict(k='nmse_type', ty=list(ty))
        for c in ('da', 'ds'):
            yield dict(k='nmse', c=c)
        for fn in ('eofunc_eofs', 'eofunc_pcs'):
            for c in ('np', 'list', 'xr'):
                yield dict(k='eof', fn=fn, c=c)

    def run(self, s, R):
        import geocat.comp as gc
        getattr(self, 'k_' + s['k'])(s, R, gc)

    def bad(self, R, sig, args, fn, *a, **k):
        keep = snap(args)
        o = R.call(fn, *a, **k)
        R.raises(o, sig)
        R.obs(sig + repr(o))
        unchanged(R, keep, args)

    # ---- climatologies
    def k_freq(self, s, R, gc):
        f = getattr(gc, s['fn'])
        for times in (monthly(s['cal'], 24), daily(s['cal'], 40)):
            d = tdata(s['cal'], s['lay'], times)
            tk = {'time_dim': 'date' if s['lay'] == 'named' else 'time'} if s['given'] else {}
            for fr in BADF + ALSO[s['fn']]:
                if fr == 'hour' and s['fn'] == 'climate_anomaly':
                    continue
                kws = [{}, {'keep_attrs': True}]
                if s['fn'] == 'climatology_average':
                    kws += [{'custom_seasons': 'JJA'}, {'custom_seasons': ['DJF', 'JFM']}]
                for kw in kws:
                    self.bad(R, f'bad frequency', [d], f, d, fr, **tk, **kw)
            R.value(R.call(f, d, 'month', **tk), 'valid frequency')

    def k_notime(self, s, R, gc):
        f = getattr(gc, s['fn'])
        d = tdata(s['cal'], s['lay'], monthly(s['cal'], 24))
        t = 'date' if s['lay'] == 'named' else 'time'
        for fr in VALID[s['fn']]:
            nt = d.drop_vars(t)
            num = d.assign_coords({t: np.arange(24.0)})
            st = d.assign_coords({t: [f'a{i:02d}' for i in range(24)]})
            td = d.assign_coords({t: np.arange(24).astype('m8[D]').astype('m8[ns]')})
            for x, sig in ((nt, 'no time coordinate'), (num, 'numeric time'), (st, 'text time')):
                self.bad(R, sig, [x], f, x, fr)
                self.bad(R, sig + ' named', [x], f, x, fr, time_dim=t)
            self.bad(R, 'timedelta time', [td], f, td, fr, time_dim=t)
            self.bad(R, 'wrong time name', [d], f, d, fr, time_dim='nope')
            oth = d.expand_dims('q').assign_coords(q=[3.])
            self.bad(R, 'time name of another axis', [oth], f, oth, fr, time_dim='q')

    def k_uneven(self, s, R, gc):
        f = getattr(gc, s['fn'])
        cal, how, rec = s['cal'], s['how'], s['rec']
        n = 9
        times = {'day': lambda: daily(cal, n), '6h': lambda: daily(cal, n, step=360), 'month': lambda: monthly(cal, 14),
                 'center': lambda: [K.center('proleptic_gregorian' if cal == 'np' else cal, 'month', t) for t in monthly(cal, 14)]}[rec]()
        n = len(times)
        c2 = 'proleptic_gregorian' if cal == 'np' else cal
        for i in range(1, n - 1) if s['every'] else (1, n - 2):
            ts = list(times)
            if how == 'drop':
                del ts[i]
            elif how == 'shift':
                if rec in ('month', 'center'):
                    ts[i] = K.add_minutes(c2, ts[i], 40 * 1440) if i + 1 < n else ts[i]
                    ts.sort()
                else:
                    ts[i] = K.add_minutes(c2, ts[i], 30)
            elif how == 'dup':
                ts.insert(i, ts[i])
            else:
                ts[i], ts[i - 1] = ts[i - 1], ts[i]
            if how == 'swap':
                if rec in ('month', 'center'):
                    continue
            d = tdata(cal, s['lay'], ts)
            for fr in VALID[s['fn']]:
                self.bad(R, f'uneven spacing:{how}', [d], f, d, fr)
        d = tdata(cal, s['lay'], times)
        R.value(R.call(f, d, 'month'), 'even spacing')

    def k_mts_len(self, s, R, gc):
        for n in range(1, 41):
            d = tdata(s['cal'], s['lay'], monthly(s['cal'], n, (2001, 3, 1, 0, 0)))
            for se in SEASONS[::1 if n in (11, 13, 24) else 5]:
                if n % 12:
                    self.bad(R, 'not a multiple of 12', [d], gc.month_to_season, d, se)
                else:
                    R.value(R.call(gc.month_to_season, d, se), 'multiple of 12')

    def k_season(self, s, R, gc):
        d = tdata(s['cal'], s['lay'], monthly(s['cal'], 24))
        for b, c in itertools.product('JFMASOND', repeat=2):
            se = s['a'] + b + c
            if se in SEASONS:
                if s['lay'] == '2d':
                    R.value(R.call(gc.month_to_season, d, se), 'valid season')
                continue
            self.bad(R, 'bad season', [d], gc.month_to_season, d, se)
            self.bad(R, 'bad custom season', [d], gc.climatology_average, d, 'season', custom_seasons=se)
            i = (ord(b) + ord(c)) % 12
            for good in () if not s['lists'] else (SEASONS[i:i + 1], SEASONS[i:] + SEASONS[:2]):
                for pos in {0, len(good) // 2, len(good)}:
                    l = good[:pos] + [se] + good[pos:]
                    self.bad(R, 'bad season in custom list', [d], gc.climatology_average, d, 'season', custom_seasons=l)

    def k_season_other(self, s, R, gc):
        d = tdata(s['cal'], s['lay'], monthly(s['cal'], 24))
        for se in ('', 'djf', 'DJ', 'DJFM', 'D J F', 'winter', 'ANN', 'JJA ', None, 3, 'DJF,JJA', 'JAN'):
            self.bad(R, 'bad season', [d], gc.month_to_season, d, se)
            self.bad(R, 'bad season, time given', [d], gc.month_to_season, d, se, 'date' if s['lay'] == 'named' else 'time')
            if se:
                self.bad(R, 'bad custom season', [d], gc.climatology_average, d, 'season', custom_seasons=se if isinstance(se, str) else [se])
            self.bad(R, 'bad season in custom list', [d], gc.climatology_average, d, 'season', custom_seasons=['JJA', se])
        nt = d.drop_vars('date' if s['lay'] == 'named' else 'time')
        self.bad(R, 'no time coordinate', [nt], gc.month_to_season, nt, 'JJA')

    def k_custom_warn(self, s, R, gc):
        """custom seasons without a seasonal climatology: a warning, and no effect"""
        d = tdata(s['cal'], s['lay'], monthly(s['cal'], 24))
        dd = tdata(s['cal'], s['lay'], daily(s['cal'], 40, step=360))
        for fr in ('hour', 'day', 'month'):
            x = dd if fr == 'hour' else d
            ref = R.call(gc.climatology_average, x, fr)
            R.true(ref.ok and not any('custom_seasons' in str(w.message) for w in ref.warns), 'no warning without custom seasons', ref)
            for cs in ('JJA', ['DJF'], ['JJA', 'NDJ'], ['bogus']):
                o = R.call(gc.climatology_average, x, fr, custom_seasons=cs)
                R.true(any('custom_seasons' in str(w.message) for w in o.warns), 'warning about unused custom seasons', o)
                if o.ok and ref.ok:
                    R.true(o.value.identical(ref.value), 'unused custom seasons have no effect', o.value)
                elif cs != ['bogus']:
                    R.fail('unused custom seasons raised', repr(o))
        for cs in ('JJA', ['DJF', 'JJA']):
            o = R.call(gc.climatology_average, d, 'season', custom_seasons=cs)
            R.true(o.ok and not any('custom_seasons' in str(w.message) for w in o.warns), 'no warning for seasonal climatology', o)

    # ---- interpolation
    def col(self, ld='given', ch=0):
        from .. import hyb as H
        name = 'lev' if ld != 'none' else 'k'
        a, b = H.coef('mixed')
        at = {'positive': 'down', 'standard_name': 'atmosphere_hybrid_sigma_pressure_coordinate'} if ld == 'infer' else {}
        co = {name: (name, [1., 2., 3., 4.], at), 'x': [0., 1.]} if ld != 'none' else {'x': [0., 1.]}
        data = xr.DataArray(gen((4, 2), 3, 250, 300), dims=[name, 'x'], coords=co)
        ps = xr.DataArray([100000., 90000.], dims=['x'], coords={'x': [0., 1.]})
        if ch:
            data, ps = data.chunk({'x': 1}), ps.chunk({'x': 1})
        return data, ps, xr.DataArray(a, dims=[name]), xr.DataArray(b, dims=[name]), name

    def k_i2p(self, s, R, gc):
        data, ps, a, b, name = self.col(s['ld'], s['ch'])
        tb = xr.DataArray([290., 280.], dims=['x'], coords={'x': [0., 1.]}) if s['tb'] else None
        ph = xr.DataArray([100., 2000.], dims=['x'], coords={'x': [0., 1.]}) if s['ph'] else None
        kw = dict(new_levels=np.array([30000., 60000., 95000.]), extrapolate=s['ex'], variable=s['var'], t_bot=tb, phi_sfc=ph, method=s['m'])
        if s['ld'] == 'given':
            kw['lev_dim'] = name
        need = s['var'] in ('temperature', 'geopotential') and not (s['tb'] and s['ph'])
        bad = [n for n, c in (('variable missing', s['ex'] and s['var'] is None), ('companions missing', need),
                              ('unknown variable', s['var'] not in (None, 'temperature', 'geopotential', 'other')),
                              ('no vertical dimension', s['ld'] == 'none'), ('unknown method', s['m'] not in ('linear', 'log'))) if c]
        if bad == ['companions missing'] and not s['ex']:
            return
        if bad:
            keep = snap([data, ps, a, b])
            o = R.call(gc.interp_hybrid_to_pressure, data, ps, a, b, **kw)
            if o.ok:
                o = R.call(lambda: o.value.compute())
            R.raises(o, '+'.join(bad))
            unchanged(R, keep, [data, ps, a, b])
        else:
            v = R.value(R.call(lambda: gc.interp_hybrid_to_pressure(data, ps, a, b, **kw).compute()), 'valid options')
            if v is not None:
                R.equal(dict(v.sizes), {'plev': 3, 'x': 2}, 'sizes')

    def k_i2p_type(self, s, R, gc):
        data, ps, a, b, name = self.col()
        args = [data, ps, a, b]
        for i in range(4):
            if s['mask'] >> i & 1:
                args[i] = {'np': lambda x: x.values, 'list': lambda x: x.values.tolist(), 'ds': lambda x: x.to_dataset(name='v')}[s['to']](args[i])
        kw = dict(extrapolate=True, variable='other') if s['ex'] else {}
        R.raises(R.call(gc.interp_hybrid_to_pressure, *args, new_levels=np.array([50000.]), lev_dim='lev', **kw), 'containers')

    def k_s2h(self, s, R, gc):
        data, ps, a, b, name = self.col(s['ld'], 0)
        data = data.assign_coords({name: (name, [.1, .4, .7, .99], data[name].attrs if name in data.coords else {})}) if s['ld'] != 'none' else data
        sig = xr.DataArray([.1, .4, .7, .99], dims=[name], coords={name: [.1, .4, .7, .99]})
        if s['ch']:
            data, ps = data.chunk({'x': 1}), ps.chunk({'x': 1})
        kw = dict(method=s['m'])
        if s['ld'] == 'given':
            kw['lev_dim'] = name
        ok = s['m'] in ('linear', 'log') and s['ld'] != 'none'
        keep = snap([data, sig, ps, a, b])
        o = R.call(lambda: gc.interp_sigma_to_hybrid(data, sig, ps, a, b, **kw).compute())
        if ok:
            R.value(o, 'valid options')
        else:
            R.raises(o, 'no vertical dimension or unknown method')
        unchanged(R, keep, [data, sig, ps, a, b])

    def k_multi(self, s, R, gc):
        lat, lon = np.array([0., 10., 20.]), np.array([0., 90., 180., 270.])
        d = gen((3, 4), 1)
        kw = dict(lat_in=lat if s['lat'] else None, lon_in=lon if s['lon'] else None, cyclic=bool(s['cyc']), missing_val=s['mv'], method=s['m'])
        for data in (d, d.tolist(), gen((2, 3, 4), 2)):
            o = R.call(gc.interp_multidim, data, np.array([5., 15.]), np.array([10., 100.]), **kw)
            if s['lat'] and s['lon'] and s['m'] != 'bogus':
                if isinstance(data, np.ndarray):
                    R.value(o, 'valid')
            else:
                R.raises(o, 'coordinates of an array missing, or unknown method')
        if s['m'] == 'bogus':
            x = xr.DataArray(d, dims=['lat', 'lon'], coords={'lat': lat, 'lon': lon})
            self.bad(R, 'unknown method', [x], gc.interp_multidim, x, np.array([5.]), np.array([10.]), cyclic=bool(s['cyc']), missing_val=s['mv'], method='bogus')

    def k_hyb_type(self, s, R, gc):
        f = getattr(gc, s['fn'])
        mk = {'np': lambda v, d: np.array(v), 'xr': lambda v, d: xr.DataArray(v, dims=d), 'list': lambda v, d: list(v), 'float': lambda v, d: float(v[0]),
              'ds': lambda v, d: xr.Dataset({'v': (d, v)})}
        args = [mk[t](v, d) for t, v, d in zip(s['ty'], ([100000., 90000., 80000.], [.1, .2], [.3, .8]), (['x'], ['lev'], ['lev']))]
        ty = s['ty']
        if s['fn'] == 'pressure_at_hybrid_levels':
            ok = len(set(ty)) == 1 and ty[0] in ('np', 'xr')
        else:
            ok = set(ty) <= {'np', 'xr'} and ty[1] == ty[2]
        o = R.call(f, *args)
        if ok:
            R.value(o, 'valid containers')
        else:
            R.raises(o, 'containers')

    def k_hyb_len(self, s, R, gc):
        f = getattr(gc, s['fn'])
        if s['a'] == s['b']:
            return
        ps = gen((2, 3)[:s['nd']], 1, 80000, 100000)
        a, b = gen((s['a'],), 1), gen((s['b'],), 2)
        if s['ty'] == 'xr':
            ps = xr.DataArray(ps, dims=['x', 'y'][:s['nd']])
            a, b = xr.DataArray(a, dims=['lev']), xr.DataArray(b, dims=['lev'])
            # different names of the level dimension must not hide the mismatch
            self.bad(R, 'length of coefficients', [a, b], f, ps, a.rename(lev='lev2'), b)
        self.bad(R, 'length of coefficients', [ps, a, b], f, ps, a, b)

    def k_hyb_misc(self, s, R, gc):
        f = getattr(gc, s['fn'])
        ps, a = gen((2, 2), 1, 80000, 100000), gen((3,), 1)
        a2 = gen((3, 2), 2)
        self.bad(R, '2-d coefficients', [ps], f, ps, a2, a2)
        self.bad(R, '2-d against 1-d coefficients', [ps], f, ps, a2, a)
        self.bad(R, '1-d against 2-d coefficients', [ps], f, ps, a, a2)
        self.bad(R, '2-d coefficients', [ps], f, ps, gen((2, 2)), gen((2, 2)))
        if s['fn'] == 'delta_pressure_hybrid':
            for p0 in (None, '1000', [1e5], np.array([1e5, 2e5]), xr.DataArray([1e5]), 1 + 2j):
                self.bad(R, 'p0', [ps], f, ps, a, a, p0)
            x = xr.DataArray(a2, dims=['lev', 't'])
            self.bad(R, '2-d coefficients', [ps], f, xr.DataArray(ps, dims=['t', 'x']), x, x)

    # ---- gradient
    def k_grad(self, s, R, gc):
        lat1, lon1 = np.array([0., 10., 25.]), np.array([0., 20., 30., 50.])
        lon2, lat2 = np.meshgrid(lon1, lat1)
        d = gen((3, 4), 5)
        if s['c'] == 'xr':
            co = {k: ([k], v) for k, v in (('lat', lat1), ('lon', lon1)) if s['dc'] in (k, 'both')}
            d = xr.DataArray(d, dims=['lat', 'lon'], coords=co)
        elif s['dc'] != 'none':
            return
        elif s['c'] == 'list':
            d = d.tolist()
        lat = {None: None, 1: lat1, 2: lat2}[s['lat']]
        lon = {None: None, 1: lon1, 2: lon2}[s['lon']]
        own = s['c'] == 'xr' and s['dc'] == 'both'
        if lat is None or lon is None:
            ok = own
        else:
            ok = s['lat'] == s['lon']
        if s['c'] == 'list' and ok:
            return
        o = R.call(gc.gradient, d, lon, lat)
        if ok:
            R.value(o, 'valid coordinates')
        else:
            R.raises(o, 'coordinates missing or of different rank')
        if s['lat'] == s['lon'] == 1:
            # a row or a column of coordinates is not one-dimensional, though it has as many
            for lo, la in ((lon1[None], lat1), (lon1[:, None], lat1), (lon1, lat1[:, None]), (lon1, lat1[None]), (lon1[None, None], lat1), (lon1[None, None], lat1[None, None]), (lon1[0], lat1[0])):
                self.bad(R, 'coordinates of different or higher rank', [d] if s['c'] != 'list' else [], gc.gradient, d, np.asarray(lo), np.asarray(la))

    # ---- meteorology
    def k_hi(self, s, R, gc):
        base = [50., 0., 100., 30., 70., 13.]
        shapes = [(1,), (2,), (3,), (6,), (2, 3), (3, 2), (1, 2, 3)]
        if s['c'] == 'scalar':
            for v in (-1e-9, -5., 100.0001, 101., 1e6, -np.inf, np.inf):
                self.bad(R, 'humidity out of range', [], gc.heat_index, 85., v, s['alt'])
            for v in (0., 100., 50.):
                R.value(R.call(gc.heat_index, 85., v, s['alt']), 'humidity in range')
            return
        mk = {'np': np.asarray, 'list': lambda x: np.asarray(x).tolist(), 'xr': lambda x: xr.DataArray(x), 'dask': lambda x: xr.DataArray(x).chunk(1)}[s['c']]
        for sh in shapes:
            n = int(np.prod(sh))
            t = gen(sh, 1, 60, 110)
            ok = np.array(base[:n]).reshape(sh)
            if s['nan'] and n > 1:
                for j in range(n):
                    q = ok.copy(); q.flat[j] = np.nan
                    R.value(R.call(gc.heat_index, mk(t), mk(q), s['alt']), 'humidity in range')
            R.value(R.call(gc.heat_index, mk(t), mk(ok), s['alt']), 'humidity in range')
            for i in range(n):
                for v in (-1e-9, -5., 100.0001, 150., np.inf, -np.inf):
                    for j in (range(n) if s['nan'] else [None]):
                        if j == i:
                            continue
                        q = ok.copy(); q.flat[i] = v
                        if j is not None:
                            q.flat[j] = np.nan
                        a = [mk(t), mk(q)]
                        self.bad(R, 'humidity out of range', a, gc.heat_index, *a, s['alt'])
        # fractional humidity: a warning
        for v in ([.1, .5, 1.], [0., 0., 0.], [1., 1., 1.]):
            o = R.call(gc.heat_index, mk([80., 90., 70.]), mk(v), s['alt'])
            R.true(o.ok and any('fractional' in str(w.message) for w in o.warns), 'warning about fractional humidity', o)
        o = R.call(gc.heat_index, mk([80., 90., 70.]), mk([.5, .5, 1.01]), s['alt'])
        R.true(o.ok and not any('fractional' in str(w.message) for w in o.warns), 'no warning about proper humidity', o)

    def k_met_type(self, s, R, gc):
        f, fn = getattr(gc, s['fn']), s['fn']
        n = 2 if fn in ('heat_index', 'dewtemp') else 3
        v = {'heat_index': ([80., 90.], [40., 50.]), 'dewtemp': ([280., 290.], [40., 50.])}.get(fn, ([280., 290.], [.004, .005], [90000., 100000.]))
        mk = {'np': np.array, 'xr': xr.DataArray, 'list': list, 'float': lambda x: x[0]}
        for ty in itertools.product(mk, repeat=n):
            if len(set(ty)) == 1:
                R.value(R.call(f, *[mk[t](x) for t, x in zip(ty, v)]), 'same containers')
            elif fn in ('relhum', 'dewtemp'):
                if 'xr' in ty and fn == 'dewtemp':
                    self.bad(R, 'xarray mixed with other containers', [], f, *[mk[t](x) for t, x in zip(ty, v)])
            else:
                self.bad(R, 'mixed containers', [], f, *[mk[t](x) for t, x in zip(ty, v)])
        if fn in ('heat_index', 'relhum_ice', 'relhum_water'):
            for sh in itertools.product([(1,), (2,), (3,), (2, 1), (1, 2), (2, 2)], repeat=n):
                if len(set(sh)) == 1:
                    continue
                for c in ('np', 'list', 'xr'):
                    a = [mk[c](np.full(q, x[0])) if c != 'list' else np.full(q, x[0]).tolist() for q, x in zip(sh, v)]
                    self.bad(R, 'shapes', a, f, *a)

    def k_daylight(self, s, R, gc):
        for a, b in (((2, 2), (2,)), ((2,), (2, 2)), ((2, 2), (2, 2)), ((1, 1), (3,)), ((3,), (1, 1))):
            for c in (np.asarray, lambda x: np.asarray(x).tolist(), xr.DataArray):
                j, l = gen(a, 1, 1, 300), gen(b, 2, -50, 50)
                self.bad(R, 'rank above one', [], gc.max_daylight, c(j), c(l))
        for n in (1, 2, 3):
            for lats in itertools.product((-70., -66., -60., -55., 0., 55., 55.5, 66., 66.5), repeat=n):
                for c in (np.asarray, xr.DataArray):
                    o = R.call(gc.max_daylight, c([10., 200.]), c(list(lats)))
                    R.value(o, 'daylight')
                    text = ' '.join(str(w.message) for w in o.warns if 'daylight' in str(w.message))
                    m = [abs(x) for x in lats]
                    if all(55 < x <= 66 for x in m):
                        R.true('limited validity' in text and 'not possible' not in text, 'warning above 55', text)
                    elif all(x > 66 for x in m):
                        R.true('not possible' in text, 'warning above 66', text)
                    elif all(x <= 55 for x in m):
                        R.true(not text, 'no warning below 55', text)

    def k_dp(self, s, R, gc):
        f = getattr(gc, s['fn'])
        lev = [100., 300., 500., 900.][::-1 if s['desc'] else 1]
        lv = {'np': np.array(lev), 'list': lev, 'xr': xr.DataArray(lev, dims=['plev'], coords={'plev': lev})}[s['lc']]
        sh = tuple(s['shape'])
        n = int(np.prod(sh)) if sh else 1
        mk = (lambda v: v) if s['sc'] == 'np' else (lambda v: xr.DataArray(v, dims=list('abc')[:np.ndim(v)]))
        good = gen(sh, 3, 400, 1000)
        if not sh:
            good = float(good)
            mk = float
        for top in (None, 100., 50., 0.):
            R.value(R.call(f, lv, mk(good), top), 'valid')
            t = 100. if top is None else top
            for i in range(n):
                for v in (t - 1e-6, t / 2 - 1, -5.):
                    q = np.array(good, float); q.flat[i] = v
                    self.bad(R, 'surface above the top', [lv], f, lv, mk(q), top)
        for top in (100.0001, 300., 1e5, -1e-9, -5.):
            self.bad(R, 'top below the first level or negative', [lv], f, lv, mk(good), top)

    # ---- stats
    def fld(self, lat=None, lon=None):
        lat = [-30., 0., 30.] if lat is None else lat
        lon = [0., 90., 180., 270.] if lon is None else lon
        return xr.DataArray(gen((len(lat), len(lon)), 3), dims=['lat', 'lon'], name='v',
                            coords={'lat': ('lat', lat, {'units': 'degrees_north'}), 'lon': ('lon', lon, {'units': 'degrees_east'})})

    def k_nmse_type(self, s, R, gc):
        d = self.fld()
        mk = {'da': lambda x: x, 'ds': lambda x: x.to_dataset(), 'np': lambda x: x.values, 'list': lambda x: x.values.tolist()}
        a, b = [mk[t](x) for t, x in zip(s['ty'], (d, d + 1))]
        o = R.call(gc.nmse, a, b)
        if s['ty'][0] == s['ty'][1] and s['ty'][0] in ('da', 'ds'):
            R.value(o, 'valid containers')
        else:
            R.raises(o, 'containers')

    def k_nmse(self, s, R, gc):
        mk = (lambda x: x) if s['c'] == 'da' else (lambda x: x.to_dataset(name='v'))
        a, b = self.fld(), self.fld() * 2 + 1
        b = b.assign_coords(a.coords)
        for x, y in ((a, b), (b, a)):
            R.value(R.call(gc.nmse, mk(x), mk(y)), 'valid')
            for z in (y.assign_coords(k=1), y.rename(lat='latx'), y.rename(lon='q'), y.drop_vars('lat'), y.drop_vars(['lat', 'lon'])):
                self.bad(R, 'coordinate names differ', [mk(x), mk(z)], gc.nmse, mk(x), mk(z))
                self.bad(R, 'coordinate names differ', [mk(z), mk(x)], gc.nmse, mk(z), mk(x))
            for drop in (['lat'], ['lon'], ['lat', 'lon']):
                self.bad(R, 'no latitude or longitude', [], gc.nmse, mk(x.drop_vars(drop)), mk(y.drop_vars(drop)))
        for lat, lon in (([-30., 0., 10.], None), (None, [0., 90., 180., 200.]), ([-30., 0., 31.], None), (None, [0., 1., 10., 100.]), ([0., 1., 30.], [0., 1., 5., 6.])):
            x, y = self.fld(lat, lon), self.fld(lat, lon) + 1
            y = y.assign_coords(x.coords)
            self.bad(R, 'uneven grid', [x, y], gc.nmse, mk(x), mk(y))
            # two-dimensional coordinates, in either order of the dimensions
            for order in (('y', 'x'), ('x', 'y')):
                u, v = [self.flat(q).transpose(*order) for q in (x, y)]
                self.bad(R, 'uneven two-dimensional grid', [u, v], gc.nmse, mk(u), mk(v))
                u, v = [self.flat(q).transpose(*order) for q in (a, b)]
                R.value(R.call(gc.nmse, mk(u), mk(v)), 'valid two-dimensional grid')

    def flat(self, x):
        la, lo = np.meshgrid(x.lat.values, x.lon.values, indexing='ij')
        return xr.DataArray(x.values, dims=['y', 'x'], name=x.name, coords={'lat': (('y', 'x'), la, x.lat.attrs), 'lon': (('y', 'x'), lo, x.lon.attrs)})

    def k_eof(self, s, R, gc):
        f = getattr(gc, s['fn'])
        d = gen((5, 3, 2), 4)
        mk = {'np': lambda x: x, 'list': lambda x: x.tolist(), 'xr': lambda x: xr.DataArray(x, dims=['time', 'y', 'x'])}[s['c']]
        R.value(R.call(f, mk(d), 1), 'valid')
        for n in (0, -1, -5):
            for kw in ({}, {'meta': True}, {'time_dim': 1}):
                if s['c'] == 'xr' and 'time_dim' in kw:
                    continue
                self.bad(R, 'number of modes', [], f, mk(d), n, **kw)
        if s['c'] != 'xr':
            for td in (3, 4, 100, -4, -5):
                for kw in ({}, {'meta': True}):
                    self.bad(R, 'time axis out of range', [], f, mk(d), 1, td, **kw)


PROP = P()
