"""wrappers, aliases, deprecated stubs and the public namespace"""
import importlib, itertools
import numpy as np, xarray as xr
from ..core import Prop, gen

STUBS = ['grid_to_triple', 'linint1', 'linint2', 'linint2pts', 'moc_globe_atl', 'rcm2points', 'rcm2rgrid', 'rgrid2rcm', 'triple_to_grid']
# documented user API
API = {'climatologies': 'calendar_average climate_anomaly climatology_average month_to_season',
       'fourier_filters': 'fourier_band_block fourier_band_pass fourier_filter fourier_high_pass fourier_low_pass', 'gradient': 'gradient',
       'interpolation': 'delta_pressure_hybrid interp_hybrid_to_pressure interp_sigma_to_hybrid interp_multidim pressure_at_hybrid_levels',
       'meteorology': 'actual_saturation_vapor_pressure delta_pressure dewtemp heat_index max_daylight psychrometric_constant relhum relhum_ice relhum_water '
                      'saturation_vapor_pressure saturation_vapor_pressure_slope zonal_meridional_psi dpres_plev zonal_mpsi',
       'spherical': 'decomposition recomposition scale_voronoi', 'stats': 'eofunc_eofs eofunc_pcs nmse pearson_r eofunc eofunc_ts', 'deprecated': ' '.join(STUBS)}

# wrapper -> base, how its arguments map to the base's, argument values (first: the default of the sweep)
X = gen((6, 3), 2, -4, 4)
FILT = {'signal': [X, X.T.copy()], 'frequency': [6.0, 10.0], 'time_axis': [0, 1, -1]}
CUT = [1.0, 2.5, 0.5]
LEV = np.array([100., 300., 500., 850.])
WRAP = {
    'fourier_low_pass': ('fourier_filter', {'low_pass': True}, ['signal', 'frequency', 'cutoff_frequency_low', 'time_axis'], 3),
    'fourier_high_pass': ('fourier_filter', {'high_pass': True}, ['signal', 'frequency', 'cutoff_frequency_high', 'time_axis'], 3),
    'fourier_band_pass': ('fourier_filter', {'band_pass': True}, ['signal', 'frequency', 'cutoff_frequency_low', 'cutoff_frequency_high', 'time_axis'], 4),
    'fourier_band_block': ('fourier_filter', {'band_block': True}, ['signal', 'frequency', 'cutoff_frequency_low', 'cutoff_frequency_high', 'time_axis'], 4),
    'dpres_plev': ('delta_pressure', {}, ['pressure_lev', 'surface_pressure', 'pressure_top'], 2),
    'zonal_mpsi': ('zonal_meridional_psi', {}, ['uxds', 'lat', 'meridional_wind_varname', 'surface_air_pressure_varname', 'plev_coordname', 'hyam_coordname', 'hybm_coordname'], 1),
    'actual_saturation_vapor_pressure': ('saturation_vapor_pressure', {}, ['tdew', 'tfill'], 1),
}
RENAME = {'tdew': 'temperature'}


class P(Prop):
    id = 'C27'
    oracle = 'the base function called with every argument spelled out by keyword'
    assumptions = ['actual_saturation_vapor_pressure has metadata of its own']

    def bounds_text(self, tier):
        return ('every wrapper x every value combination of its arguments x every split into positional, keyword and omitted arguments, valid and invalid values; 9 stubs x argument '
                'lists up to 3 positional and 2 keyword; the whole documented namespace')

    def prepare(self, tier):
        import uxarray as ux
        g = ux.Grid.from_structured(lon=np.arange(0, 360, 60.), lat=np.arange(-75, 76, 30.))
        self.g = g
        for v in (gen((2, 3, g.n_face)), gen((2, g.n_face))):
            for lat in ([-30., 0.], 40.0):
                ux.UxDataArray(v, dims=['time', 'plev', 'n_face'][-v.ndim:] if v.ndim == 3 else ['time', 'n_face'], uxgrid=g).zonal_mean(lat=lat)

    def values(self, w, a):
        if a in FILT:
            v = FILT[a]
            return v + [xr.DataArray(X, dims=['t', 'z'], attrs={'u': 1})] if a == 'signal' else v
        if a.startswith('cutoff'):
            return CUT if a.endswith('low') else [c + .5 for c in CUT]
        if a == 'tdew':
            return [70.0, np.array([20., 50., 90.]), xr.DataArray([20., 50., 90.], dims=['q'], attrs={'u': 'x'}), [32., 33.]]
        if a == 'tfill':
            return [np.nan, -99.0, 0.0]
        if a == 'pressure_lev':
            return [LEV, LEV[::-1].copy(), LEV.tolist(), xr.DataArray(LEV, dims=['lev'], attrs={'units': 'hPa'})]
        if a == 'surface_pressure':
            return [1000.0, np.array([[400., 900.], [700., 1100.]]), xr.DataArray([400., 900.], dims=['x'], attrs={'units': 'hPa'}), 50.0]
        if a == 'pressure_top':
            return [None, 50.0, 100.0, 0.0, 150.0, -1.0]
        return None

    def uxds(self):
        import uxarray as ux
        n = self.g.n_face
        mk = lambda salt: ux.UxDataArray(gen((2, 3, n), salt, -9, 9), dims=['time', 'plev', 'n_face'], coords={'plev': [20000., 50000., 85000.]}, uxgrid=self.g)
        ps = lambda salt: ux.UxDataArray(gen((2, n), salt, 60000, 101000), dims=['time', 'n_face'], uxgrid=self.g)
        a, b = np.array([.1, .3, .01]), np.array([0., .2, .9])
        H = ux.UxDataArray(gen((2, 3, n), 6, -9, 9), dims=['time', 'lev', 'n_face'], coords={'lev': ('lev', [1., 2., 3.], {'axis': 'Z', 'positive': 'down'})}, uxgrid=self.g)
        return [ux.UxDataset({'v': mk(1), 'w': mk(2), 'ps': ps(3), 'sp2': ps(4)}, uxgrid=self.g),
                ux.UxDataset({'v': H, 'w': H * 2, 'ps': ps(3), 'sp2': ps(4), 'hyam': ('lev', a), 'hybm': ('lev', b), 'ca': ('lev', a * .5), 'cb': ('lev', b * .9)}, uxgrid=self.g)]

    def scenarios(self, tier):
        for w, (base, fixed, names, need) in WRAP.items():
            if w == 'zonal_mpsi':
                # keyword/positional/omitted for each of the six optional arguments, both kinds of dataset
                for ds in (0, 1):
                    for pos in range(0, 7):
                        for m in range(1 << (6 - pos)):
                            if tier == 'quick' and bin(m).count('1') > 2:
                                continue
                            yield dict(w=w, ds=ds, pos=pos, mask=m)
                continue
            opt = len(names) - need
            for pos in range(0, len(names) + 1):
                for om in itertools.product((0, 1), repeat=max(0, len(names) - max(pos, need))):
                    yield dict(w=w, pos=pos, omit=list(om))
        for st in STUBS:
            for k in range(4):
                for kw in ([], ['msg'], ['a', 'meta']):
                    yield dict(stub=st, k=k, kw=kw)
        for m in API:
            yield dict(ns=m)

    def run(self, s, R):
        import geocat.comp as gc
        if 'ns' in s:
            mod = importlib.import_module('geocat.comp.' + s['ns'])
            for n in API[s['ns']].split():
                R.true(callable(getattr(gc, n, None)), 'documented function is public', n)
                R.true(getattr(gc, n, 0) is getattr(mod, n, 1), 'package and module agree', n)
                R.true(getattr(gc, n, None) is not None and getattr(gc, n).__name__ == n, 'name', n)
                R.true(bool((getattr(gc, n).__doc__ or '').strip()) or n in ('eofunc', 'eofunc_ts'), 'documented', n)
            return
        if 'stub' in s:
            vals = [np.ones(3), xr.DataArray([1, 2]), 'x'][:s['k']]
            o = R.call(getattr(gc, s['stub']), *vals, **{k: 5 for k in s['kw']})
            if o.ok:
                R.equal(o.value, None, 'stub returns None')
                R.true(len(o.warns) == 1 and f"geocat.f2py.{s['stub']}``" in str(o.warns[0].message), 'stub warns about its own replacement', [str(w.message) for w in o.warns])
            else:
                R.fail('stub raised', repr(o.exc))
            return
        w = s['w']
        base, fixed, names, need = WRAP[w]
        f, g = getattr(gc, w), getattr(gc, base)
        if w == 'zonal_mpsi':
            ds = self.uxds()[s['ds']]
            vals = [[-30., 0., 40.], 'w', 'sp2'] + (['plev', None, None] if s['ds'] == 0 else [None, 'ca', 'cb'])
            pos, m = s['pos'], s['mask']
            args = [ds] + vals[:pos]
            kw = {names[1 + pos + i]: vals[pos + i] for i in range(6 - pos) if m >> i & 1}
            full = dict(zip(names[1:1 + pos], vals[:pos]), **kw)
            o = R.call(g, ds, **full)
            if R.true(o.ok, 'base function runs', o.exc):
                R.true(bool((np.abs(o.value) > 1).any()), 'base function gives numbers', o.value)
            self.same(R, R.call(f, *args, **kw), o)
            return
        pools = [self.values(w, a) for a in names]
        omitted = [names[i] for i, o in zip(range(max(s['pos'], need), len(names)), s['omit']) if o]
        for combo in itertools.product(*[range(len(p)) if a not in omitted else [0] for a, p in zip(names, pools)]):
            d = {a: p[i] for a, p, i in zip(names, pools, combo) if a not in omitted}
            args = [d[a] for a in names[:s['pos']]]
            kw = {a: d[a] for a in names[s['pos']:] if a in d}
            full = {RENAME.get(a, a): v for a, v in d.items()}
            self.same(R, R.call(f, *args, **kw), R.call(g, **full, **fixed), meta=w != 'actual_saturation_vapor_pressure')

    def same(self, R, a, b, meta=True):
        if not b.ok or not a.ok:
            R.equal((a.ok, type(a.exc).__name__), (b.ok, type(b.exc).__name__), 'same outcome')
            return
        x, y = a.value, b.value
        R.equal(type(x).__name__, type(y).__name__, 'same container')
        R.close(np.asarray(x), np.asarray(y), 'same values', rtol=1e-12)
        if isinstance(x, xr.DataArray) and isinstance(y, xr.DataArray):
            R.equal((x.dims, sorted(map(str, x.coords))), (y.dims, sorted(map(str, y.coords))), 'same layout')
            if meta:
                R.equal(str(x.attrs), str(y.attrs), 'same attributes')
            else:
                R.true('actual' in x.attrs.get('long_name', '') and 'EQN 14' in x.attrs.get('info', ''), 'own metadata', x.attrs)


PROP = P()
