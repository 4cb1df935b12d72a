"""labels: names, attributes, coordinates that play no part, encodings and options change no number; results describe themselves"""
import contextlib
import cftime, dask
import numpy as np, pandas as pd, xarray as xr
from ..core import Prop, gen
from .. import ops as O
from .c30 import numbers, call, EXTRA

# dimensions that may have any name, by function (the others are found by their name or attributes)
CLIM = ('calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season')
FREE = {**{f: 'x' for f in CLIM}, 'interp_hybrid_to_pressure': 'time x lev', 'interp_sigma_to_hybrid': 'time x lev', 'interp_multidim': 't lat lon', 'gradient': 't',
        'zonal_meridional_psi': '', 'zonal_mpsi': '', 'nmse': 'time', 'eofunc_eofs': 'x y', 'eofunc_pcs': 'x y', 'eofunc': 'x y', 'max_daylight': 'x'}
# dimensions whose coordinate values play no part
IDLE = {**FREE, 'interp_sigma_to_hybrid': 'time x', 'interp_hybrid_to_pressure': 'time x', 'interp_multidim': 't', 'delta_pressure': 'a b x', 'dpres_plev': 'a b'}
# names of dimensions that the results of a function have anyway
TAKEN = {'climate_anomaly': {'season', 'hour', 'day', 'month', 'year'}, 'climatology_average': {'season', 'hour', 'day', 'month', 'year'}, 'interp_hybrid_to_pressure': {'plev'}, 'delta_pressure': {'lev'}, 'dpres_plev': {'lev'}, 'max_daylight': {'lat', 'doy'}, 'gradient': {'x', 'y'},
         'nmse': {'variable'}, 'eofunc_eofs': {'mode', 'time', 'dim_1', 'dim_2'}, 'eofunc_pcs': {'mode', 'time'}, 'decomposition': {'har'}, 'recomposition': {'har'}}
NAMES = ['time', 'lev', 'plev', 'level', 'lat', 'lon', 'x', 'y', 't', 'season', 'month', 'year', 'day', 'har', 'mode', 'eofs', 'dim_0', 'dim_1', 'variable', 'n_face', 'member', 'N', 'data', 'values',
         'name', 'weights', 'sample', 'a b', 'é']
COORDS = ['dup', 'str', 'desc', 'dt', 'obj', 'big', 'uns', 'bool', 'tiny', 'nan', 'inf', 'td', 'cat', 'none']
NOCO = {(f, k) for f in ('eofunc_eofs', 'eofunc_pcs') for k in ('cat', 'dt')} | {(f, 'cat') for f in ('nmse', 'interp_hybrid_to_pressure', 'interp_sigma_to_hybrid')}
SCALARS = {'height': 2., 'member': 'r1i1p1', 'reftime': np.datetime64('2000-01-01', 'ns'), 'origin': cftime.DatetimeNoLeap(2000, 1, 1), 'level': 500, 'lev': 500., 'lat': 1., 'lon': 3., 'month': 3, 'season': 'DJF',
           'year': 2000, 'quantile': np.nan, 'time': np.datetime64('2000-01-01', 'ns'), 'plev': 5., 'spatial_ref': 0, 'x': 1., 'p0': 9e4}
AUX = ['str', 'int', 'nan', 'dt', 'obj', 'cf', 'two']
NAMED = [None, 'x', 'lat', 'lon', 'time', 'lev', 'plev', 'season', 'month', 'tmp', 'data', 'variable', 'weights', 'dim_0', '', 0, ('a', 'b')]
JUNK = {'_FillValue': 1., 'missing_value': 1., 'scale_factor': 10., 'add_offset': 5., 'valid_range': [0, 1], 'units': 'days since 2000-01-01', 'calendar': 'noleap', 'long_name': 'junk', 'bounds': 'b', 'coordinates': 'lat lon',
        'dtype': 'int16', 'history': 'h', 'grid_mapping': 'c', 'description': 'd'}
ENC = {'_FillValue': 1., 'scale_factor': 10., 'add_offset': 5., 'dtype': 'int16', 'calendar': 'noleap', 'units': 'days since 2000-01-01', 'chunksizes': (1,), 'source': 'f.nc', 'unlimited_dims': {'time'}}
OPTIONS = {'default': contextlib.nullcontext, 'keep True': lambda: xr.set_options(keep_attrs=True), 'keep False': lambda: xr.set_options(keep_attrs=False),
           **{'join ' + j: lambda j=j: xr.set_options(arithmetic_join=j) for j in ('outer', 'left', 'right', 'exact')},
           **{u: lambda u=u: xr.set_options(**{u: False}) for u in ('use_bottleneck', 'use_numbagg', 'use_flox', 'use_opt_einsum')},
           'numpy ignore': lambda: np.errstate(all='ignore'), 'numpy warn': lambda: np.errstate(all='warn'), 'print': lambda: np.printoptions(precision=1, suppress=True),
           'threads': lambda: dask.config.set(scheduler='threads'), 'slices': lambda: dask.config.set({'array.slicing.split_large_chunks': True, 'array.chunk-size': '10B'})}
H = dict(units='percentage', long_name='relative humidity')
SAYS = {'heat_index': dict(units='F', long_name='heat index: NWS'), 'relhum': H, 'relhum_ice': H, 'relhum_water': H, 'dewtemp': dict(units='Kelvin', long_name='dew point temperature'),
        'psychrometric_constant': dict(units='kPa/C', long_name='psychrometric constant'), 'saturation_vapor_pressure': dict(units='kPa', long_name='saturation vapor pressure'),
        'actual_saturation_vapor_pressure': dict(units='kPa', long_name='actual saturation vapor pressure via Tdew'), 'saturation_vapor_pressure_slope': dict(units='kPa/C', long_name='slope saturation vapor pressure curve'),
        'max_daylight': dict(units='hours/day', long_name='maximum daylight: FAO_56'), 'delta_pressure_hybrid': dict(units='Pa', long_name='pressure layer thickness'),
        'zonal_meridional_psi': dict(units='kg/s', long_name='zonal mean meridional streamfunction'), 'zonal_mpsi': dict(units='kg/s', long_name='zonal mean meridional streamfunction')}
KEEPS = ('interp_hybrid_to_pressure', 'interp_sigma_to_hybrid', 'interp_multidim', 'fourier_filter', 'fourier_low_pass', 'fourier_high_pass', 'fourier_band_pass', 'fourier_band_block')
# calls the catalogue lacks: leading dimensions, scalars, masks
MORE = {
    'grad3': ('gradient', lambda: ((O.field(3),), {})), 'grad3_2d': ('gradient', lambda: ((two(O.field(3)),), {})),
    'multi3': ('interp_multidim', lambda: ((O.field(3), np.array([-20., 10.]), np.array([10., 100.])), {})),
    'multi3_cyc': ('interp_multidim', lambda: ((O.field(3), np.array([-20., 10.]), np.array([10., 300.])), {'cyclic': True})),
    'multi3_near': ('interp_multidim', lambda: ((O.field(3), np.array([-20., 10.]), np.array([10., 300.])), {'method': 'nearest', 'fill_value': 'extrapolate'})),
    'i2p_ext_log': ('interp_hybrid_to_pressure', lambda: (O.column(), {'new_levels': np.array([30000., 120000.]), 'lev_dim': 'lev', 'method': 'log', 'extrapolate': True, 'variable': 'other'})),
    'pr_skip': ('pearson_r', lambda: (tuple(O.ab('xr')), {'dim': ['x'], 'skipna': True})),
    'eof_meta_weights': ('eofunc_eofs', lambda: ((O.eofd('xr'), 3), {'meta': True, 'weights': xr.DataArray(gen((2, 3), 1, .5, 2), dims=['y', 'x'])})),
    'day_x': ('max_daylight', lambda: ((xr.DataArray([1., 100.], dims=['x']), xr.DataArray([60., 58., -20.], dims=['x'])[:2]), {})),
}


def two(d):
    lo, la = np.meshgrid(O.LON, O.LAT)
    return xr.DataArray(d.values, dims=['t', 'j', 'i'], coords={'lat': (('j', 'i'), la, {'units': 'degrees_north'}), 'lon': (('j', 'i'), lo, {'units': 'degrees_east'})})


def find(name):
    return dict(fn=MORE[name[1:]][0], build=MORE[name[1:]][1]) if name[0] == '*' else call(name)


def arrays(x):
    """every labelled object among the arguments"""
    if isinstance(x, (xr.DataArray, xr.Dataset)):
        yield x
    elif isinstance(x, (tuple, list)):
        for v in x:
            yield from arrays(v)
    elif isinstance(x, dict):
        for v in x.values():
            yield from arrays(v)


def over(x, f):
    if isinstance(x, (xr.DataArray, xr.Dataset)):
        return f(x)
    if isinstance(x, (tuple, list)):
        return type(x)(over(v, f) for v in x)
    if isinstance(x, dict):
        return {k: over(v, f) for k, v in x.items()}
    return x


def only(i, f):
    """f applied to the i-th labelled object"""
    n = [-1]

    def g(v):
        n[0] += 1
        return f(v) if n[0] == i else v
    return g


plain = lambda v: type(v) in (xr.DataArray, xr.Dataset)


def value(kind, n):
    return {'dup': lambda: np.zeros(n), 'str': lambda: np.array([f's{j}' for j in range(n)]), 'desc': lambda: -np.arange(n), 'dt': lambda: pd.date_range('2000', periods=n), 'int': lambda: np.arange(n),
            'obj': lambda: np.array([[j, 'a', None][j % 3] if j else 7 for j in range(n)], dtype=object), 'big': lambda: np.arange(n) * 1e30, 'uns': lambda: np.arange(n).astype('u1'), 'bool': lambda: np.arange(n) % 2 == 0,
            'tiny': lambda: np.arange(n) * 1e-300, 'nan': lambda: np.full(n, np.nan), 'inf': lambda: np.array([np.inf] + list(range(n - 1))), 'td': lambda: pd.timedelta_range('1D', periods=n),
            'cat': lambda: pd.Categorical([f'c{j}' for j in range(n)]), 'cf': lambda: np.array([cftime.DatetimeNoLeap(2000 + j, 1, 1) for j in range(n)])}[kind]()


def aux(kind, v):
    if not plain(v):
        return v
    if kind == 'two':
        return v.assign_coords(aux_two=(v.dims[-2:], np.arange(np.prod(v.shape[-2:])).reshape(v.shape[-2:]) * 1.)) if isinstance(v, xr.DataArray) and v.ndim > 1 else v
    return v.assign_coords({f'aux_{d}': (d, value(kind, n)) for d, n in v.sizes.items()})


def scalar(k, v):
    return v.assign_coords({k: SCALARS[k]}) if plain(v) and k not in v.dims and k not in v.coords and k not in getattr(v, 'data_vars', ()) else v


def junk(v, coords=False):
    if not plain(v):
        return v
    v = v.copy()
    v.attrs.update(JUNK)
    if isinstance(v, xr.Dataset):
        for k in v.data_vars:
            v[k].attrs.update(JUNK)
    if coords:
        for k in v.coords:
            if k not in ('lat', 'lon'):
                v[k].attrs.update(JUNK)
    return v


def enc(v):
    if not plain(v):
        return v
    v = v.copy()
    v.encoding.update(ENC)
    for k in [*v.coords, *getattr(v, 'data_vars', ())]:
        v[k].encoding.update(ENC)
    return v


def coord(kind, v, dims):
    if not plain(v):
        return v
    for d in v.dims:
        if d in dims:
            v = v.drop_vars(d, errors='ignore') if kind == 'none' else v.assign_coords({d: value(kind, v.sizes[d])})
    return v


class P(Prop):
    id = 'C31'
    oracle = 'the same call with the labels left alone (relabelled afterwards), and a table of the documented units and names'
    assumptions = ['names that the result uses for a new dimension (plev, lev, season, mode, ...) are not given to other dimensions of the arguments', 'time dimensions and latitude/longitude are found by name or attributes where a function says so (C09, C28)',
                   'nmse requires the same coordinates on both arguments (documented)', 'attributes other than units and long_name of computed quantities are not claimed']

    def bounds_text(self, tier):
        return ('%d calls of every function that takes labelled data: every dimension that has no fixed name x %d names; every index coordinate that plays no part x %d kinds of values; %d scalar and %d kinds of auxiliary coordinates, %d names, attributes '
                'and encodings that describe packing, on all arguments and on each alone; %d option settings%s; units and names of the results under every option'
                % (len(self.calls()), len(NAMES), len(COORDS), len(SCALARS), len(AUX), len(NAMED), len(OPTIONS), ', every change under every option setting' if tier == 'thorough' else ''))

    def calls(self):
        out = [k for k, o in O.OPS.items() if o['ok'] and k != 'stub'] + ['+' + k for k in EXTRA] + ['*' + k for k in MORE]
        return [k for k in out if any(True for _ in arrays(find(k)['build']()))]

    def scenarios(self, tier):
        th = tier == 'thorough'
        for c in self.calls():
            for kind in ('rename', 'coord', 'scalar', 'aux', 'name', 'attrs', 'says'):
                if kind == 'says' or tier == 'thorough':
                    for o in OPTIONS if th or c[0] != '+' else ('keep True', 'keep False', 'join exact', 'use_flox'):
                        yield dict(call=c, kind=kind, opt=o, full=th)
                else:
                    yield dict(call=c, kind=kind, opt='default', full=th)

    def prepare(self, tier):
        O.warm()

    def run(self, s, R):
        import geocat.comp as gc
        o = find(s['call'])
        fn, build, f = getattr(gc, o['fn']), o['build'], o['fn']
        opt = OPTIONS[s['opt']]
        base = self.go(R, fn, build(), contextlib.nullcontext)
        if not R.true(base.ok, 'call', repr(base.exc)):
            return
        e = numbers(base.value)
        dims = sorted({d for v in arrays(build()) for d in v.dims if plain(v)}, key=str)
        n = len(list(arrays(build())))
        if s['kind'] == 'says':
            return self.says(s, R, fn, build, f, opt, e, n)
        if s['kind'] == 'rename':
            for d in [d for d in dims if d in FREE.get(f, ' '.join(dims)).split()]:
                for m in NAMES:
                    if m in dims or m in TAKEN.get(f, ()) or any(m in getattr(v, 'coords', ()) for v in arrays(build())):
                        continue
                    a = over(build(), lambda v: v.rename({d: m}) if d in v.dims or d in v.coords else v)
                    a = (a[0], {k: m if isinstance(v, str) and v == d and k in ('lev_dim', 'dim', 'time_dim') else [m if q == d else q for q in v] if k == 'dim' and isinstance(v, list) else v for k, v in a[1].items()})
                    r = self.go(R, fn, a, opt)
                    what = f'dimension {d} called {m!r}'
                    if not R.true(r.ok, f'{f}: raises for another name', f'{what}: {r.exc!r}'[:300]):
                        return
                    back = over(r.value, lambda v: v.rename({m: d}) if m in v.dims or m in v.coords else v)
                    if not self.same(R, f, e, numbers(back), what, True):
                        return
            return
        cases = []
        if s['kind'] == 'coord':
            idle = IDLE.get(f, ' '.join(dims)).split()
            cases = [(f'coordinate {d} {k}', (lambda v, k=k, d=d: coord(k, v, [d])), 'all') for k in COORDS if (f, k) not in NOCO for d in dims if d in idle]
        elif s['kind'] == 'scalar':
            cases = [(f'scalar coordinate {k}', (lambda v, k=k: scalar(k, v)), w) for k in SCALARS if k not in dims and not (f == 'delta_pressure_hybrid' and k == 'lev') for w in self.which(s, f, n)]
        elif s['kind'] == 'aux':
            cases = [(f'auxiliary coordinates {k}', (lambda v, k=k: aux(k, v)), w) for k in AUX for w in self.which(s, f, n)]
        elif s['kind'] == 'name':
            cases = [(f'name {k!r}', (lambda v, k=k: v.rename(k) if type(v) is xr.DataArray else v), w) for k in NAMED for w in self.which(s, f, n)]
        elif s['kind'] == 'attrs':
            cases = [(k, q, w) for k, q in (('attributes', junk), ('attributes of coordinates', lambda v: junk(v, True)), ('encoding', enc)) for w in self.which(s, f, n)]
        for what, g, w in cases:
            if what == 'attributes of coordinates' and f in CLIM:
                continue   # a calendar attribute on decoded times means something
            r = self.go(R, fn, over(build(), g if w == 'all' else only(w, g)), opt)
            what = f'{what} on {"every argument" if w == "all" else f"argument {w}"}'
            if not R.true(r.ok, f'{f}: raises for another label', f'{what}: {r.exc!r}'[:300]):
                return
            if not self.same(R, f, e, numbers(r.value), what, False):
                return

    def which(self, s, f, n):
        return ['all', *(range(n) if n > 1 and f != 'nmse' and (s['call'][0] != '+' or s['opt'] == 'default' and s['full']) else ())]

    def says(self, s, R, fn, build, f, opt, e, n):
        """units and long name of the result do not depend on what the arguments say"""
        none = lambda v: v.drop_attrs(deep=False) if type(v) is xr.DataArray else v
        for w in ('as they are', 'attributes', 'none', *(range(n) if f != 'nmse' else ())):
            g = {'as they are': lambda v: v, 'attributes': junk, 'none': none}.get(w)
            # attributes and a name on one argument alone must not appear on a result that describes another
            a = over(build(), g) if g else over(over(build(), none), only(w, lambda v: junk(v).rename('stray') if type(v) is xr.DataArray else junk(v)))
            r = self.go(R, fn, a, opt)
            if not R.true(r.ok, f'{f}: raises under an option', f'{s["opt"]}, {w}: {r.exc!r}'[:300]):
                return
            if not self.same(R, f, e, numbers(r.value), f'option {s["opt"]}, {w}', True):
                return
            v = r.value
            if isinstance(v, xr.DataArray):
                if f in SAYS:
                    R.equal({k: v.attrs.get(k) for k in ('units', 'long_name')}, SAYS[f], f'{f}: description of the result')
                elif f in KEEPS and isinstance(a[0][0], xr.DataArray):
                    nm = a[0][0].name
                    R.equal((v.attrs, v.name if nm is not None else v.name == 'stray'), (a[0][0].attrs, nm if nm is not None else False), f'{f}: description of the data')
                    for d in v.dims:
                        if d in a[0][0].coords and d in v.coords:
                            w = a[0][0][d].attrs
                            R.equal({k: v[d].attrs.get(k) for k in w}, w, f'{f}: description of coordinate {d}')

    def go(self, R, fn, a, opt):
        def f(*x, **k):
            with opt():
                v = fn(*x, **k)
                return v.compute() if hasattr(v, 'compute') else v
        return R.call(f, *a[0], **a[1])

    def same(self, R, f, e, r, what, labels):
        d = dict(r)
        R.obs(what)
        for p, u in e:
            k = p.rsplit(':', 1)[-1]
            if not labels and (p.count('.') or k in ('coords', 'sizes')):
                continue   # coordinates follow the change
            if not R.true(p in d, f'{f}: result depends on labels', f'{what}: {p} is missing'):
                return False
            q = O.differ([(p, u)], [(p, d[p])], rtol=1e-9)
            if not R.true(q is None, f'{f}: result depends on labels', f'{what}: {q}'[:400]):
                return False
        return True


PROP = P()
