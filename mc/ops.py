"""a catalogue of small public calls, built from scratch each time: (name, valid?, builder -> (args, kwargs))"""
import numpy as np, xarray as xr
from .core import gen
from . import cal as K, hyb as H

OPS = {}
GRID = {}
SHIFT = 0  # years


def op(name, fn, *, ok=True, tags=()):
    def deco(b):
        OPS[name] = dict(fn=fn, build=b, ok=ok, tags=set(tags))
        return b
    return deco


def add(name, fn, build, ok=True, tags=()):
    OPS[name] = dict(fn=fn, build=build, ok=ok, tags=set(tags))


def ts(cal, n, step='month', lay='2d', nan=True, attrs=True):
    c = 'proleptic_gregorian' if cal == 'np' else cal
    t = K.series(c, (2003 + SHIFT, 11, 1, 0, 0), {'month': ('M', 1), 'day': ('min', 1440), '6h': ('min', 360)}[step], n)
    v = gen((n, 2), 3, -5, 5)
    if nan:
        v[n // 3, 1] = np.nan
    at = {'units': 'K', 'note': ['a']} if attrs else {}
    idx = K.to_index(c, t, 'np' if cal == 'np' else 'cf')
    d = xr.DataArray(v, dims=['time', 'x'], coords={'time': ('time', idx, {'tn': 'q'}), 'x': ('x', [5., 6.], {'u': 'm'})}, attrs=at, name='v')
    return d.to_dataset().assign_attrs(g=1) if lay == 'ds' else d


for cal in ('np', 'noleap'):
    for f, q in (('day', '6h'), ('month', 'day'), ('season', 'month'), ('year', 'month')):
        add(f'cal_{f}_{cal}', 'calendar_average', lambda cal=cal, f=f, q=q: ((ts(cal, 10 if q == '6h' else 36 if q == 'month' else 50, q), f), {}), tags=['clim', 'xr'])
    for f, q in (('hour', '6h'), ('month', 'day'), ('season', 'month')):
        add(f'clim_{f}_{cal}', 'climatology_average', lambda cal=cal, f=f, q=q: ((ts(cal, 10 if q == '6h' else 36 if q == 'month' else 50, q), f), {}), tags=['clim', 'xr'])
    add(f'anom_month_{cal}', 'climate_anomaly', lambda cal=cal: ((ts(cal, 26), 'month'), {}), tags=['clim', 'xr'])
    add(f'mts_{cal}', 'month_to_season', lambda cal=cal: ((ts(cal, 24), 'NDJ'), {}), tags=['clim', 'xr'])
add('cal_ds', 'calendar_average', lambda: ((ts('np', 26, lay='ds'), 'season'), {'keep_attrs': True}), tags=['clim'])
add('clim_custom', 'climatology_average', lambda: ((ts('np', 26), 'season'), {'custom_seasons': ['JJA', 'NDJ']}), tags=['clim', 'xr'])
add('clim_dup', 'climatology_average', lambda: ((ts('np', 26), 'season'), {'custom_seasons': ['JJA', 'DJF', 'JJA']}), tags=['clim'])
add('clim_one', 'climatology_average', lambda: ((ts('noleap', 26), 'season'), {'custom_seasons': 'MAM'}), tags=['clim'])
add('clim_keep', 'climatology_average', lambda: ((ts('np', 26, lay='ds'), 'month'), {'keep_attrs': True}), tags=['clim'])
add('anom_year', 'climate_anomaly', lambda: ((ts('np', 26), 'year'), {'keep_attrs': True}), tags=['clim', 'xr'])
add('mts_ds', 'month_to_season', lambda: ((ts('360_day', 24, lay='ds'), 'JJA'), {'keep_attrs': True}), tags=['clim'])
add('mts_bad', 'month_to_season', lambda: ((ts('np', 24), 'XYZ'), {}), ok=False)
add('cal_bad', 'calendar_average', lambda: ((ts('np', 24), 'week'), {}), ok=False)
add('clim_bad', 'climatology_average', lambda: ((ts('np', 24), 'season'), {'custom_seasons': ['DJF', 'XYZ']}), ok=False)
add('cal_uneven', 'calendar_average', lambda: ((ts('np', 24, 'day').isel(time=[0, 1, 2, 5, 6, 9]), 'day'), {}), ok=False)


def sig(c='np'):
    v = gen((8, 3), 4, -3, 3)
    return v if c == 'np' else xr.DataArray(v, dims=['time', 'x'], coords={'x': [1, 2, 3]}, attrs={'u': ['k']})


add('ff_low', 'fourier_low_pass', lambda: ((sig(), 8., 2.), {}), tags=['fourier'])
add('ff_high_xr', 'fourier_high_pass', lambda: ((sig('xr'), 8., 2.), {}), tags=['fourier', 'xr'])
add('ff_block', 'fourier_band_block', lambda: ((sig(), 8., 1., 2.), {'time_axis': 1}), tags=['fourier'])
add('ff_pass_xr', 'fourier_band_pass', lambda: ((sig('xr'), 8., 1., 3.), {'time_axis': 1}), tags=['fourier', 'xr'])
add('ff_all', 'fourier_filter', lambda: ((sig(), 8., 1., 3.), {'band_block': True, 'time_axis': -2}), tags=['fourier'])

LAT, LON = np.array([-40., 0., 15., 60.]), np.array([0., 20., 50., 120., 200.])


def field(nd=2, co=True):
    v = gen((2, 4, 5)[3 - nd:], 6, 200, 300)
    d = ['t', 'lat', 'lon'][3 - nd:]
    return xr.DataArray(v, dims=d, coords={'lat': ('lat', LAT.copy(), {'units': 'degrees_north'}), 'lon': ('lon', LON.copy(), {'units': 'degrees_east'})}, attrs={'units': 'K'}, name='T')


add('grad_xr', 'gradient', lambda: ((field(),), {}), tags=['grid', 'xr'])
add('grad_np', 'gradient', lambda: ((field().values, LON.copy(), LAT.copy()), {}), tags=['grid'])
add('grad_np2', 'gradient', lambda: ((field().values, *[a.copy() for a in np.meshgrid(LON, LAT)]), {}), tags=['grid'])
add('grad_bad', 'gradient', lambda: ((field().values,), {}), ok=False)


def column(name='lev', vert=True, chunk=None, nan=False):
    a, b = H.coef('mixed')
    v = gen((2, 4, 3), 7, 230, 300)
    if nan:
        v[0, 1, 1] = np.nan
    at = {'positive': 'down', 'axis': 'Z'} if vert else {}
    d = xr.DataArray(v, dims=['time', name, 'x'], coords={name: (name, [200., 500., 800., 990.], at), 'x': [1., 2., 3.], 'time': [0, 1]}, attrs={'units': 'K'}, name='T')
    ps = xr.DataArray(gen((2, 3), 8, 80000, 102000), dims=['time', 'x'], coords={'x': [1., 2., 3.], 'time': [0, 1]}, attrs={'units': 'Pa'})
    if chunk:
        d, ps = d.chunk(chunk), ps.chunk({k: v for k, v in chunk.items() if k in ps.dims})
    mk = lambda q: xr.DataArray(q, dims=[name], coords={name: [200., 500., 800., 990.]})
    return d, ps, mk(a), mk(b)


def tbphi():
    co = {'x': [1., 2., 3.], 'time': [0, 1]}
    return (xr.DataArray(gen((2, 3), 9, 250, 300), dims=['time', 'x'], coords=co), xr.DataArray(gen((2, 3), 2, 10, 30000), dims=['time', 'x'], coords=co))


LV = lambda: np.array([95000., 60000., 30000.])
add('i2p', 'interp_hybrid_to_pressure', lambda: (column(), {'new_levels': LV()}), tags=['vert', 'xr'])
add('i2p_default', 'interp_hybrid_to_pressure', lambda: (column(), {'lev_dim': 'lev'}), tags=['vert', 'xr'])
add('i2p_log', 'interp_hybrid_to_pressure', lambda: (column(nan=True), {'new_levels': LV(), 'method': 'log', 'lev_dim': 'lev'}), tags=['vert', 'xr'])
for var in ('temperature', 'geopotential', 'other'):
    add(f'i2p_{var}', 'interp_hybrid_to_pressure', lambda var=var: (column(), dict(new_levels=np.array([30000., 101000., 110000.]), extrapolate=True, variable=var, t_bot=tbphi()[0],
                                                                                    phi_sfc=tbphi()[1], lev_dim='lev')), tags=['vert', 'xr'])
add('i2p_default_extrap', 'interp_hybrid_to_pressure', lambda: (column(), {'lev_dim': 'lev', 'extrapolate': True, 'variable': 'other'}), tags=['vert', 'xr'])
add('i2p_dask', 'interp_hybrid_to_pressure', lambda: (column(chunk={'time': 1}), {'new_levels': LV(), 'lev_dim': 'lev'}), tags=['vert', 'dask'])
add('i2p_dask_default', 'interp_hybrid_to_pressure', lambda: (column(chunk={'lev': 2}), {'lev_dim': 'lev'}), tags=['vert', 'dask'])
add('i2p_bad', 'interp_hybrid_to_pressure', lambda: (column(), {'new_levels': LV(), 'extrapolate': True}), ok=False)
add('i2p_bad2', 'interp_hybrid_to_pressure', lambda: (column(), {'lev_dim': 'lev', 'method': 'no'}), ok=False)


def sigcol(chunk=None):
    d, ps, a, b = column()
    s = xr.DataArray([.1, .4, .8, .99], dims=['lev'], coords={'lev': [200., 500., 800., 990.]})
    return d, s, ps, a, b


add('s2h', 'interp_sigma_to_hybrid', lambda: (sigcol(), {}), tags=['vert', 'xr'])
add('s2h_log', 'interp_sigma_to_hybrid', lambda: (sigcol(), {'method': 'log', 'lev_dim': 'lev'}), tags=['vert', 'xr'])
add('s2h_bad', 'interp_sigma_to_hybrid', lambda: (sigcol(), {'method': 'no', 'lev_dim': 'lev'}), ok=False)
add('multi', 'interp_multidim', lambda: ((field(), np.array([-20., 10.]), np.array([10., 100.])), {}), tags=['grid', 'xr'])


def holes():
    d = field(3)
    d.values[0, 1, 1] = -99.
    return d


add('multi_mv', 'interp_multidim', lambda: ((holes(), np.array([-20., 10.]), np.array([10., 300.])), {'cyclic': True, 'missing_val': -99.}), tags=['grid', 'xr'])
add('multi_np', 'interp_multidim', lambda: ((holes().values, np.array([-20., 10.]), np.array([10., 100.]), LAT.copy(), LON.copy()), {'cyclic': True, 'missing_val': -99., 'method': 'nearest', 'fill_value': -1.}), tags=['grid'])
add('multi_bad', 'interp_multidim', lambda: ((field().values, np.array([-20., 10.]), np.array([10., 100.])), {}), ok=False)
add('pah', 'pressure_at_hybrid_levels', lambda: (column()[1:], {}), tags=['vert', 'xr'])
add('pah_np', 'pressure_at_hybrid_levels', lambda: (tuple(x.values for x in column()[1:]), {}), tags=['vert'])
add('dph', 'delta_pressure_hybrid', lambda: (column()[1:], {}), tags=['vert', 'xr'])
add('dph_np', 'delta_pressure_hybrid', lambda: (tuple(x.values for x in column()[1:]), {'p0': 90000}), tags=['vert'])
add('dph_mix', 'delta_pressure_hybrid', lambda: ((column()[1].values, *column()[2:]), {}), tags=['vert', 'xr'])

TF = lambda c='np': {'np': lambda v: np.array(v), 'xr': lambda v: xr.DataArray(v, dims=['x'], coords={'x': [1, 2, 3, 4]}, attrs={'a': ['b']}),
                     'dask': lambda v: xr.DataArray(v, dims=['x'], coords={'x': [1, 2, 3, 4]}, attrs={'a': ['b']}).chunk({'x': 2}), 'list': list}[c]
for c in ('np', 'xr', 'list', 'dask'):
    t = ['met'] + ([c] if c in ('xr', 'dask') else [])
    add(f'hi_{c}', 'heat_index', lambda c=c: ((TF(c)([35., 75., 85., 100.]), TF(c)([50., 50., 90., 10.])), {'alternate_coeffs': c == 'list'}), tags=t)
    add(f'rh_{c}', 'relhum', lambda c=c: ((TF(c)([150., 250., 290., 390.]), TF(c)([.001, .002, .01, .02]), TF(c)([90000., 1e5, 95000., 50000.])), {}), tags=t)
    add(f'rhi_{c}', 'relhum_ice', lambda c=c: ((TF(c)([250., 255., 265., 270.]), TF(c)([.001, .002, .01, .02]), TF(c)([90000., 1e5, 95000., 50000.])), {}), tags=t)
    add(f'rhw_{c}', 'relhum_water', lambda c=c: ((TF(c)([280., 285., 295., 300.]), TF(c)([.001, .002, .01, .02]), TF(c)([90000., 1e5, 95000., 50000.])), {}), tags=t)
    add(f'dew_{c}', 'dewtemp', lambda c=c: ((TF(c)([280., 285., 295., 300.]), TF(c)([10., 20., 55., 99.])), {}), tags=t)
    add(f'svp_{c}', 'saturation_vapor_pressure', lambda c=c: ((TF(c)([10., 32., 50., 90.]),), {'tfill': -1.}), tags=t)
    if c != 'dask':
        add(f'slope_{c}', 'saturation_vapor_pressure_slope', lambda c=c: ((TF(c)([10., 32., 50., 90.]),), {}), tags=t)
        add(f'psy_{c}', 'psychrometric_constant', lambda c=c: ((TF(c)([100., 98., 50., 70.]),), {}), tags=t)
add('asvp_xr', 'actual_saturation_vapor_pressure', lambda: ((TF('xr')([10., 32., 50., 90.]),), {}), tags=['met', 'xr'])
add('day_np', 'max_daylight', lambda: ((np.array([1., 100., 200.]), np.array([-40., 0., 50.])), {}), tags=['met'])
add('day_xr', 'max_daylight', lambda: ((xr.DataArray([1., 100.]), xr.DataArray([60., 58.])), {}), tags=['met'])
add('hi_bad', 'heat_index', lambda: ((np.array([80., 90.]), np.array([50., 150.])), {}), ok=False)
add('rhi_bad', 'relhum_ice', lambda: ((np.array([250.]), np.array([.1, .2]), np.array([1e5])), {}), ok=False)
add('rhw_bad', 'relhum_water', lambda: ((np.array([250.]), [.1], np.array([1e5])), {}), ok=False)
PL = lambda: np.array([100., 300., 500., 850.])
add('dp', 'delta_pressure', lambda: ((PL(), gen((2, 3), 2, 400, 1000)), {}), tags=['vert'])
add('dp_desc', 'delta_pressure', lambda: ((PL()[::-1].copy(), gen((2, 3), 2, 400, 1000), 50.), {}), tags=['vert'])
add('dp_xr', 'dpres_plev', lambda: ((xr.DataArray(PL()[::-1].copy(), dims=['p'], coords={'p': PL()[::-1].copy()}, attrs={'units': 'hPa'}),
                                      xr.DataArray(gen((2, 3), 2, 400, 1000), dims=['a', 'b'], attrs={'units': 'hPa'})), {}), tags=['vert', 'xr'])
add('dp_list', 'delta_pressure', lambda: (([850., 500., 300.], 900.), {}), tags=['vert'])
add('dp_bad', 'delta_pressure', lambda: ((PL(), np.array([900., 50.])), {}), ok=False)


def uxds(hyb=False):
    import uxarray as ux
    if 'g' not in GRID:
        GRID['g'] = ux.Grid.from_structured(lon=np.arange(0, 360, 60.), lat=np.arange(-75, 76, 30.))
    g = GRID['g']
    nf = g.n_face
    ps = xr.DataArray(gen((2, nf), 2, 90000, 101000), dims=['time', 'n_face'], attrs={'standard_name': 'surface_air_pressure'})
    if hyb:
        a, b = H.coef('top')
        V = xr.DataArray(gen((2, 5, nf), 5, -9, 9), dims=['time', 'lev', 'n_face'], coords={'lev': ('lev', np.arange(5) * 100., {'axis': 'Z', 'positive': 'down'})}, attrs={'standard_name': 'northward_wind'})
        return ux.UxDataset({'V': V, 'PS': ps, 'hyam': ('lev', np.array(a)), 'hybm': ('lev', np.array(b))}, uxgrid=g)
    V = xr.DataArray(gen((2, 3, nf), 5, -9, 9), dims=['time', 'plev', 'n_face'], coords={'plev': [20000., 50000., 85000.]}, attrs={'standard_name': 'northward_wind'})
    return ux.UxDataset({'V': V, 'PS': ps}, uxgrid=g)


add('psi', 'zonal_meridional_psi', lambda: ((uxds(), [-30., 0., 40.]), {}), tags=['ux'])
add('psi_hyb', 'zonal_mpsi', lambda: ((uxds(True), [-30., 0., 40.]), {}), tags=['ux'])
add('psi_bad', 'zonal_meridional_psi', lambda: ((uxds().drop_vars('PS'), [-30., 0.]), {}), ok=False)


def sphere():
    lon, lat = np.meshgrid(np.arange(0, 360, 60.), np.arange(-60, 61, 30.))
    th, ph = np.deg2rad(lon), np.deg2rad(90 - lat)
    w = np.sin(ph) * np.deg2rad(30) * np.deg2rad(60)
    return gen(lon.shape, 3, -2, 2), w, th, ph


X = lambda a: xr.DataArray(a, dims=['y', 'x'], attrs={'u': ['m']})
add('sph_dec', 'decomposition', lambda: (sphere(), {'max_harm': 2}), tags=['sph'])
add('sph_dec_xr', 'decomposition', lambda: (tuple(X(a) for a in sphere()), {'max_harm': 2}), tags=['sph', 'xr'])
add('sph_rec', 'recomposition', lambda: ((gen((6,), 2, -1, 1) + 1j * gen((6,), 5, -1, 1), *sphere()[2:]), {'max_harm': 2}), tags=['sph'])
add('sph_rec_xr', 'recomposition', lambda: ((xr.DataArray(gen((6,), 2, -1, 1) + 0j, dims=['har']), *[X(a) for a in sphere()[2:]]), {'max_harm': 2}), tags=['sph', 'xr'])
add('sph_vor', 'scale_voronoi', lambda: (sphere()[2:], {}), tags=['sph'])
add('nmse', 'nmse', lambda: ((reg(1), reg(2)), {}), tags=['stat', 'xr'])
add('nmse_ds', 'nmse', lambda: ((reg(1).to_dataset(name='v'), reg(2).to_dataset(name='v')), {}), tags=['stat'])
add('nmse_bad', 'nmse', lambda: ((reg(1), reg(2).values), {}), ok=False)


def reg(k):
    v = gen((2, 3, 4), k, 0, 5)
    v[0, k, 1] = np.nan
    return xr.DataArray(v, dims=['time', 'lat', 'lon'], coords={'lat': ('lat', [-30., 0., 30.], {'units': 'degrees_north'}), 'lon': ('lon', [0., 90., 180., 270.], {'units': 'degrees_east'})},
                        attrs={'u': ['K']}, name='v')


ab = lambda c: [(lambda v: xr.DataArray(v, dims=['y', 'x'], attrs={'u': 1}) if c == 'xr' else v.tolist() if c == 'list' else v)(gen((5, 4), k, 0, 9)) for k in (1, 2)]
add('pr_np', 'pearson_r', lambda: ((*ab('np'),), {'axis': 0, 'weights': np.array([1., 2., 1., 0., 3.])}), tags=['stat'])
add('pr_list', 'pearson_r', lambda: ((*ab('list'),), {}), tags=['stat'])
add('pr_xr', 'pearson_r', lambda: ((*ab('xr'),), {'dim': 'y', 'weights': xr.DataArray([1., 2., 1., 0., 3.], dims=['y']), 'keep_attrs': True}), tags=['stat', 'xr'])


def eofd(c):
    v = gen((6, 2, 3), 3, -4, 4)
    if c == 'nan':
        v[:, 0, 1] = np.nan
        return v
    return xr.DataArray(v, dims=['time', 'y', 'x'], coords={'time': np.arange(6), 'x': [1., 2., 3.]}, attrs={'units': ['K']}) if c == 'xr' else v.tolist() if c == 'list' else v


for c in ('np', 'xr', 'nan', 'list'):
    tg = ['stat'] + (['xr'] if c == 'xr' else [])
    add(f'eof_{c}', 'eofunc_eofs', lambda c=c: ((eofd(c), 2), {'meta': True, **({'time_dim': 2} if c == 'list' else {})}), tags=tg)
    add(f'pcs_{c}', 'eofunc_pcs', lambda c=c: ((eofd(c), 2), {'meta': True, **({'time_dim': 0} if c == 'np' else {})}), tags=tg)
add('eof_weights', 'eofunc_eofs', lambda: ((eofd('np'), 2), {'weights': gen((2, 3), 1, .5, 2), 'eofscaling': 2, 'center': False}), tags=['stat'])
add('eofunc', 'eofunc', lambda: ((eofd('np'), 2), {'meta': True}), tags=['stat'])
add('eof_bad', 'eofunc_eofs', lambda: ((eofd('xr'), 0), {'meta': True}), ok=False)
add('stub', 'linint2', lambda: ((np.ones(3),), {'a': 1}), tags=['stub'])


def vary(x, how):
    """the same arguments with every array (data, coordinates, levels, angles, weights) replaced"""
    if isinstance(x, np.ndarray):
        return how(x) if x.dtype.kind in 'fc' else x
    if isinstance(x, xr.Dataset):
        y = x.copy()
        for k in x.data_vars:
            if x[k].dtype.kind in 'fc':
                y[k] = x[k].copy(data=how(x[k].data))
        return y
    if isinstance(x, xr.DataArray):
        y = x.copy(data=how(x.data)) if x.dtype.kind in 'fc' else x.copy()
        co = {k: (v.dims, how(v.values), v.attrs) for k, v in x.coords.items() if v.dtype.kind in 'fc'}
        return y.assign_coords(co) if co else y
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(v, float) for v in x):
            return type(x)(float(how(np.array(v))) for v in x)
        return type(x)(vary(v, how) for v in x)
    return x


def alt(name, build=None):
    """another call of the same function: arguments of the same types and shapes with other contents"""
    global gen, TF, SHIFT
    g, tf = gen, TF
    gen = lambda shape, salt=0, *a, **k: g(shape, salt + 100, *a, **k)
    TF = lambda c='np': (lambda v: tf(c)(list(v)[::-1]))
    SHIFT = 1
    try:
        a, k = (build or OPS[name]['build'])()
    finally:
        gen, TF, SHIFT = g, tf, 0
    how = lambda v: v * 0.983
    return vary(a, how), {q: vary(v, how) for q, v in k.items()}


def get(name):
    """a call of the catalogue, or (with ~) its counterpart with other contents"""
    if name.endswith('~'):
        o = OPS[name[:-1]]
        return dict(o, build=lambda: alt(name[:-1]))
    return OPS[name]


FORMS = {
    'F': lambda v: np.asfortranarray(v), 'f4': lambda v: v.astype('c8' if v.dtype.kind == 'c' else 'f4'),
    'nan': lambda v: punch(v), 'strided': lambda v: spread(v), 'reversed': lambda v: v[tuple(slice(None, None, -1) for _ in v.shape)] if v.ndim else v,
}


def punch(v):
    v = np.array(v)
    if v.ndim > 1:
        v[(0,) * (v.ndim - 1) + (-1,)] = np.nan
    return v


def spread(v):
    if not v.ndim:
        return v
    w = np.full(tuple(2 * n for n in v.shape), 7.5, dtype=v.dtype)
    q = w[tuple(slice(None, None, 2) for _ in v.shape)]
    q[...] = v
    return q


def form(name, how):
    a, k = OPS[name]['build']()
    return tuple(reform(x, how) for x in a), {q: reform(x, how) for q, x in k.items()}


def reform(x, how):
    """data in another memory layout, precision or with a missing value; coordinates as they are"""
    f = lambda v: FORMS[how](v) if isinstance(v, np.ndarray) and v.dtype.kind in 'fc' else v
    if isinstance(x, xr.Dataset):
        return x
    if isinstance(x, xr.DataArray):
        return x.copy(data=f(x.data)) if isinstance(x.data, np.ndarray) else x
    return f(x)


def warm():
    """import everything the calls import lazily, and compile what is compiled on first use"""
    import dask.array, uxarray, scipy.spatial, eofs, xskillscore, cftime  # noqa
    import dask
    dask.config.set(scheduler='synchronous')
    import geocat.comp as gc
    xr.map_blocks(lambda a: a + 1, xr.DataArray(np.ones((2, 2)), dims=['a', 'b']).chunk({'a': 1})).compute()
    dask.array.ones(3, chunks=1).map_blocks(lambda a: a * 2).compute()
    g = uxds().uxgrid
    for v in (gen((2, 3, g.n_face)), gen((2, g.n_face))):
        uxarray.UxDataArray(v, dims=['time', 'plev', 'n_face'] if v.ndim == 3 else ['time', 'n_face'], uxgrid=g).zonal_mean(lat=[-30., 0.])


# ------------------------------------------------------------------ comparing results
def flat(x, path='', out=None):
    """a result (or an argument) as a list of (path, array or text)"""
    import pandas as pd
    out = [] if out is None else out
    if isinstance(x, xr.Dataset):
        out.append((path + ':type', type(x).__name__))
        out.append((path + ':attrs', repr(x.attrs)))
        out.append((path + ':sizes', repr(dict(x.sizes))))
        for k in x.variables:
            flat(x.variables[k], f'{path}.{k}', out)
        out.append((path + ':coords', repr(sorted(map(str, x.coords)))))
    elif isinstance(x, xr.DataArray):
        out.append((path + ':type', type(x).__name__))
        out.append((path + ':name', repr(x.name)))
        flat(x.variable, path + ':data', out)
        for k in x.coords:
            flat(x.coords[k].variable, f'{path}.{k}', out)
        out.append((path + ':coords', repr(list(map(str, x.coords)))))
    elif isinstance(x, xr.Variable):
        out.append((path + ':dims', repr(x.dims)))
        out.append((path + ':attrs', repr(x.attrs)))
        out.append((path + ':lazy', repr(x.chunks is not None)))
        out.append((path + ':values', np.array(x.values, copy=True)))
    elif isinstance(x, np.ndarray):
        out.append((path + ':nd', np.array(x, copy=True)))
    elif isinstance(x, (list, tuple)):
        out.append((path + ':' + type(x).__name__, repr(len(x))))
        for i, v in enumerate(x):
            flat(v, f'{path}[{i}]', out)
    elif isinstance(x, dict):
        out.append((path + ':keys', repr(list(x))))
        for k in x:
            flat(x[k], f'{path}[{k}]', out)
    else:
        out.append((path + ':' + type(x).__name__, repr(x)))
    return out


def differ(a, b, rtol=1e-11):
    """first difference of two flattened results, or None"""
    if [p for p, _ in a] != [p for p, _ in b]:
        pa, pb = [p for p, _ in a], [p for p, _ in b]
        return f'structure {[p for p in pa if p not in pb][:3]} / {[p for p in pb if p not in pa][:3]}'
    for (p, u), (_, v) in zip(a, b):
        if isinstance(u, np.ndarray):
            if u.dtype != v.dtype or u.shape != v.shape:
                return f'{p}: {u.dtype}{u.shape} / {v.dtype}{v.shape}'
            if u.dtype.kind in 'fc':
                if not np.array_equal(np.isnan(u), np.isnan(v)) or not np.allclose(np.nan_to_num(u), np.nan_to_num(v), rtol=rtol, atol=1e-300):
                    return f'{p}: {u.ravel()[:6]} / {v.ravel()[:6]}'
            elif not np.array_equal(u, v):
                return f'{p}: {u.ravel()[:6]} / {v.ravel()[:6]}'
        elif u != v:
            return f'{p}: {u[:200]} / {v[:200]}'
    return None
