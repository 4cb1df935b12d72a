"""how numbers are stored: integers, unsigned, single precision, the other byte order and other memory layouts mean the same numbers"""
import itertools
import numpy as np, xarray as xr
from ..core import Prop, gen
from .. import ops as O

LAYOUT = {'F': np.asfortranarray, 'strided': O.spread, 'negative': lambda v: np.ascontiguousarray(v[(slice(None, None, -1),) * v.ndim])[(slice(None, None, -1),) * v.ndim],
          'readonly': lambda v: (lambda c: (c.setflags(write=False), c)[1])(v.copy())}
TYPES = ['i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f4', '>f8', '>f4', '>i4', '>i2', 'int']
NOT = {'delta_pressure_hybrid': lambda q, t: q == (1, 'p0', 'scalar') and t != 'int',   # p0 is a Python number
       'interp_multidim': lambda q, t: q[0] == 0 and q[1] in (3, 4) and t[0] == '>'}        # index coordinates
ANGLES = {'decomposition': (2, 3), 'recomposition': (1, 2), 'scale_voronoi': (0, 1)}   # in radians
STRICT = {'heat_index', 'relhum', 'relhum_ice', 'relhum_water', 'dewtemp'}   # one type for all arguments
PAIR = ['u1', 'u2', 'i2', 'i8', 'f4']


def slots(x, path=()):
    """every array of real numbers among the arguments: data, coordinates, variables, lists, scalars"""
    if isinstance(x, list) and x and all(isinstance(v, float) for v in x):
        yield path + ('list',)
    elif isinstance(x, (tuple, list)):
        for i, v in enumerate(x):
            yield from slots(v, path + (i,))
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from slots(v, path + (k,))
    elif isinstance(x, xr.Dataset):
        for k, v in x.variables.items():
            if v.dtype.kind == 'f':
                yield path + ('var:' + str(k),)
    elif isinstance(x, xr.DataArray):
        if x.dtype.kind == 'f':
            yield path + ('data',)
        for k, v in x.coords.items():
            if v.dtype.kind == 'f':
                yield path + ('coord:' + str(k),)
    elif isinstance(x, np.ndarray):
        if x.dtype.kind == 'f':
            yield path + ('nd',)
    elif isinstance(x, float):
        yield path + ('scalar',)


def values(x, p):
    if len(p) > 1:
        return values(x[p[0]], p[1:])
    k = p[0]
    if k.startswith('var:'):
        return x[k[4:]].values
    if k.startswith('coord:'):
        return x[k[6:]].values
    return x.values if k == 'data' else x


def put(x, p, f):
    """x with f applied to the array at p"""
    if len(p) > 1:
        if isinstance(x, dict):
            return {q: put(v, p[1:], f) if q == p[0] else v for q, v in x.items()}
        return type(x)(put(v, p[1:], f) if i == p[0] else v for i, v in enumerate(x))
    k = p[0]
    if k.startswith('var:') or k.startswith('coord:'):
        n = k.split(':', 1)[1]
        v = x[n]
        new = (v.dims, f(v.values), v.attrs)
        return x.assign({n: new}) if k.startswith('var:') and n not in x.coords else x.assign_coords({n: new})
    if k == 'data':
        return x.copy(data=x.data.map_blocks(f) if hasattr(x.data, 'dask') else f(x.values))
    if k == 'scalar':
        return f(np.float64(x))[()]
    return list(f(np.array(x))) if k == 'list' else f(x)


def storable(v, t, k):
    """can the values be stored in type t without losing the distinctions between them?"""
    v = np.asarray(v, float)
    if t == 'int':
        return k in ('scalar', 'list') and (v == np.round(v)).all()
    if t[0] == '>' and (k.startswith('coord:') or k in ('scalar', 'list')):
        return False   # an index of pandas cannot hold the other byte order
    if t in LAYOUT:
        return v.ndim > 0 and k != 'list'
    if k == 'list' and t not in ('i8', 'f4'):
        return False
    dt = np.dtype(t)
    if dt.kind == 'f':
        return True
    if not np.isfinite(v).all():
        return False
    r, i = np.round(v), np.iinfo(dt)
    if v.ndim == 0:
        return r == v and i.min <= r <= i.max
    return r.min() >= i.min and r.max() <= i.max and (v.ndim > 1 or len(np.unique(r)) == len(np.unique(v)))


def cast(v, t):
    v = np.asarray(v)
    if t in LAYOUT:
        return LAYOUT[t](v)
    if t == 'int':
        return v.astype(object) if v.ndim == 0 else np.array([int(x) for x in v], dtype=object)
    return (np.round(v) if np.dtype(t).kind in 'iu' else v).astype(t)


def double(v, t):
    return v if t == 'int' or t in LAYOUT else cast(v, t).astype('f8') if np.ndim(v) else np.array(float(cast(v, t)), object)


def numbers(r):
    """the result without its number types"""
    out = []
    for p, v in O.flat(r):
        if p.endswith(':name'):
            continue
        k = p.rsplit(':', 1)[-1]
        if isinstance(v, np.ndarray):
            out.append((p if v.ndim else p[:len(p) - len(k)] + 'number', v.astype(complex if v.dtype.kind == 'c' else float) if v.dtype.kind in 'fiubc' else v))
        elif k in ('attrs', 'lazy'):
            continue
        elif k.startswith(('float', 'int', 'uint')):
            out.append((p[:len(p) - len(k)] + 'number', np.array(float(v.split('(')[-1].rstrip(')')))))
        else:
            out.append((p, v))
    return out


# ------------------------------------------------------------------ calls whose arguments are small whole numbers
EXTRA = {}


def more(name, fn, build):
    EXTRA[name] = dict(fn=fn, build=build, ok=True)


W = lambda shape, salt, lo, hi: np.round(gen(shape, salt, lo, hi))
D = lambda v, dims, **co: xr.DataArray(v, dims=list(dims), coords=co)
for cal in ('np', 'noleap'):
    for f, q in (('day', '6h'), ('month', 'day'), ('season', 'month'), ('year', 'month')):
        more(f'cal_{f}_{cal}', 'calendar_average', lambda cal=cal, f=f, q=q: ((whole(O.ts(cal, 10 if q == '6h' else 36 if q == 'month' else 50, q, nan=False)), f), {}))
    for f, q in (('hour', '6h'), ('day', '6h'), ('month', 'day'), ('season', 'month')):
        more(f'clim_{f}_{cal}', 'climatology_average', lambda cal=cal, f=f, q=q: ((whole(O.ts(cal, 10 if q == '6h' else 36 if q == 'month' else 50, q, nan=False)), f), {}))
    for f, q in (('day', 'day'), ('month', 'month'), ('season', 'month'), ('year', 'month')):
        more(f'anom_{f}_{cal}', 'climate_anomaly', lambda cal=cal, f=f, q=q: ((whole(O.ts(cal, 36, q, nan=False)), f), {}))
    more(f'mts_{cal}', 'month_to_season', lambda cal=cal: ((whole(O.ts(cal, 24, nan=False)), 'NDJ'), {}))


def whole(d):
    return d.copy(data=np.round(d.values * 20 + 120))


sg = lambda: W((9, 3), 4, 0, 120)
for n, fn, a in (('low', 'fourier_low_pass', (8., 2.)), ('high', 'fourier_high_pass', (8., 2.)), ('pass', 'fourier_band_pass', (8., 1., 3.)), ('block', 'fourier_band_block', (8., 1., 3.))):
    more(f'ff_{n}', fn, lambda a=a: ((sg(), *a), {}))
    more(f'ff_{n}_xr', fn, lambda a=a: ((D(sg(), 'tx', x=[1., 2., 3.]), *a), {}))
LATS = {'up': [-40., 0., 15., 60.], 'down': [60., 15., 0., -40.], 'north': [10., 30., 60., 80.]}
EVEN = {'up': [-60., -20., 20., 60.], 'down': [60., 20., -20., -60.], 'north': [20., 40., 60., 80.]}
LONS = [0., 20., 50., 120.]
EVENLON = [0., 40., 80., 120.]
for q in LATS:
    y = lambda q=q: np.array(LATS[q])
    x = lambda: np.array(LONS)
    f = lambda: W((4, 4), 6, 0, 120)
    g = lambda q=q: D(f(), ['lat', 'lon'], lat=('lat', y(q), {'units': 'degrees_north'}), lon=('lon', x(), {'units': 'degrees_east'}))
    more(f'grad_{q}', 'gradient', lambda g=g: ((g(),), {}))
    more(f'grad_np_{q}', 'gradient', lambda y=y, x=x, f=f: ((f(), x(), y()), {}))
    more(f'grad_np2_{q}', 'gradient', lambda y=y, x=x, f=f: ((f(), *[a.copy() for a in np.meshgrid(x(), y())]), {}))
    for cyc in (False, True):
        for m in ('linear', 'nearest'):
            more(f'multi_{q}_{cyc}_{m}', 'interp_multidim', lambda g=g, cyc=cyc, m=m: ((g(), np.array([12., 41., 13.]), np.array([5., 61., 90., 125.])), {'cyclic': cyc, 'method': m}))
            more(f'multi_np_{q}_{cyc}_{m}', 'interp_multidim', lambda y=y, x=x, f=f, cyc=cyc, m=m: ((f(), [12., 41., 13.], [5., 61., 90., 125.], y(), x()), {'cyclic': cyc, 'method': m}))
    more(f'multi_mv_{q}', 'interp_multidim', lambda g=g: ((g(), np.array([12., 41., 13.]), np.array([5., 61., 90.])), {'missing_val': float(f()[1, 2]), 'cyclic': True}))
    more(f'nmse_{q}', 'nmse', lambda q=q: tuple([tuple(D(W((2, 4, 4), k, 0, 120), ['time', 'lat', 'lon'], lat=('lat', np.array(EVEN[q]), {'units': 'degrees_north'}),
                                                       lon=('lon', np.array(EVENLON), {'units': 'degrees_east'})) for k in (1, 2)), {}]))


def col(up=False, hpa=True, salt=7):
    """hybrid columns in hPa with whole pressures and small whole data"""
    a, b = np.array([.1, .25, .1, .0]), np.array([0., .25, .7, .99])
    l = np.array([100., 50., 20., 10.])[::-1] * 8
    v = W((2, 4, 3), salt, 0, 120)
    ps = W((2, 3), 8, 700, 1010)
    if up:
        a, b, l, v = a[::-1].copy(), b[::-1].copy(), l[::-1].copy(), v[:, ::-1].copy()
    co = {'x': [1., 2., 3.], 'time': [0, 1]}
    return (xr.DataArray(v, dims=['time', 'lev', 'x'], coords={'lev': ('lev', l, {'axis': 'Z', 'positive': 'down'}), **co}), D(ps, ['time', 'x'], **co), D(a, ['lev'], lev=l), D(b, ['lev'], lev=l))


for up in (False, True):
    for m in ('linear', 'log'):
        more(f'i2p_{m}_{up}', 'interp_hybrid_to_pressure', lambda m=m, up=up: (col(up), {'new_levels': np.array([120., 250., 600., 900.]), 'p0': 1000., 'method': m, 'lev_dim': 'lev'}))
    co = {'x': [1., 2., 3.], 'time': [0, 1]}
    for m in ('linear', 'log'):
        more(f'i2p_mixed_{m}_{up}', 'interp_hybrid_to_pressure', lambda m=m, up=up: (col(up), {'new_levels': np.array([600., 120., 900., 250.]), 'p0': 1000., 'method': m, 'lev_dim': 'lev'}))
        more(f'i2p_desc_{m}_{up}', 'interp_hybrid_to_pressure', lambda m=m, up=up: (col(up), {'new_levels': np.array([900., 600., 250., 120.]), 'p0': 1000., 'method': m, 'lev_dim': 'lev'}))
        more(f'i2p_chunk_{m}_{up}', 'interp_hybrid_to_pressure', lambda m=m, up=up: ((lambda c: (c[0].chunk({'x': 2}), *c[1:]))(col(up)), {'new_levels': np.array([900., 120., 600., 250.]), 'p0': 1000., 'method': m, 'lev_dim': 'lev'}))
        more(f'i2p_chunkl_{m}_{up}', 'interp_hybrid_to_pressure', lambda m=m, up=up: ((lambda c: (c[0].chunk({'lev': 2}), *c[1:]))(col(up)), {'new_levels': np.array([900., 120., 600., 250.]), 'p0': 1000., 'method': m, 'lev_dim': 'lev'}))
    for v in ('temperature', 'geopotential', 'other'):
        if not up:   # the documented order of levels for extrapolation
            def b(v=v):
                d, ps, a, bb = col()
                return (d + (0 if v == 'other' else 200), ps * 100, a, bb), dict(new_levels=np.array([12000., 90000., 101000., 110000.]), lev_dim='lev', extrapolate=True, variable=v,
                                                                                t_bot=D(W((2, 3), 9, 250, 300), ['time', 'x'], **co), phi_sfc=D(W((2, 3), 2, 10, 30000), ['time', 'x'], **co))
            more(f'i2p_{v}', 'interp_hybrid_to_pressure', b)
    more(f'pah_{up}', 'pressure_at_hybrid_levels', lambda up=up: (col(up)[1:], {'p0': 1000.}))
    more(f'pah_np_{up}', 'pressure_at_hybrid_levels', lambda up=up: (tuple(x.values for x in col(up)[1:]), {'p0': 1000.}))
    more(f'dph_{up}', 'delta_pressure_hybrid', lambda up=up: (col(up)[1:], {'p0': 1000.}))
    more(f'dph_np_{up}', 'delta_pressure_hybrid', lambda up=up: (tuple(x.values for x in col(up)[1:]), {'p0': 1000.}))
    # coefficients that are whole numbers: pressure levels (hya) over sigma levels (hyb)
    more(f'dph_whole_{up}', 'delta_pressure_hybrid', lambda up=up: ((col()[1].values, *[np.array(q)[::-1 if up else 1].copy() for q in ([10., 60., 120., 0.], [0., 0., 0., 1.])]), {'p0': 1.}))
    more(f'dph_whole_xr_{up}', 'delta_pressure_hybrid', lambda up=up: ((col()[1], *[D(np.array(q)[::-1 if up else 1].copy(), ['lev']) for q in ([10., 60., 120., 0.], [0., 0., 0., 1.])]), {'p0': 1.}))
    for m in ('linear', 'log'):
        more(f's2h_{m}_{up}', 'interp_sigma_to_hybrid', lambda m=m, up=up: ((col()[0], D(np.array([.1, .4, .8, .99]), ['lev'], lev=col()[0].lev.values), col()[1], *col(up)[2:]),
                                                                              {'p0': 1000., 'method': m, 'lev_dim': 'lev'}))
    P = lambda up=up: np.array([100., 300., 500., 850.][::-1 if up else 1])
    S = lambda: W((2, 3), 2, 400, 1000)
    more(f'dp_{up}', 'delta_pressure', lambda P=P: ((P(), S(), 50.), {}))
    more(f'dp_default_{up}', 'delta_pressure', lambda P=P: ((P(), S()), {}))
    more(f'dp_scalar_{up}', 'delta_pressure', lambda P=P: ((P(), 900., 50.), {}))
    more(f'dp_xr_{up}', 'delta_pressure', lambda P=P: ((D(P(), ['p'], p=P()), D(S(), 'ab'), 50.), {}))
    more(f'dp_small_{up}', 'delta_pressure', lambda up=up: ((np.array([20., 40., 90.][::-1 if up else 1]), W((2, 3), 2, 50, 120), 10.), {}))
T4 = lambda *v: {'np': lambda: tuple(np.array(x) for x in v), 'xr': lambda: tuple(D(np.array(x), ['x'], x=[1., 2., 3., 4., 5.]) for x in v), 'list': lambda: tuple(list(x) for x in v),
                 'scalar': lambda: tuple(x[2] for x in v)}
for c in ('np', 'xr', 'list', 'scalar'):
    for n, fn, v, kw in (('hi', 'heat_index', ([35., 75., 85., 100., 120.], [50., 30., 90., 10., 20.]), {}), ('hia', 'heat_index', ([35., 75., 85., 100., 120.], [50., 30., 90., 10., 20.]), {'alternate_coeffs': True}),
                         ('hic', 'heat_index', ([10., 20., 30., 40., 50.], [50., 30., 90., 10., 20.]), {}),
                         ('rh', 'relhum', ([150., 250., 173., 230., 290.], [.001, .002, .01, .02, .005], [90000., 10000., 25000., 60000., 100000.]), {}),
                         ('rhi', 'relhum_ice', ([150., 250., 173., 230., 290.], [.001, .002, .01, .02, .005], [90000., 10000., 25000., 60000., 100000.]), {}),
                         ('rhw', 'relhum_water', ([150., 250., 173., 230., 290.], [.001, .002, .01, .02, .005], [90000., 10000., 25000., 60000., 100000.]), {}),
                         ('dew', 'dewtemp', ([200., 250., 265., 273., 300.], [10., 20., 55., 99., 100.]), {}),
                         ('svp', 'saturation_vapor_pressure', ([0., 20., 32., 33., 110.],), {'tfill': -1.}), ('asvp', 'actual_saturation_vapor_pressure', ([0., 20., 32., 33., 110.],), {}),
                         ('slope', 'saturation_vapor_pressure_slope', ([0., 20., 32., 33., 110.],), {}), ('psy', 'psychrometric_constant', ([100., 98., 50., 70., 0.],), {})):
        more(f'{n}_{c}', fn, lambda v=v, c=c, kw=kw: (T4(*v)[c](), dict(kw)))
    if c != 'scalar':
        more(f'day_{c}', 'max_daylight', lambda c=c: (T4([1., 50., 77., 100., 120.], [-50., -10., 0., 30., 58.])[c](), {}))
for c in ('np', 'xr', 'list'):
    def two(c=c, n=2):
        v = [W((6, 4), k, 0, 120) for k in (1, 2)]
        return tuple(x.tolist() if c == 'list' else x if c == 'np' else D(x, 'yx') for x in v)
    more(f'pr_{c}', 'pearson_r', lambda two=two: (two(), {}))
    for sk in (False, True):
        more(f'prw_{c}_{sk}', 'pearson_r', lambda two=two, c=c, sk=sk: (two(), {'weights': D(np.array([1., 2., 1., 0., 3., 100.]), 'y') if c == 'xr' else [1., 2., 1., 0., 3., 100.] if c == 'list' else np.array([1., 2., 1., 0., 3., 100.]),
                                                                        **({'dim': 'y'} if c == 'xr' else {'axis': 0}), 'skipna': sk}))
    E = lambda c=c: (lambda v: v if c == 'np' else v.tolist() if c == 'list' else D(v, ['time', 'y', 'x'], x=[1., 2., 3.], time=np.arange(6.)))(W((6, 2, 3), 3, 0, 120))
    for ce in (True, False):
        for sc in (0, 1, 2):
            for fn in ('eofunc_eofs', 'eofunc_pcs'):
                kw = {'eofscaling' if fn == 'eofunc_eofs' else 'pcscaling': sc, 'center': ce}
                more(f'{fn}_{c}_{ce}_{sc}', fn, lambda E=E, kw=kw: ((E(), 3), {**kw, 'weights': np.array([[1., 2., 3.], [2., 5., 1.]])}))
                more(f'{fn}_now_{c}_{ce}_{sc}', fn, lambda E=E, kw=kw: ((E(), 3), dict(kw)))


def sph(c):
    f, w, th, ph = O.sphere()
    m = (lambda a: a) if c == 'np' else (lambda a: D(a, 'yx'))
    return m(np.round(f * 20 + 50)), m(w), m(th), m(ph)


for c in ('np', 'xr'):
    more(f'dec_{c}', 'decomposition', lambda c=c: (sph(c), {'max_harm': 2}))
    more(f'decw_{c}', 'decomposition', lambda c=c: ((lambda s: (s[0], s[0] * 0 + 2, *s[2:]))(sph(c)), {'max_harm': 2}))
    more(f'dec1_{c}', 'decomposition', lambda c=c: ((lambda s: (s[0], s[1] * 0 + 1 + np.arange(5)[:, None] * 20, *s[2:]))(sph(c)), {'max_harm': 2}))
    more(f'rec_{c}', 'recomposition', lambda c=c: ((W((6,), 2, 0, 90) if c == 'np' else D(W((6,), 2, 0, 90), ['har']), *sph(c)[2:]), {'max_harm': 2}))


def psi(up, pa):
    d = O.uxds()
    q = 1 if pa else .01
    l = np.array([20000., 50000., 85000.]) * q
    d['V'] = d['V'].copy(data=np.round(d['V'].values * 5 + 60))
    d['PS'] = d['PS'].copy(data=np.round(d['PS'].values * q))
    d = d.assign_coords(plev=l)
    return d.isel(plev=slice(None, None, -1)) if up else d


for up in (False, True):
    more(f'psi_{up}', 'zonal_meridional_psi', lambda up=up: ((psi(up, True), [-30., 0., 40.]), {}))


def call(name):
    return EXTRA[name[1:]] if name[0] == '+' else O.OPS[name]


class P(Prop):
    id = 'C30'
    oracle = 'the same call with the same numbers in double precision (which C04-C28 compare with scalar models)'
    assumptions = ['types are 8 to 64 bit integers, signed or not, single precision, the other byte order (not for index coordinates, which pandas cannot hold) and Python integers; half precision and booleans are not claimed',
                   'single precision arguments may give single precision results']

    def bounds_text(self, tier):
        return ('%d calls of every public function (the catalogue and calls with small whole numbers) x every array of numbers among the arguments (data, coordinates, levels, coefficients, weights, lists, scalars) x 14 number types and 4 memory layouts, one '
                'array at a time, all at once, and every pair of arrays x %s pairs of types' % (len(EXTRA) + sum(o['ok'] for o in O.OPS.values()), 'all 13 x 13' if tier == 'thorough' else '5 equal'))

    def scenarios(self, tier):
        for n in [k for k, o in O.OPS.items() if o['ok'] and k != 'stub'] + ['+' + k for k in EXTRA]:
            yield dict(call=n, how='each')
            for t in PAIR if tier != 'thorough' else [t for t in TYPES if t != 'int']:
                yield dict(call=n, how='pairs', type=t, **{'with': [t] if tier != 'thorough' else TYPES})

    def prepare(self, tier):
        O.warm()

    def run(self, s, R):
        import geocat.comp as gc
        o = call(s['call'])
        fn = getattr(gc, o['fn'])
        sl = list(slots(o['build']()))
        angle = ANGLES.get(o['fn'], ())
        loose = lambda q: o['fn'] in STRICT and q[-1] == 'scalar'
        fits = lambda x, t, q: storable(x, t, q[-1]) and not (t not in LAYOUT and t[-2] in 'iu' and q[0] == 0 and q[1] in angle) and not NOT.get(o['fn'], lambda *_: False)(q, t)
        v = {q: values(o['build'](), q) for q in sl}
        if s['how'] == 'each':
            base = self.go(R, fn, o['build']())
            if not R.true(base.ok, 'call', repr(base.exc)):
                return
            cases = [[(q, t)] for q in sl for t in [*TYPES, *LAYOUT] if not loose(q)] + [[(q, t) for q in sl if fits(v[q], t, q)] for t in [*TYPES, *LAYOUT]]
        else:
            types = s['with']
            cases = [[(p, s['type']), (q, t)] for p, q in itertools.permutations([q for q in sl if not loose(q)], 2) for t in types if (p < q or t != s['type']) and t != 'int']
        seen = {}
        scalars = [q for q in sl if loose(q)]
        for c in cases:
            if any(q in scalars for q, t in c) and not all((q, c[0][1]) in c for q in scalars):
                continue
            if not c or not all(fits(v[q], t, q) for q, t in c):
                continue
            x = y = o['build']()
            for q, t in c:
                x, y = put(x, q, lambda a, t=t: cast(a, t)), put(y, q, lambda a, t=t: double(a, t))
            # the same whole numbers in double precision, whichever type stores them
            key = tuple(sorted((str(q), 'f4' if 'f4' in t else 'f8' if t == '>f8' or t in LAYOUT else 'int') for q, t in c))
            if key not in seen:
                e = self.go(R, fn, y)
                seen[key] = (e.ok, numbers(e.value) if e.ok else None)
            if not seen[key][0]:
                continue   # rounded to whole numbers the arguments may be inconsistent
            r = self.go(R, fn, x)
            what = ', '.join(f'{"/".join(map(str, q))} as {t}' for q, t in c)
            if not R.true(r.ok, f'{o["fn"]}: raises for a way of storing numbers', f'{what}: {r.exc!r}'[:300]):
                return
            if not self.same(R, o['fn'], seen[key][1], numbers(r.value), any('f4' in t for _, t in c), what):
                return

    def go(self, R, fn, a):
        o = R.call(fn, *a[0], **a[1])
        if o.ok and hasattr(o.value, 'compute'):
            o.value = o.value.compute()
        return o

    def same(self, R, fn, e, r, single, what):
        if not R.equal([q for q, _ in r], [q for q, _ in e], f'{fn}: structure'):
            return False
        for (q, u), (_, w) in zip(e, r):
            if isinstance(u, np.ndarray) and u.dtype.kind in 'fc':
                sc = np.nanmax(np.abs(u)) if u.size and not np.isnan(u).all() else 0.0
                ok = u.shape == w.shape and np.allclose(w, u, rtol=1e-3 if single else 1e-9, atol=(1e-4 if single else 1e-12) * sc, equal_nan=True)
            else:
                ok = np.array_equal(u, w) if isinstance(u, np.ndarray) else u == w
            if not R.true(ok, f'{fn}: result depends on how numbers are stored', f'{what}: {q}: got {str(np.ravel(w)[:5])}, in double precision {str(np.ravel(u)[:5])}'[:400]):
                return False
        return True


PROP = P()
