"""C16 interpolation on the sphere's longitude-latitude grid"""
import itertools, math
import numpy as np, xarray as xr
from ..core import Prop, product, gen

LATS = {'asc': [-60., -10., 10., 45.], 'desc': [80., 30., -20.], 'two': [0., 1.], 'int': [-30, 0, 30], 'r73': [-90 + 2.5 * i for i in range(73)], 'g32d': [85.76 - 5.533 * i for i in range(32)]}
LONS = {'four': [0., 90., 180., 270.], 'uneven': [0., 50., 100., 250., 300., 350.], 'west': [-180., -90., 0., 90.], 'rev': [270., 180., 90., 0.],
        'int': [0, 60, 120, 180, 240, 300], 'offset': [15., 105., 195., 285.], 'f4': [0., 72., 144., 216., 288.],
        'r144': [2.5 * i for i in range(144)], 'w36': [-180. + 10 * i for i in range(36)], 'g64': [5.625 * i for i in range(64)]}
OUT = {'in': ([0.5, -5.0, 0.25], [20.0, 61.0, 200.0, 95.5]), 'edge': ([0.3, 0.7], [355.0, -5.0, 359.5, -179.0, 300.5, 260.0]),
       'beyond': ([-89.0, 0.5, 89.0], [359.0, 400.0, -400.0, 10.0]), 'hit': ('lat', 'lon'), 'grid': ([-59.1 + 3.3 * i for i in range(30)], [1.3 + 4.9 * i for i in range(70)]), 'many': ([7.7], [0.7 + 0.31 * i for i in range(1100)]),
       'global': ([-89.3 + 1.37 * i for i in range(129)], [-3.3, 1.0, 179.3, 358.9]), 'one': ([0.5], [33.0]), 'desc': ([0.9, 0.1, -8.0], [333.0, 181.0, 3.0])}


SLAT, SLON, SOUT = ['asc', 'desc', 'two', 'int'], ['four', 'uneven', 'west', 'rev', 'int', 'offset', 'f4'], ['in', 'edge', 'beyond', 'hit', 'one', 'desc']


def cell(xs, x, nearest, ext=False):
    """weights [(index, weight)] of x on axis xs, None outside"""
    o = list(range(len(xs))) if xs[0] < xs[-1] else list(range(len(xs)))[::-1]
    if x < xs[o[0]] or x > xs[o[-1]]:
        if not ext:
            return None
        a, b = (o[0], o[1]) if x < xs[o[0]] else (o[-2], o[-1])
        w = (x - xs[a]) / (xs[b] - xs[a])
        return [(a, 1 - w), (b, w)]
    for a, b in zip(o, o[1:]):
        if xs[a] <= x <= xs[b]:
            w = (x - xs[a]) / (xs[b] - xs[a])
            if nearest:
                return [(a, 1.0)] if w < 0.5 else [(b, 1.0)]
            return [(a, 1 - w), (b, w)]


class P(Prop):
    id = 'C16'
    oracle = 'separable linear (or nearest) interpolation from the four surrounding points of the (cyclically extended) grid, point by point'
    assumptions = ['targets halfway between two points are not used with nearest', 'a target that exactly hits a grid line next to a missing point may be missing or not',
                   'with cyclic, targets up to one point beyond either end of the longitudes are covered, as documented by the single added point']

    def bounds_text(self, tier):
        return ('4 latitude axes x 7 longitude axes (both directions, integer, single precision) x 6 target sets x cyclic x linear/nearest x missing value '
                'placement (each single cell) x missing_val (from 0 to 1e37, data from 1e-11 to 1e12) x fill_value x 0-2 leading dimensions x containers and chunking')

    def scenarios(self, tier):
        th = tier == 'thorough'
        base = dict(lat='asc', lon='four', out='in', cyclic=False, method='linear', miss=None, mv=False, fill='nan', lead=0, kind='xr')
        for s in product(lat=SLAT, lon=SLON, out=SOUT, cyclic=[False, True], method=['linear', 'nearest'], kind=['xr', 'np']):
            yield {**base, **s}
        for s in product(lat=['two', 'desc', 'asc'], lon=['four', 'rev'], out=SOUT, cyclic=[False, True], mv=[False, True], lead=[0, 1],
                         miss=[[i, j] for i in range(3) for j in range(4)]):
            if s['miss'][0] < len(LATS[s['lat']]) and (th or s['lead'] == 0):
                yield {**base, **s}
        for s in product(lead=[1, 2], kind=['xr', 'np', 'dask', 'dask2', 'named', 'f4', 'i8'], lon=SLON, cyclic=[False, True], out=SOUT,
                         method=['linear', 'nearest'] if th else ['linear'], mv=[False, True]):
            yield {**base, **s}
        for s in product(fill=['num', 'extrapolate'], lat=SLAT, lon=SLON, out=['in', 'beyond', 'edge', 'desc'], cyclic=[False, True], mv=[False, True]):
            yield {**base, **s}

        # the missing value is what is given, whatever the magnitude of the data
        # ordinary sizes
        for s in product(lat=['asc', 'r73', 'g32d'], lon=['r144', 'w36', 'g64'], out=['grid', 'many', 'global'], cyclic=[False, True], method=['linear', 'nearest'], lead=[0, 1],
                         kind=['xr', 'np', 'dask', 'f4'], mv=[False, True], miss=[None, [1, 2]]):
            if (s['lat'] == 'asc') == (s['lon'] == 'r144') or (s['method'] == 'nearest') + (s['kind'] != 'xr') + s['mv'] + bool(s['miss']) + s['lead'] > (1 if not th else 2):
                continue
            yield {**base, **s}
        for s in product(mvv=[0, 1e20, 1e-3, -1, 9.96921e36], scale=[1.0, 1e-11, 1e12], lat=['two', 'asc'], lon=['four', 'int'], out=['in', 'edge'], kind=['xr', 'np', 'dask', 'f8i'],
                         cyclic=[False, True], miss=[None, [0, 1], [1, 2]]):
            yield {**base, **s, 'mv': True}

    def run(self, s, R):
        import geocat.comp as gc
        lat, lon = list(LATS[s['lat']]), list(LONS[s['lon']])
        ny, nx = len(lat), len(lon)
        lead = [(), (2,), (2, 3)][s['lead']]
        v = gen(lead + (ny, nx), 4, 1, 90)
        if s['kind'] == 'f4':
            v = v.astype('f4')
        if s['kind'] == 'i8':
            v = np.round(v).astype('i8')
        v = v * s.get('scale', 1)
        near = s['method'] == 'nearest'
        MV = -9 if s['kind'] == 'i8' else -999.0
        MV = s.get('mvv', MV)
        if s['miss']:
            v[(Ellipsis,) + tuple(s['miss'])] = MV if s['mv'] else np.nan
        elif s['mv'] and s['kind'] in ('i8', 'f4'):
            v[..., 0, 0] = MV
        la, lo = OUT[s['out']]
        la = list(lat) if la == 'lat' else la
        lo = list(lon) if lo == 'lon' else lo
        if near:   # stay away from ties
            la, lo = [x + 0.013 for x in la] if s['out'] != 'hit' else la, [x + 0.013 for x in lo] if s['out'] != 'hit' else lo
        # the grid the code should use
        gx = [float(x) for x in lon]
        gi = list(range(nx))
        if s['cyclic']:
            up = 360.0 if gx[0] < gx[-1] else -360.0
            gx = [gx[-1] - up] + gx + [gx[0] + up]
            gi = [nx - 1] + gi + [0]
        gy = [float(x) for x in lat]
        w = np.array(v, dtype=float)
        if s['mv']:
            w[w == MV] = np.nan
        w = w.reshape((-1, ny, nx))
        exp = np.full((w.shape[0], len(la), len(lo)), np.nan)
        skip = np.zeros(exp.shape, bool)
        fill = {'nan': np.nan, 'num': -5.5, 'extrapolate': None}[s['fill']]
        cys = [cell(gy, y, near, s['fill'] == 'extrapolate') for y in la]
        cxs = [cell(gx, x, near, s['fill'] == 'extrapolate') for x in lo]
        nanin = [bool(np.isnan(q).any()) for q in w]
        for a, y in enumerate(la):
            for b, x in enumerate(lo):
                cy, cx = cys[a], cxs[b]
                for k in range(w.shape[0]):
                    if cy is None or cx is None:
                        exp[k, a, b] = fill if fill is not None else np.nan
                        if s['fill'] == 'num' and nanin[k]:
                            skip[k, a, b] = True
                        continue
                    t = 0.0
                    for (p, wp) in cy:
                        for (q, wq) in cx:
                            t += wp * wq * w[k, p, gi[q]]
                    exp[k, a, b] = t
                    if any(z == 0.0 for _, z in cy + cx) and nanin[k]:
                        skip[k, a, b] = True
                    if (y in gy or x in gx) and nanin[k] and not near:
                        skip[k, a, b] = True
        if s['mv']:
            exp = np.where(np.isnan(exp), MV, exp)
        kw = {'cyclic': s['cyclic']} if s['cyclic'] else {}
        if near:
            kw['method'] = 'nearest'
        if s['mv']:
            kw['missing_val'] = MV
        if s['fill'] != 'nan':
            kw['fill_value'] = fill if fill is not None else 'extrapolate'
        ln = np.array(lon, dtype='f4') if s['lon'] == 'f4' else np.array(lon)
        tn = ['time', 'ens'][:s['lead']]
        yn, xn = ('y', 'x') if s['kind'] == 'named' else ('lat', 'lon')
        if s['kind'] == 'np':
            r = R.value(R.call(gc.interp_multidim, v, np.array(la), np.array(lo), lat_in=np.array(lat), lon_in=ln, **kw), 'call')
        else:
            d = xr.DataArray(v, dims=tn + [yn, xn], coords={yn: np.array(lat), xn: ln, **{t: np.arange(n) * 3 for t, n in zip(tn, lead)}}, attrs={'u': 1}, name='Q')
            if s['kind'] == 'dask':
                d = d.chunk({t: 1 for t in tn})
            if s['kind'] == 'dask2':
                d = d.chunk({yn: 1, xn: 2})
            r = R.value(R.call(gc.interp_multidim, d, np.array(la), np.array(lo), **kw), 'call')
        if r is None:
            return
        if s['kind'] != 'np':
            R.equal(list(r.dims), tn + [yn, xn], 'dims')
            for t, n in zip(tn, lead):
                R.true(t in r.coords and r[t].values.tolist() == [3 * i for i in range(n)], 'leading coordinates')
            R.close(r[yn].values, la, 'output latitudes')
            R.close(r[xn].values, lo, 'output longitudes')
        got = np.asarray(r)
        R.equal(got.shape, lead + (len(la), len(lo)), 'shape')
        tol = 1e-5 if s['kind'] == 'f4' or s['lon'] == 'f4' else 1e-9
        R.close(got.reshape(exp.shape), exp, 'values', rtol=tol, atol=tol * 50 * min(1, s.get('scale', 1)), skip=skip)


PROP = P()
