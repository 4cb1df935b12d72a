"""horizontal gradient on the WGS84 ellipsoid"""
import functools, math
import numpy as np, xarray as xr
from ..core import Prop, product, gen

A, B = 6378137.0, 6356752.314245179


def radius(lat):
    p = np.deg2rad(lat)
    return np.sqrt((A * np.cos(p)) ** 2 + (B * np.sin(p)) ** 2)


_x, _w = np.polynomial.legendre.leggauss(64)


def arc_lat(lat):
    """integral of the radius from the equator, by Gauss quadrature"""
    lat = np.asarray(lat, float)
    h = lat[..., None] / 2
    return (radius(h * (_x + 1)) * _w).sum(-1) * np.deg2rad(lat) / 2


def arc_lon(lon, lat):
    return radius(lat) * np.cos(np.deg2rad(lat)) * np.deg2rad(lon)


def igrad(a, axis):
    """index-space derivative: centred inside, one-sided at the ends"""
    a = np.moveaxis(np.asarray(a, float), axis, 0)
    out = np.empty_like(a)
    n = a.shape[0]
    for i in range(n):
        lo, hi = max(i - 1, 0), min(i + 1, n - 1)
        out[i] = (a[hi] - a[lo]) / (hi - lo)
    return np.moveaxis(out, 0, axis)


LATS = {
    'reg': [-20., -10., 0., 10., 20.], 'desc': [60., 40., 20., 0., -20.], 'irr': [-71., -33.5, 1.25, 4., 52.],
    'pole': [-90., -45., 0., 45., 90.], 'high': [70., 75., 80., 85., 88.], 'int': [0, 10, 20, 30, 40],
    'tiny': [45.0, 45.01, 45.02, 45.03, 45.04],
}
LONS = {
    'reg': [0., 10., 20., 30., 40.], 'desc': [40., 30., 20., 10., 0.], 'irr': [-170., -20., 3., 99., 180.],
    'int': [100, 110, 120, 130, 140], 'wrap': [340., 350., 360., 370., 380.], 'neg': [-50., -49., -48., -47., -46.],
}
BIGGRID = {'2.5deg': (np.linspace(-90, 90, 73), np.arange(0, 360, 2.5)), 'desc': (np.linspace(89, -89, 90), np.arange(-180, 180, 5.)),
           'gauss': (np.degrees(np.arcsin(np.polynomial.legendre.leggauss(64)[0])), np.arange(0, 358, 2.8125)),
           'region': (30 + np.arange(120) * 0.05, -120 + np.arange(33) * 0.05), 'long': (np.linspace(-60, 60, 4), np.linspace(0, 359.9, 1500)), 'tall': (np.linspace(-88, 88, 1201), np.array([3., 4., 6.]))}
CONTS = ['np', 'np2d', 'xr-coords', 'xr-explicit', 'xr-explicit2d', 'xr-coords2d', 'xr-xrargs', 'xr-xrargs2d', 'F', 'f4', 'i8', '3d', '4d']


class C11(Prop):
    id = 'C11'
    title = 'gradient equals data differences over WGS84 arc distances on every grid'
    oracle = ('index-space differences of the data divided by those of the ellipsoidal arc lengths '
              '(quadrature of the documented radius formula, no series)')
    assumptions = ['east-west derivative not compared within 0.5 degrees of a pole']

    def bounds_text(self, tier):
        return 'grid shapes 2..5 x 2..5, 7 latitude and 6 longitude axes (both orders, irregular, to the poles), 13 containers, labelled data with 0..2 leading dimensions, curvilinear grids, global and regional grids up to 144 x 73, 1500 x 4 and 3 x 1201'

    def scenarios(self, tier):
        for nla in (2, 3, 5):
            for nlo in (2, 3, 4):
                for la in LATS:
                    for lo in LONS:
                        if tier == 'quick' and (nla, nlo) != (3, 4) and not (la in ('reg', 'irr') and lo in ('reg', 'irr')):
                            continue
                        for c in CONTS:
                            yield dict(nlat=nla, nlon=nlo, lat=la, lon=lo, cont=c, curv=0)
        for la in LATS:
            for c in ('np2d', 'xr-coords2d', 'xr-explicit2d', 'xr-xrargs2d', 'F', 'f4', '3d'):
                for k in (1, 2, 3):
                    yield dict(nlat=4, nlon=3, lat=la, lon='reg', cont=c, curv=k)
        # global and regional grids of ordinary size, missing values, coordinates of other types
        for g in BIGGRID:
            for c in ('np', 'xr-coords', 'xr-explicit', 'xr-xrargs', 'np2d', 'F', 'f4', '3d', 'xr-coords2d'):
                yield dict(nlat=0, nlon=0, lat=g, lon=g, cont=c, curv=0)
        for la in LATS:
            for c in ('np', 'np2d', 'xr-coords', 'xr-coords2d', '3d'):
                for h in ('nan', 'inf', 'coord-f4'):
                    yield dict(nlat=5, nlon=4, lat=la, lon='irr', cont=c, curv=0, hole=h)
        for la in LATS:
            for c in [c for c in CONTS if c.startswith('xr')]:
                for lead in (1, 2):
                    for k in (0, 2) if c.endswith('2d') else (0,):
                        for h in (None, 'nan'):
                            yield dict(nlat=5, nlon=4, lat=la, lon='irr', cont=c, curv=k, lead=lead, **({'hole': h} if h else {}))
        yield dict(nlat=0, nlon=0, lat='reg', lon='reg', cont='series', curv=0)
        yield dict(nlat=0, nlon=0, lat='reg', lon='reg', cont='bad', curv=0)

    def run(self, s, R):
        import geocat.comp as gc
        if s['cont'] == 'bad':
            d = gen((3, 4), 1)
            R.raises(R.call(gc.gradient, d), 'ndarray-without-coords')
            R.raises(R.call(gc.gradient, d, np.arange(4.)), 'ndarray-without-lat')
            R.raises(R.call(gc.gradient, d, None, np.arange(3.)), 'ndarray-without-lon')
            R.raises(R.call(gc.gradient, d.tolist()), 'list-without-coords')
            R.raises(R.call(gc.gradient, d, np.arange(4.), np.ones((3, 4))), 'mixed-1d-2d')
            R.raises(R.call(gc.gradient, d, np.ones((3, 4)), np.arange(3.)), 'mixed-2d-1d')
            R.raises(R.call(gc.gradient, d, np.ones((1, 3, 4)), np.ones((1, 3, 4))), '3d-coords')
            return
        if s['cont'] == 'series':
            # unit gradient: a field equal to the distance itself, on a dense meridian
            lat = np.arange(-90, 90.25, 0.25)
            lon = np.array([0., 1., 2.])
            f = np.repeat(arc_lat(lat)[:, None], 3, 1)
            o = R.value(R.call(gc.gradient, f, lon, lat), 'series')
            R.close(o[0], np.ones_like(f), 'series:lat', rtol=1e-9)
            lat2 = np.arange(-89, 89.5, 0.5)
            lon2 = np.arange(-180, 181, 60.)
            f = arc_lon(lon2[None, :], lat2[:, None])
            o = R.value(R.call(gc.gradient, f, lon2, lat2), 'series')
            R.close(o[1], np.ones_like(f), 'series:lon', rtol=1e-9)
            return
        nla, nlo, c = s['nlat'], s['nlon'], s['cont']
        lat = np.array((LATS.get(s['lat'], []))[:nla] if s['lat'] != 'pole' else [-90., 0., 60., 85., 90.][5 - nla:])
        lon = np.array(LONS.get(s['lon'], [])[:nlo])
        if s['lat'] in BIGGRID:
            lat, lon = BIGGRID[s['lat']]
            nla, nlo = len(lat), len(lon)
        lon2, lat2 = np.meshgrid(lon.astype(float), lat.astype(float))
        if s['curv']:
            k = s['curv']
            j, i = np.meshgrid(np.arange(nlo), np.arange(nla))
            lat2 = np.clip(lat2 + 0.004 * k * j * (1 + i), -90, 90)
            lon2 = lon2 + 0.3 * k * i - 0.1 * j * j
        shp = {'3d': (2, nla, nlo), '4d': (3, 2, nla, nlo)}.get(c, (3, 2)[2 - s.get('lead', 0):] + (nla, nlo))
        ld = ['m', 't'][2 - s.get('lead', 0):]
        lc = {'t': np.array(['2001-01-01', '2001-02-01'], 'M8[ns]')} if ld else {}
        d = gen(shp, 5, -30, 50)
        if c == 'f4':
            d = d.astype('f4')
        if c == 'i8':
            d = np.round(d).astype('i8')
        h = s.get('hole')
        if h == 'coord-f4':
            lat, lon = lat.astype('f4'), lon.astype('f4')
            lat2, lon2 = lat2.astype('f4'), lon2.astype('f4')
        elif h:
            d[..., 1, 2] = np.nan if h == 'nan' else np.inf
        e0 = igrad(d, -2) / igrad(arc_lat(lat2), 0)
        e1 = igrad(d, -1) / igrad(arc_lon(lon2, lat2), 1)
        if c in ('np', 'f4', 'i8', '3d', '4d') and not s['curv']:
            o = R.call(gc.gradient, d, lon, lat)
        elif c == 'F':
            o = R.call(gc.gradient, np.asfortranarray(d), np.asfortranarray(lon2), np.asfortranarray(lat2))
        elif c in ('np2d', 'f4', '3d'):
            o = R.call(gc.gradient, d, lon=lon2, lat=lat2)
        elif c == 'xr-coords':
            o = R.call(gc.gradient, xr.DataArray(d, dims=[*ld, 'lat', 'lon'], coords={**lc, 'lat': lat, 'lon': lon}, attrs={'a': 1}))
        elif c == 'xr-coords2d':
            o = R.call(gc.gradient, xr.DataArray(d, dims=[*ld, 'r', 'c'], coords={**lc, 'lat': (('r', 'c'), lat2), 'lon': (('r', 'c'), lon2)}))
        elif c == 'xr-explicit':
            o = R.call(gc.gradient, xr.DataArray(d, dims=[*ld, 'p', 'q'], coords=lc), lon, lat)
        elif c == 'xr-explicit2d':
            o = R.call(gc.gradient, xr.DataArray(d, dims=[*ld, 'p', 'q'], coords=lc), lon2, lat2)
        elif c == 'xr-xrargs':
            o = R.call(gc.gradient, xr.DataArray(d, dims=[*ld, 'p', 'q'], coords=lc), xr.DataArray(lon, dims=['q']), xr.DataArray(lat, dims=['p']))
        elif c == 'xr-xrargs2d':
            o = R.call(gc.gradient, xr.DataArray(d, dims=[*ld, 'p', 'q'], coords=lc), xr.DataArray(lon2, dims=['p', 'q']), xr.DataArray(lat2, dims=['p', 'q']))
        v = R.value(o, c)
        if v is None:
            return
        if not R.true(len(v) == 2, 'pair', len(v)):
            return
        rt = 3e-4 if h == 'coord-f4' else 3e-4 if c == 'f4' and s['lat'] in BIGGRID else 1e-7 if s['lat'] in BIGGRID else 1e-5 if c == 'f4' else 1e-7 if s['lat'] == 'tiny' or s['curv'] else 1e-9
        scale = np.abs(igrad(d, -2)).max()
        R.close(v[0], e0, 'north-south', rtol=rt, atol=1e-12 * np.nanmax(np.where(np.isfinite(e0), abs(e0), 0)))
        R.close(v[1], e1, 'east-west', rtol=rt, atol=1e-12 * np.where(np.isfinite(e1), abs(e1), 0)[..., np.abs(lat2) < 89.5].max(),
                skip=np.abs(lat2) > 89.5)
        for g in v:
            if c.startswith('xr'):
                if R.true(isinstance(g, xr.DataArray), 'xr:type', type(g).__name__):
                    R.close(g['lon'].values, lon2, 'xr:lon')
                    R.close(g['lat'].values, lat2, 'xr:lat')
                    R.equal(list(g.dims[:-2]), ld, 'xr:leading dimensions')
                    R.true('t' not in ld or 't' in g.coords and np.array_equal(g['t'].values, lc['t']), 'xr:leading coordinates', str(list(g.coords)))
            else:
                R.true(isinstance(g, np.ndarray), 'np:type', type(g).__name__)


PROP = C11()
