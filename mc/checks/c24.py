"""normalised mean squared error"""
import itertools, math
import numpy as np, xarray as xr
from ..core import Prop, product, gen

LATS = {'sym': [-60., -20., 20., 60.], 'poles': [-90., -45., 0., 45., 90.], 'north': [10., 12.5, 15.], 'desc': [70., 35., 0., -35.], 'int': [-30, 0, 30], 'one': [35.], 'f4': [-75., -25., 25., 75.],
        'cesm': np.linspace(-90, 90, 96).tolist(), 'cesm4': np.linspace(-90, 90, 192).astype('f4').tolist(), 'five': [-90 + 5. * i for i in range(37)], 'fived': [87.5 - 5. * i for i in range(36)]}
LONS = {'six': [0., 60., 120., 180., 240., 300.], 'one': [20.], 'four': [-180., -90., 0., 90.], 'desc': [350., 230., 110.], 'int': [0, 120, 240], '72': [5. * i for i in range(72)], 'cesm4': np.arange(0, 360, 1.25).astype('f4').tolist()}
NAMES = {'lat': ('lat', 'lon', {}, {}), 'latitude': ('latitude', 'longitude', {}, {}), 'std': ('a', 'b', {'standard_name': 'latitude'}, {'standard_name': 'longitude'}),
         'units': ('q1', 'q2', {'units': 'degrees_north'}, {'units': 'degrees_east'}), 'both': ('lat', 'lon', {'standard_name': 'latitude', 'units': 'degrees_north'}, {'standard_name': 'longitude'}),
         'nav': ('nav_lat', 'nav_lon', {'standard_name': 'latitude'}, {'standard_name': 'longitude'})}
DIMS = ['ij', 'ji', 'tij', 'itj', 'jit', 'tkij', 'kjti']
NANS = ['none', 'obs', 'mod', 'both', 'row', 'col', 'first', 'all', 'alltime', 'each']


def nmse(o, m, lat):
    """o, m: lists of rows (lat x lon) of floats"""
    pts = [(math.cos(math.radians(lat[i])), o[i][j], m[i][j]) for i in range(len(lat)) for j in range(len(o[0])) if not (math.isnan(o[i][j]) or math.isnan(m[i][j]))]
    W = sum(p[0] for p in pts)
    if not W:
        return math.nan
    mean = sum(w * a for w, a, _ in pts) / W
    num = sum(w * (b - a) ** 2 for w, a, b in pts)
    den = sum(w * (a - mean) ** 2 for w, a, _ in pts)
    return num / den if den else math.nan if not num else math.inf


class P(Prop):
    id = 'C24'
    oracle = 'sums over the valid points of each horizontal field, cos(latitude) weights, in scalar loops'
    assumptions = ['observed and modeled have the same coordinates', 'evenly spaced latitudes and longitudes',
                   'for Datasets, each variable is read at its own label of the added dimension, as in the test suite']

    def bounds_text(self, tier):
        return ('6 latitude x 4 longitude axes and sections along single ones x 7 dimension orders (same and different for the two fields) x 10 missing-value patterns (and each single point) x 6 ways of '
                'naming the coordinates x DataArray/Dataset/dask/curvilinear/float32/int x perfect, constant, shifted models')

    def scenarios(self, tier):
        th = tier == 'thorough'
        base = dict(lat='sym', lon='six', dims='tij', mdims='same', nan='none', names='lat', kind='da', model='generic', at=-1)
        for s in product(lat=[x for x in LATS if 1 < len(LATS[x]) < 30], lon=[x for x in LONS if 1 < len(LONS[x]) < 30], dims=DIMS, nan=NANS, kind=['da', 'ds'] + (['dask', 'f4', 'curv'] if th else [])):
            if not th and s['lon'] != 'six' and s['dims'] not in ('ji', 'jit') or not th and s['kind'] == 'ds' and s['dims'] in ('itj', 'ji', 'kjti', 'tkij') and s['nan'] in ('row', 'col', 'first', 'mod', 'none'):
                continue
            yield {**base, **s}
        for s in product(names=list(NAMES), dims=DIMS, kind=['da', 'ds', 'dask', 'curv', 'f4', 'int', 'coords'], nan=['none', 'both', 'mod']):
            if not th and s['nan'] == 'mod' and s['kind'] not in ('da', 'ds'):
                continue
            yield {**base, **s}
        for s in product(lat=['poles', 'desc'], at=list(range(24)), nan=['one-obs', 'one-mod'], kind=['da', 'ds'], dims=['ij', 'jit']):
            yield {**base, **s}
        for s in product(model=['perfect', 'constant', 'shift', 'scaled', 'swapped', 'big'], dims=DIMS, mdims=['same', 'rev'], kind=['da', 'ds', 'dask'], nan=['none', 'both', 'all']):
            if not th and s['kind'] == 'ds' and (s['mdims'] == 'rev' or s['dims'] in ('itj', 'kjti')):
                continue
            yield {**base, **s}
        for s in product(mdims=['rev'], dims=DIMS, nan=NANS, kind=['da', 'dask']):
            yield {**base, **s}
        # sections along a parallel or a meridian
        for s in product(lat=['one', 'sym', 'desc'], lon=['one', 'six', 'desc'], dims=DIMS, kind=['da', 'ds', 'dask', 'curv', 'f4', 'int', 'coords'], nan=['none', 'first', 'each']):
            if (s['lat'] == 'one') != (s['lon'] == 'one'):
                yield {**base, **s}
        # ordinary grids
        for s in product(lat=['cesm', 'cesm4', 'five', 'fived'], lon=['72', 'cesm4'], dims=['ij', 'tij', 'jit'], nan=['none', 'each', 'row'], kind=['da', 'ds', 'dask', 'f4', 'curv'],
                         model=['generic', 'shift', 'perfect']):
            if (s['lat'][:4] == 'cesm') != (s['lon'] == 'cesm4') or not th and ((s['lat'][:4] == 'cesm' and s['kind'] != 'da') or (s['model'] != 'generic') + (s['nan'] != 'none') > 1):
                continue
            yield {**base, **s}
        for k in ('np', 'npboth', 'mixed', 'names', 'nolat', 'unevenlat', 'unevenlon', 'gauss', 'missing-lon', 'lat-labels', 'extra-coord', 'list'):
            yield {**base, 'kind': 'reject:' + k}
        for s in product(kind=['reject:shiftone'], at=list(range(5)), lat=['poles'], lon=['six']):
            yield {**base, **s}

    def field(self, s, salt):
        lat, lon = LATS[s['lat']], LONS[s['lon']]
        size = {'i': len(lat), 'j': len(lon), 't': 2, 'k': 3}
        d = [c for c in 'tkij' if c in s['dims']]
        sh = [size[c] for c in d]
        o = gen(sh, salt, 200, 300)
        m = {'generic': gen(sh, salt + 9, 200, 300), 'perfect': o.copy(), 'constant': np.full(sh, 250.), 'shift': o + 3, 'scaled': o * 2, 'swapped': gen(sh, salt + 9, 200, 300), 'big': o * 1e6}[s['model']]
        if s['model'] == 'swapped':
            o, m = np.full(sh, 250.) + gen(sh, 4), o
        if s['kind'] == 'int':
            o, m = np.round(o), np.round(m)
        if s['kind'] == 'f4':
            o, m = o.astype('f4').astype(float), m.astype('f4').astype(float)
        n = s['nan']
        lead = o.ndim - 2
        if n in ('obs', 'both'):
            o[(0,) * lead + (1, 0)] = np.nan
        if n in ('mod', 'both'):
            m[(-1,) * lead + (0, 2)] = np.nan
        if n == 'row':
            o[..., 0, :] = np.nan
        if n == 'col':
            m[..., -1] = np.nan
        if n == 'first':
            o[..., 0, 0] = np.nan
            m[..., 0, 0] = np.nan
        if n == 'all':
            m[...] = np.nan
        if n == 'alltime' and lead:
            o[0] = np.nan
        if n == 'each':
            o[..., 0::2, 0::2] = np.nan
            m[..., 1::2, 1::2] = np.nan
        if n.startswith('one'):
            k = s['at'] % (len(lat) * len(lon))
            (o if n == 'one-obs' else m)[..., k // len(lon), k % len(lon)] = np.nan
        return d, o, m

    def run(self, s, R):
        import geocat.comp as gc
        if s['kind'].startswith('reject'):
            return self.reject(s, R, gc)
        lat, lon = LATS[s['lat']], LONS[s['lon']]
        if s['lat'] in ('f4', 'cesm4'):
            lat = np.array(lat, 'f4')
        la, lo, aa, ao = NAMES[s['names']]
        kind = s['kind']
        fields = []
        for salt in ((1, 31) if kind == 'ds' else (1,)):
            s2 = s if salt == 1 or s['nan'] != 'both' else dict(s, nan='obs')
            fields.append(self.field(s2, salt))

        def da(d, x, order):
            dn = {'i': la, 'j': lo, 't': 'time', 'k': 'lev'}
            if kind == 'curv':
                dn.update(i='y', j='x')
            if kind == 'f4':
                x = x.astype('f4')
            if kind == 'int' and not np.isnan(x).any():
                x = x.astype('i8')
            if kind == 'curv':
                g1, g2 = np.meshgrid(lat, lon, indexing='ij')
                co = {la: (('y', 'x'), g1, aa), lo: (('y', 'x'), g2, ao)}
            else:
                co = {la: (la, np.array(lat), aa), lo: (lo, np.array(lon), ao)}
            if 't' in d:
                co['time'] = np.arange(2) * 5
            if kind == 'coords':
                co['height'] = 2.0
                if 'k' in d:
                    co['lev'] = [1., 2., 5.]
            r = xr.DataArray(x, dims=[dn[c] for c in d], coords=co, attrs={'units': 'K', 'a': 1})
            r = r.transpose(*[dn[c] for c in order])
            return r.chunk({r.dims[0]: 1, r.dims[-1]: 2}) if kind == 'dask' else r
        mo = s['dims'] if s['mdims'] == 'same' else s['dims'][::-1]
        O = [da(d, o, s['dims']) for d, o, m in fields]
        M = [da(d, m, mo) for d, o, m in fields]
        if kind == 'ds':
            O, M = [xr.Dataset({'t': x[0], 'u': x[1]}, attrs={'title': 'x'}) for x in (O, M)]
        else:
            O, M = O[0], M[0]
        r = R.value(R.call(gc.nmse, O, M), 'nmse')
        if r is None:
            return
        R.equal(set(r.attrs), {'description'}, 'attributes')
        for q, (d, o, m) in zip('tu', fields):
            v = r[q].sel(variable=q) if kind == 'ds' else r
            lead = [{'t': 'time', 'k': 'lev'}[c] for c in d[:-2]]
            if not R.true(set(v.dims) == set(lead), 'dims', f'{v.dims} for {lead}'):
                return
            v = v.transpose(*lead).values
            e = np.array([nmse(o[i].tolist(), m[i].tolist(), [float(x) for x in lat]) for i in np.ndindex(*o.shape[:-2])]).reshape(o.shape[:-2])
            # constant observed fields: 0/0 or x/0 up to rounding, not compared
            R.close(v, e, 'nmse', rtol=1e-3 if kind == 'f4' else 1e-5 if s['lat'] in ('f4', 'cesm4') else 1e-8, atol=1e-12)

    def reject(self, s, R, gc):
        k = s['kind'].split(':')[1]
        lat, lon = np.array([-60., -20., 20., 60.]), np.arange(0, 360, 60.)
        mk = lambda la=lat, lo=lon, n=('lat', 'lon'): xr.DataArray(gen((len(la), len(lo)), 1), dims=list(n), coords={n[0]: la, n[1]: lo})
        a, b = mk(), mk() + 1
        T, K, V = TypeError, KeyError, ValueError
        if k == 'np':
            args, t = (a, b.values), T
        elif k == 'npboth':
            args, t = (a.values, b.values), T
        elif k == 'list':
            args, t = (a.values.tolist(), b), T
        elif k == 'mixed':
            args, t = (a, xr.Dataset({'x': b})), T
        elif k == 'names':
            args, t = (a, b.rename(lat='latitude', lon='longitude')), K
        elif k == 'extra-coord':
            args, t = (a.assign_coords(z=1), b), K
        elif k == 'nolat':
            args, t = (a.rename(lat='p', lon='q'), b.rename(lat='p', lon='q')), V
        elif k == 'missing-lon':
            args, t = (a.rename(lon='q'), b.rename(lon='q')), V
        elif k == 'lat-labels':
            args, t = (a, mk(lat + 1)), V
        elif k == 'unevenlat':
            args, t = (mk(np.array([-60., -20., 20., 70.])),) * 2, V
        elif k == 'unevenlon':
            args, t = (mk(lo=np.array([0., 60., 130., 180.])),) * 2, V
        elif k == 'gauss':
            args, t = (mk(np.array([-90., -78.45661, -53.25302, -18.83693, 18.83693, 53.25302, 78.45661, 90.])),) * 2, V
        else:
            lat2 = np.linspace(-80, 80, 6)
            lat2[s['at']] += 2.5
            args, t = (mk(lat2),) * 2, V
        R.raises(R.call(gc.nmse, *args), 'reject ' + k, (t,))


PROP = P()
