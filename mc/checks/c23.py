"""spherical harmonics"""
import itertools, math
import numpy as np, xarray as xr
from ..core import Prop, gen


def legendre(n, m, x):
    """associated Legendre function with the Condon-Shortley phase, upward recurrence"""
    pmm = (-1) ** m * math.prod(range(1, 2 * m, 2)) * (1 - x * x) ** (m / 2) if m else 1.0
    if n == m:
        return pmm
    p1 = x * (2 * m + 1) * pmm
    a, b = pmm, p1
    for k in range(m + 2, n + 1):
        a, b = b, (x * (2 * k - 1) * b - (k + m - 1) * a) / (k - m)
    return b


def Y(n, m, lon, colat):
    """orthonormal complex harmonic at one point"""
    norm = math.sqrt((2 * n + 1) / (4 * math.pi) * math.factorial(n - m) / math.factorial(n + m))
    v = norm * legendre(n, m, math.cos(colat))
    return complex(v * math.cos(m * lon), v * math.sin(m * lon))


def order(mh):
    return [(n, m) for n in range(mh + 1) for m in range(n + 1)]


def table(mh, lon, colat):
    return [[Y(n, m, a, b) for a, b in zip(lon.ravel(), colat.ravel())] for n, m in order(mh)]


def grid(name):
    """longitude, colatitude, area of each point"""
    kind, nla, nlo = name.split(':')
    nla, nlo = int(nla), int(nlo)
    lon = np.arange(nlo) * 2 * math.pi / nlo
    if kind == 'gauss':
        x, w = np.polynomial.legendre.leggauss(nla)
        colat, w = np.arccos(x), w
    else:
        colat = (np.arange(nla) + .5) * math.pi / nla
        w = np.sin(colat)
        if kind == 'odd':
            colat, w = colat[::-1] ** 1.1, w * (1 + np.arange(nla))
    TH, PH = np.meshgrid(lon, colat)
    return TH, PH, np.repeat(w[:, None], nlo, 1) * 2 * math.pi / nlo


def cell_areas(lon, colat):
    """areas of the Voronoi cells from the Delaunay triangles: fans of triangles (point, mid edge, circumcentre)"""
    from scipy.spatial import ConvexHull
    p = np.array([[math.sin(b) * math.cos(a), math.sin(b) * math.sin(a), math.cos(b)] for a, b in zip(lon, colat)])
    area = np.zeros(len(p))

    def tri(a, b, c):
        num = np.dot(a, np.cross(b, c))
        return 2 * math.atan2(num, 1 + a @ b + b @ c + c @ a)
    for i, j, k in ConvexHull(p).simplices:
        n = np.cross(p[j] - p[i], p[k] - p[i])
        if n @ p[i] < 0:
            j, k = k, j
            n = -n
        c = n / np.linalg.norm(n)
        for a, b in ((i, j), (j, k), (k, i)):
            mid = p[a] + p[b]
            mid = mid / np.linalg.norm(mid)
            area[a] += tri(p[a], mid, c)
            area[b] += tri(mid, p[b], c)
    return area


GOLD = (1 + 5 ** .5) / 2
SOLIDS = {'tetra': [(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)], 'octa': [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)],
          'cube': list(itertools.product((1, -1), repeat=3)),
          'icosa': [v for a in (1, -1) for b in (GOLD, -GOLD) for v in ((0, a, b), (a, b, 0), (b, 0, a))]}


class P(Prop):
    id = 'C23'
    oracle = ('harmonics from the associated Legendre recurrence, sums point by point; Gauss-Legendre grids on which the decomposition is exact for '
              'every basis field; Voronoi areas from Delaunay circumcentres and from the regular solids')
    assumptions = ['longitudes, colatitudes, scale and data of one call have the same layout; if data is an ndarray so are the others', 'scale_voronoi of DataArrays may return an ndarray']

    def bounds_text(self, tier):
        return ('every basis harmonic (cosine and sine part) up to degree %d on exact grids, generic fields on 6 grid shapes incl. square ones, max_harm 0..%d, transposed '
                'grids, ndarray/DataArray/mixed containers, scale factors 1e-6..1e12; Voronoi cells of 4 regular solids, lat-lon grids and irregular points in every 2-d shape' % ((12, 14) if tier == 'thorough' else (6, 7)))

    def scenarios(self, tier):
        th = tier == 'thorough'
        top = 12 if th else 6
        for g in ('gauss:%d:%d' % (top + 1, 2 * top + 2), 'gauss:%d:%d' % (top + 2, top * 2 + 1)) + (('gauss:24:48',) if th else ()):
            for n, m in order(top):
                for part in ('re', 'im') if m else ('re',):
                    for c in ('np', 'xr'):
                        yield dict(kind='basis', grid=g, n=n, m=m, part=part, cont=c, mh=top)
        for g in ('gauss:5:9', 'eq:4:7', 'eq:4:4', 'odd:5:5', 'odd:6:3', 'eq:3:8'):
            for mh in range(0, 15 if th else 8):
                for c in ('np', 'xr', 'xrcoord', 'xrT', 'npT', 'npF', 'xrdata', 'f4', 'i8', 'npscalexr', 'dask'):
                    yield dict(kind='generic', grid=g, mh=mh, cont=c, factor=1.0)
                for k in (1e-6, 3.7, 5.1e14):
                    yield dict(kind='generic', grid=g, mh=mh, cont='np', factor=k)
                    yield dict(kind='generic', grid=g, mh=mh, cont='xr', factor=k)
        for g in ('gauss:25:50',) + (('eq:30:60',) if th else ()):
            for c in ('np', 'xr'):
                yield dict(kind='default', grid=g, cont=c)
        for k in SOLIDS:
            for rot in range(4):
                for c in ('np', 'xr', 'F'):
                    yield dict(kind='solid', k=k, rot=rot, cont=c)
        for g in ('gauss:4:6', 'eq:5:8', 'eq:6:6', 'odd:5:7', 'eq:2:5', 'eq:9:16'):
            for c in ('np', 'xr', 'T', 'rev'):
                yield dict(kind='cells', grid=g, cont=c)
        for sh in ((1, 12), (12, 1), (3, 4), (4, 3), (2, 6)):
            for salt in range(6 if not th else 40):
                yield dict(kind='irregular', shape=list(sh), salt=salt, cont='np')

    def wrap(self, c, *arrs):
        out = []
        for i, a in enumerate(arrs):
            if c in ('npT', 'xrT'):
                a = a.T
            if c == 'npF':
                a = np.asfortranarray(a)
            if c == 'f4' and i == 0:
                a = a.astype('f4')
            if c == 'i8' and i == 0:
                a = np.round(a * 10).astype('i8')
            if c in ('xr', 'xrT', 'xrcoord', 'dask') or (c == 'xrdata' and i == 0):
                d = ['lat', 'lon'] if c != 'xrT' else ['lon', 'lat']
                a = xr.DataArray(a, dims=d, coords={k: np.arange(n) * 2. for k, n in zip(d, a.shape)} if c == 'xrcoord' else None)
                if c == 'dask':
                    a = a.chunk({'lat': 2, 'lon': 3})
            out.append(a)
        return out

    def run(self, s, R):
        import geocat.comp as gc
        getattr(self, 'k_' + s['kind'])(s, R, gc)

    def k_basis(self, s, R, gc):
        TH, PH, W = grid(s['grid'])
        y = np.array([Y(s['n'], s['m'], a, b) for a, b in zip(TH.ravel(), PH.ravel())]).reshape(TH.shape)
        f = y.real if s['part'] == 're' else y.imag
        d, w, th, ph = self.wrap(s['cont'], f, W, TH, PH)
        r = R.value(R.call(gc.decomposition, d, w, th, ph, max_harm=s['mh']), 'decomposition')
        if r is None:
            return
        exp = [(1 if s['part'] == 're' else 1j) if nm == (s['n'], s['m']) else 0 for nm in order(s['mh'])]
        R.close(np.asarray(r), np.array(exp, complex), 'coefficients of a harmonic', atol=1e-9)
        b = R.value(R.call(gc.recomposition, r, th, ph, max_harm=s['mh']), 'recomposition')
        if b is not None:
            R.close(np.asarray(b), f, 'recomposed harmonic', atol=1e-9)

    def k_generic(self, s, R, gc):
        c = s['cont']
        TH, PH, W = grid(s['grid'])
        f = gen(TH.shape, 7, -4, 9)
        d, w, th, ph = self.wrap(c, f, W * s['factor'], TH, PH)
        r = R.value(R.call(gc.decomposition, d, w, th, ph, s['mh']), 'decomposition')
        if r is None:
            return
        if c == 'i8':
            f = np.round(f * 10)
        if c == 'f4':
            f = f.astype('f4').astype(float)
        T = np.array(table(s['mh'], TH, PH))
        fw = (f * W).ravel()
        exp = np.array([(2 if m else 1) * sum(fw * T[i]) * 4 * math.pi / W.sum() for i, (n, m) in enumerate(order(s['mh']))])
        R.close(np.asarray(r), exp, 'coefficients', rtol=1e-9, atol=1e-9)
        if c in ('xr', 'xrcoord', 'xrT', 'xrdata', 'dask'):
            R.true(isinstance(r, xr.DataArray) and tuple(r.dims) == ('harmonic',), 'coefficient container', f'{type(r).__name__} {getattr(r, "dims", "")}')
        else:
            R.true(isinstance(r, np.ndarray), 'coefficient container', type(r).__name__)
        # recomposition of generic coefficients
        nh = len(order(s['mh']))
        co = gen((nh,), 3, -2, 2) + 1j * gen((nh,), 5, -2, 2)
        if c in ('xr', 'xrcoord', 'xrT', 'dask'):
            co2 = xr.DataArray(co, dims=['harmonic' if c != 'xrcoord' else 'k'])
        else:
            co2 = co
        b = R.value(R.call(gc.recomposition, co2, th, ph, s['mh']), 'recomposition')
        if b is None:
            return
        e = (co.real[:, None] * T.real + co.imag[:, None] * T.imag).sum(0).reshape(TH.shape)
        if c in ('npT', 'xrT'):
            e = e.T
        if R.close(np.asarray(b), e, 'recomposed field', rtol=1e-9, atol=1e-9) and isinstance(co2, xr.DataArray):
            R.true(isinstance(b, xr.DataArray) and tuple(b.dims) == tuple(th.dims), 'field container', f'{type(b).__name__} {getattr(b, "dims", "")}')

    def k_default(self, s, R, gc):
        TH, PH, W = grid(s['grid'])
        T = np.array(table(23, TH, PH))
        co = gen((300,), 3, -2, 2) + 1j * gen((300,), 5, -2, 2)
        co[[i for i, (n, m) in enumerate(order(23)) if m == 0]] = co.real[[i for i, (n, m) in enumerate(order(23)) if m == 0]]
        f = (co.real[:, None] * T.real + co.imag[:, None] * T.imag).sum(0).reshape(TH.shape)
        d, w, th, ph = self.wrap(s['cont'], f, W, TH, PH)
        r = R.value(R.call(gc.decomposition, d, w, th, ph), 'decomposition')
        if r is None:
            return
        fw = (f * W).ravel()
        exp = np.array([(2 if m else 1) * (fw * T[i]).sum() * 4 * math.pi / W.sum() for i, (n, m) in enumerate(order(23))])
        R.close(np.asarray(r), exp, 'default coefficients', atol=1e-8)
        b = R.value(R.call(gc.recomposition, r, th, ph), 'recomposition')
        if s['grid'].startswith('gauss') and b is not None:
            R.close(np.asarray(r), co, 'default round trip', atol=1e-8)
            R.close(np.asarray(b), f, 'default recomposition', atol=1e-8)

    def k_solid(self, s, R, gc):
        p = np.array(SOLIDS[s['k']], float)
        p /= np.linalg.norm(p[0])
        a, b = .3 * s['rot'], .7 * s['rot']
        rz = np.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1]])
        rx = np.array([[1, 0, 0], [0, math.cos(b), -math.sin(b)], [0, math.sin(b), math.cos(b)]])
        p = p @ rz.T @ rx.T
        lon, col = np.arctan2(p[:, 1], p[:, 0]).reshape(2, -1), np.arccos(np.clip(p[:, 2], -1, 1)).reshape(2, -1)
        v = R.value(R.call(gc.scale_voronoi, *self.wrap('npF' if s['cont'] == 'F' else s['cont'], lon, col)), 'scale_voronoi')
        if v is not None:
            R.close(np.asarray(v), np.full(lon.shape, 4 * math.pi / len(p)), 'cell area of a regular solid', rtol=1e-9)

    def cells(self, R, gc, lon, col, c):
        args = self.wrap('xr' if c == 'xr' else 'np', lon, col)
        v = R.value(R.call(gc.scale_voronoi, *args), 'scale_voronoi')
        if v is None:
            return
        R.close(np.asarray(v), cell_areas(lon.ravel(), col.ravel()).reshape(lon.shape), 'cell areas', rtol=1e-8)
        R.close(np.asarray(v).sum(), 4 * math.pi, 'cells cover the sphere', rtol=1e-9)

    def k_cells(self, s, R, gc):
        TH, PH, W = grid(s['grid'])
        if s['cont'] == 'T':
            TH, PH = TH.T, PH.T
        if s['cont'] == 'rev':
            TH, PH = TH[::-1, ::-1], PH[::-1, ::-1]
        self.cells(R, gc, TH, PH, s['cont'])

    def k_irregular(self, s, R, gc):
        sh = tuple(s['shape'])
        self.cells(R, gc, gen(sh, s['salt'], 0, 2 * math.pi), np.arccos(gen(sh, s['salt'] + 50, -1, 1)), 'np')


PROP = P()
