"""pressure layer thickness"""
import itertools
import numpy as np, xarray as xr
from ..core import Prop, gen

LEVS = [[100., 200.], [200., 850.], [100., 200., 400.], [10., 100., 1000.], [100., 150., 400., 700.],
        [1., 10., 100., 500., 1000.], [10., 30., 100., 300., 500., 850., 1000.], [100, 200, 500], [0., 50., 100., 300.],
        [round(16000. * ((k + 1) / 37) ** 2) / 16 for k in range(37)], [10., 20., 30., 50., 70., 100., 150., 200., 250., 300., 350., 400., 450., 500., 550., 600., 650., 700., 750., 800., 825., 850., 875., 900., 925., 950., 975., 1000.]]


def model(lev, ps, top):
    """interfaces are the midpoints between levels; first layer starts at the column top, the layer that
    contains the surface ends there, levels whose layer lies below the surface have no thickness"""
    order = sorted(range(len(lev)), key=lambda i: lev[i])
    p = [float(lev[i]) for i in order]
    out = [float('nan')] * len(lev)
    for k, i in enumerate(order):
        upper = float(top) if k == 0 else (p[k - 1] + p[k]) / 2
        lower = (p[k] + p[k + 1]) / 2 if k + 1 < len(p) else float('inf')
        if k and not upper < ps:
            continue
        out[i] = min(lower, ps) - upper
    return out


class C17(Prop):
    id = 'C17'
    title = 'Pressure layer thicknesses partition each column from its top to its surface'
    oracle = 'interface-by-interface scalar model of the layer bounds, plus sum == surface - top'

    def bounds_text(self, tier):
        return ('level sets of 2..7 levels in ascending, descending order; surface pressure at, between and beyond every '
                'level and every layer midpoint; top None/min/lower/0; scalar and 0..4-d surfaces; ndarray, list, int, float32, DataArray')

    def scenarios(self, tier):
        tops = [None, 'min', 'half', 0.0]
        th = tier == 'thorough'
        for li, lev in enumerate(LEVS):
            for desc in (0, 1):
                for top in tops:
                    for lc in ('np', 'list', 'xr', 'f4'):
                        for sc in ('float', 'int', 'np.float64', '0d', '1', '1d', '2d', '3d', '4d', '3dF', 'xr1', 'xr2', 'xr3', 'i8', 'f4'):
                            if li < 9 or th or (sc in ('float', '1d', '3d', '3dF', 'xr2', 'xr3') and (lc != 'xr' or sc == '1d') and (desc == 0 or top is None)):
                                yield dict(lev=li, desc=desc, top=top, lc=lc, sc=sc)
        for li in range(len(LEVS)):
            for sh in ([1200], [40, 60], [3, 33, 21], [2, 3, 20, 14]):
                for top in (None, 'half'):
                    for lc, sc in (('np', 'large'), ('np', 'xrlarge'), ('xr', 'xrlarge'), ('list', 'large')):
                        if sc == 'xrlarge' and not th:   # slow code path
                            if lc == 'xr' or len(sh) > 3:
                                continue
                            sh = [max(2, n // 7) for n in sh]
                        yield dict(lev=li, desc=li % 2, top=top, lc=lc, sc=sc, shape=sh)
        for li in (0, 3, 5):
            yield dict(lev=li, desc=0, top=None, lc='np', sc='reject')

    def alphabet(self, p, top):
        """surface pressures that touch every branch: each level, each midpoint, just beside, and beyond"""
        p = sorted(float(v) for v in p)
        mids = [(a + b) / 2 for a, b in zip(p, p[1:])]
        marks = sorted(set(p + mids))
        a = []
        for m in marks:
            a += [m, m + 0.125, m - 0.125, m * 1.07]
        a += [p[-1] + 13, p[-1] * 2, (top + p[0]) / 2 + 0.01, top]
        return [v for v in a if v >= top and v > 0]

    def run(self, s, R):
        import geocat.comp as gc
        lev = list(LEVS[s['lev']])
        if s['desc']:
            lev = lev[::-1]
        lo = min(lev)
        top = {None: None, 'min': lo, 'half': lo / 2, 0.0: 0.0}[s['top']]
        rtop = lo if top is None else top
        arg = {'np': np.array(lev), 'list': list(lev), 'f4': np.array(lev, 'f4'),
               'xr': xr.DataArray(np.array(lev), dims=['plev'], coords={'plev': np.array(lev)}, attrs={'units': 'hPa'})}[s['lc']]
        sc = s['sc']
        tiny = 1e-3 if s['lc'] == 'f4' else 1e-9
        if sc == 'reject':
            R.raises(R.call(gc.delta_pressure, arg, 900., lo + 1), 'top-below-first-level')
            R.raises(R.call(gc.delta_pressure, arg, 900., -1.), 'negative-top')
            R.raises(R.call(gc.delta_pressure, arg, lo / 2), 'surface-above-top')
            R.raises(R.call(gc.delta_pressure, arg, np.array([[900., lo / 2]])), 'surface-above-top:array')
            R.raises(R.call(gc.delta_pressure, arg[::-1], np.array([[900., lo / 2]]), lo / 1.5), 'surface-above-top:explicit')
            return
        alph = self.alphabet(lev, rtop)
        fns = [gc.delta_pressure, gc.dpres_plev]
        if sc in ('float', 'int', 'np.float64', '0d'):
            if sc != 'int':
                q = {'float': float, 'np.float64': np.float64, '0d': np.array}[sc](np.nan)
                R.close(R.value(R.call(gc.delta_pressure, arg, q, top), 'missing surface pressure'), [np.nan] * len(lev), 'missing surface pressure')
            for v in alph:
                if sc == 'int':
                    v = int(v) if int(v) >= max(rtop, 1) else int(v) + 1
                a = {'float': float, 'int': int, 'np.float64': np.float64, '0d': lambda q: np.array(q)}[sc](v)
                for fn in fns[:1 if sc != 'float' else 2]:
                    r = R.value(R.call(fn, arg, a, top) if top is not None else R.call(fn, arg, a), 'scalar')
                    if r is None:
                        return
                    e = np.array(model(lev, float(v), rtop))
                    if not R.close(np.asarray(r), e, 'thickness', rtol=1e-9 if s['lc'] != 'f4' else 1e-5, atol=tiny):
                        R.viol[-1]['msg'] += f' surface={v} levels={lev} top={top}'
                        return
                    R.close(np.nansum(np.asarray(r)), float(v) - rtop, 'column-sum', rtol=1e-9 if s['lc'] != 'f4' else 1e-5, atol=tiny)
            return
        vals = np.array(alph)
        shape = {'1': (1,), '1d': (-1,), '2d': (2, -1), '3d': (-1, 2, 2), '4d': (1, 2, -1, 2), '3dF': (2, -1, 2),
                 'xr1': (-1,), 'xr2': (-1, 2), 'xr3': (2, 2, -1), 'i8': (-1, 2), 'f4': (2, -1)}.get(sc)
        if 'large' in sc:
            q = vals[vals >= rtop]
            vals = q[(np.arange(int(np.prod(s['shape']))) * 7) % len(q)]
            shape = tuple(s['shape'])
        m = len(vals) if 'large' in sc else 1 if sc == '1' else (len(vals) // 4) * 4
        ps = vals[-m:].reshape(shape)
        if sc == '3dF':
            ps = np.asfortranarray(ps)
        if sc == 'i8':
            ps = np.ceil(ps).astype('i8')
        if sc == 'f4':
            ps = ps.astype('f4')
            ps = np.maximum(ps, np.float32(rtop))
        a = ps
        if sc.startswith('xr'):
            dims = ['time', 'lat', 'lon', 'ens'][:ps.ndim]
            a = xr.DataArray(ps, dims=dims, coords={d: np.arange(n) + 0.5 for d, n in zip(dims, ps.shape)}, attrs={'units': 'Pa', 'src': 'x'})
        if ps.dtype.kind == 'f':   # a missing surface pressure concerns its own column only
            n = ps.size
            full = np.array([model(lev, float(v), rtop) for v in ps.ravel()]).reshape(ps.shape + (len(lev),)) if n <= 200 else None
            for i in sorted({(0,), (n // 2,), (n - 1,), tuple(range(n))}) if n <= 200 else []:
                b = ps.copy().ravel(order='C')
                b[list(i)] = np.nan
                b = b.reshape(ps.shape)
                e = full.copy().reshape(n, -1)
                e[list(i)] = np.nan
                r = R.value(R.call(gc.delta_pressure, arg, a.copy(data=b) if sc.startswith('xr') else b, pressure_top=top), 'missing surface pressure')
                if r is None or not R.close(np.asarray(r), e.reshape(full.shape), 'missing surface pressure', rtol=1e-9 if 'f4' not in (s['lc'], sc) else 1e-5, atol=1e-9 if 'f4' not in (s['lc'], sc) else 1e-3):
                    return
        for fn in fns:
            r = R.value(R.call(fn, arg, a, pressure_top=top), 'array')
            if r is None:
                return
            e = np.array([model(lev, float(v), rtop) for v in ps.ravel()]).reshape(ps.shape + (len(lev),))
            R.close(np.asarray(r), e, 'thickness:array', rtol=1e-9 if 'f4' not in (s['lc'], sc) else 1e-5, atol=1e-9 if 'f4' not in (s['lc'], sc) else 1e-3)
            if sc.startswith('xr'):
                if R.true(isinstance(r, xr.DataArray), 'xr:type', type(r).__name__):
                    R.equal(tuple(r.dims), tuple(dims) + ('lev',), 'xr:dims')
                    R.close(r['lev'].values, np.array(lev), 'xr:lev-coordinate')
                    for d in dims:
                        R.close(r[d].values, a[d].values, 'xr:coords')
            else:
                R.true(isinstance(r, np.ndarray), 'np:type', type(r).__name__)


PROP = C17()
