"""C12 pressures and layer thicknesses of hybrid coordinates"""
import itertools, math
import numpy as np, xarray as xr
from ..core import Prop, product, gen
from .. import hyb as H

NAMES = ['time', 'lat', 'lon', 'ens']


class P(Prop):
    id = 'C12'
    oracle = 'p[k] = hya[k]*p0 + hyb[k]*ps and |p[k+1]-p[k]| evaluated in scalar loops'
    assumptions = ['level coefficients are one-dimensional, except pressure_at_hybrid_levels with DataArrays, where they may vary in time',
                   'p0 is an int or a float (for pressures also a numpy scalar)']

    def bounds_text(self, tier):
        return ('ranks 0-4 of surface pressure x all sizes in {1,2,3} per dimension (so that nlev equals every axis length) x 7 coefficient '
                'sets (levels stored downward and upward) x containers x coordinate layouts x p0 x chunking')

    def scenarios(self, tier):
        th = tier == 'thorough'
        for nd in range(0, 5):
            sizes = list(itertools.product([1, 2, 3, 4] if th else [1, 2, 4], repeat=nd))
            if nd == 4:
                sizes = list(itertools.product([1, 2], repeat=4)) + ([(3, 2, 3, 2), (2, 4, 1, 3)] if th else [])
            for sh in sizes:
                for c in (['two', 'three', 'mixed', 'top', 'six', 'sigma', 'pressure'] if th else ['two', 'mixed', 'top', 'three']):
                    for kind in ('np', 'xr', 'xrcoord', 'xrscalar', 'mixnp', 'mixxr', 'names', 'dask', 'time', 'f4', 'masked'):
                        if kind == 'np' and nd == 0:
                            continue
                        if kind == 'time' and nd == 0:
                            continue
                        if not th and nd >= 3 and kind not in ('np', 'xr', 'xrscalar', 'mixnp', 'mixxr'):
                            continue
                        for flip in (False, True) if nd <= 2 or th else (False,):
                            yield dict(shape=list(sh), coef=c, kind=kind, flip=flip)

        for sh in [[40, 60], [1500], [3, 30, 41], [20, 7], [2, 4, 12, 15]]:
            for c in ('l30', 'l20', 'l65', 'two'):
                for kind in ('np', 'xr', 'xrcoord', 'dask', 'f4', 'mixnp', 'mixxr'):
                    for flip in (False, True):
                        if not th and flip and kind not in ('np', 'xr'):
                            continue
                        yield dict(shape=sh, coef=c, kind=kind, flip=flip)

    def run(self, s, R):
        import geocat.comp as gc
        sh, kind = tuple(s['shape']), s['kind']
        a, b = H.coef(s['coef'], s['flip'])
        n = len(a)
        ps = gen(sh, 3, 50000, 105000) if sh else np.array(87654.5)
        if kind == 'f4':
            ps = ps.astype('f4')
        if kind == 'masked' and ps.size:
            ps = np.array(ps)
            ps.reshape(-1)[0] = np.nan
        dims = NAMES[:len(sh)]
        A, B = np.array(a), np.array(b)
        for p0 in (100000.0, 100000, 1.0, 1013.25, 101325, 500, 7.0e5, np.float64(98000.5), np.int64(100000), np.float32(1e5)):
            P = np.empty((n,) + sh)
            for k in range(n):
                P[k] = a[k] * float(p0) + b[k] * ps.astype(float)
            D = np.abs(P[1:] - P[:-1])
            tol = 1e-5 if kind == 'f4' else 1e-12
            lev = {'lev': np.arange(n) * 100.0 + 5} if kind in ('xrcoord', 'xrscalar', 'dask') else {}
            sc = {'aux': 3.0, 'month': 7} if kind == 'xrscalar' else {}
            xps = xr.DataArray(ps, dims=dims, coords={d: np.arange(m) * 2.0 for d, m in zip(dims, sh)} if kind == 'xrcoord' else {},
                               attrs={'units': 'Pa', 'q': 1}, name='PS')
            xa = xr.DataArray(A, dims=['lev'], coords={**sc, **lev}, attrs={'x': 1}, name='hyam')
            xb = xr.DataArray(B, dims=['lev2' if kind == 'names' else 'lev'], coords={**sc, **lev} if kind != 'names' else {}, name='hybm')
            if kind == 'dask':
                xps = xps.chunk({d: max(1, xps.sizes[d] // 3) for d in dims})
            if kind in ('np', 'f4', 'masked') and sh:
                args_p = args_d = (ps, A, B)
                out = 'np'
            elif kind == 'mixnp':
                args_p, args_d, out = None, (ps, xa, xb), 'np'
                if not sh:
                    continue
            elif kind == 'mixxr':
                args_p, args_d, out = None, (xps, A, B), 'xr'
            else:
                args_p = args_d = (xps, xa, xb)
                out = 'xr'
            if args_p is not None:
                kw = {} if p0 == 100000.0 and isinstance(p0, float) else {'p0': p0}
                r = R.value(R.call(gc.pressure_at_hybrid_levels, *args_p, **kw), 'pressure')
                if r is not None:
                    if out == 'np':
                        R.true(isinstance(r, np.ndarray), 'pressure container', type(r).__name__)
                        R.close(r, P, 'pressure', rtol=tol)
                    else:
                        R.equal(list(r.dims), ['lev'] + dims, 'pressure dims')
                        for q in xps.coords:
                            R.true(q in r.coords and r[q].equals(xps[q]), 'pressure coordinates', q)
                        R.close(r.transpose('lev', *dims).values, P, 'pressure', rtol=tol)
            else:
                R.raises(R.call(gc.pressure_at_hybrid_levels, *args_d), 'pressure of mixed containers', (TypeError,))
            if kind == 'time' and sh:
                # coefficients that vary along the first dimension, DataArrays only
                f = np.arange(1, sh[0] + 1.0)
                ta = xa * xr.DataArray(f, dims=[dims[0]])
                tb = xb * xr.DataArray(1 / f, dims=[dims[0]])
                r = R.value(R.call(gc.pressure_at_hybrid_levels, xps, ta, tb, p0), 'pressure time')
                if r is not None:
                    fs = f.reshape((-1,) + (1,) * (len(sh) - 1))
                    Pt = np.stack([a[k] * fs * float(p0) + b[k] / fs * ps for k in range(n)])
                    R.close(r.transpose('lev', *dims).values, Pt, 'pressure of varying coefficients', rtol=1e-12)
            if isinstance(p0, np.generic):
                continue
            r = R.value(R.call(gc.delta_pressure_hybrid, *args_d, p0), 'thickness')
            if r is None:
                continue
            if out == 'np':
                R.true(isinstance(r, np.ndarray), 'thickness container', type(r).__name__)
                R.close(r, D, 'thickness', rtol=tol, atol=1e-7 if kind != 'f4' else 1)
            else:
                R.true(isinstance(r, xr.DataArray), 'thickness container', type(r).__name__)
                ld = [d for d in r.dims if d not in dims]
                if R.equal(len(ld), 1, 'thickness dims'):
                    if kind != 'mixxr':
                        R.equal(ld, ['lev'], 'thickness level name')
                    R.close(r.transpose(ld[0], *dims).values, D, 'thickness', rtol=tol, atol=1e-7 if kind != 'f4' else 1)
                    R.equal(list(r.dims), ld + dims, 'thickness dims')
                    for q in xps.coords:
                        R.true(q in r.coords and r[q].equals(xps[q]), 'thickness coordinates', q)
                R.equal((r.name, r.attrs.get('units'), r.attrs.get('long_name')), ('dph', 'Pa', 'pressure layer thickness'), 'thickness metadata')


PROP = P()
