"""element-wise functions: every sequence of representative points, in every container and shape"""
import itertools
import numpy as np, xarray as xr

SHAPES = [(), (1,), (6,), (2, 3), (3, 1, 2), (1, 1), (6, 1), (1, 2, 3, 1)]
FORMS = ['float', 'npfloat', 'nd', 'list', 'xr', 'xrco', 'dask']


def wrap(form, a):
    d = ['p', 'q', 'r', 's'][:a.ndim]
    if form in ('float', 'npfloat'):
        return (float(a) if form == 'float' else np.float64(a)) if a.ndim == 0 else None
    if form == 'list':
        return a.tolist() if a.ndim else None
    if form == 'nd':
        return a
    if form == 'dask':
        return xr.DataArray(a, dims=d).chunk({k: 1 for k in d[:1]}) if a.ndim else None
    return xr.DataArray(a, dims=d, coords={k: np.arange(n) + .5 for k, n in zip(d, a.shape)} if form == 'xrco' else {}, name='q')


def sequences(points, depth):
    """all sequences of the points up to a length (order and repetition matter)"""
    for k in range(1, depth + 1):
        yield from itertools.product(range(len(points)), repeat=k)


def check(R, fn, name, rows, exp, forms, shapes, tol, kw, alt=None, skip=None):
    """fn of the rows (one column per argument) in every container and shape against the scalar model"""
    cols = [np.array(c, float) for c in zip(*rows)]
    n = len(rows)
    for sh in shapes:
        m = int(np.prod(sh)) if -1 not in sh else n
        if m > n:
            continue
        for form in forms:
            a = [wrap(form, c[:m].reshape(sh)) for c in cols]
            if a[0] is None:
                continue
            o = R.call(fn, *a, **kw)
            v = R.value(o, f'{name} of {form} {sh}')
            if v is None:
                return False
            if form in ('xr', 'xrco', 'dask'):
                if not R.true(isinstance(v, xr.DataArray), f'{name}: container', type(v).__name__):
                    return False
                R.equal(v.dims, a[0].dims, f'{name}: dimensions')
                R.equal(sorted(v.coords), sorted(a[0].coords), f'{name}: coordinates')
                v = v.compute().values
            elif form == 'nd' and sh:
                R.true(isinstance(v, np.ndarray), f'{name}: container', type(v).__name__)
            g = np.asarray(v, float)
            if not R.equal(g.shape, np.empty(m).reshape(sh).shape, f'{name}: shape of {form}'):
                return False
            cut = lambda x: None if x is None else np.asarray(x)[:m].reshape(g.shape)
            if not R.close(g, cut(exp), f'{name}: value', alt=cut(alt), skip=cut(skip), **tol):
                return False
    return True
