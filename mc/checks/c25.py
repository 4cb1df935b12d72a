"""Pearson correlation"""
import itertools, math
import numpy as np, xarray as xr
from ..core import Prop, product, gen

SH = {'5': (5,), '34': (3, 4), '44': (4, 4), '51': (5, 1), '234': (2, 3, 4), '333': (3, 3, 3), '432': (4, 3, 2)}
BIG = {'1000': (1000,), '50x40': (50, 40), '73x20x3': (73, 20, 3), '12x30x40': (12, 30, 40)}
SCALES = {'K': (250., 1.), 'Pa': (1e5, 300.), 'kg/kg': (0., 1e-6), '1e12': (0., 1e12), '-273': (-273., .5)}
DN = 'pqr'


def corr(a, b, w, skip):
    """one sample, plain floats"""
    t = list(zip(a, b, w if w is not None else [1.0] * len(a)))
    if skip:
        t = [x for x in t if not (math.isnan(x[0]) or math.isnan(x[1]))]
    if any(math.isnan(x[0]) or math.isnan(x[1]) for x in t) or not t:
        return math.nan
    W = sum(x[2] for x in t)
    if W == 0:
        return math.nan
    ma, mb = sum(x[0] * x[2] for x in t) / W, sum(x[1] * x[2] for x in t) / W
    n = sum(x[2] * (x[0] - ma) * (x[1] - mb) for x in t)
    d = math.sqrt(sum(x[2] * (x[0] - ma) ** 2 for x in t) * sum(x[2] * (x[1] - mb) ** 2 for x in t))
    return max(-1.0, min(1.0, n / d)) if d else math.nan


def reduce(a, b, w, axes, skip):
    keep = [i for i in range(a.ndim) if i not in axes]
    out = np.empty([a.shape[i] for i in keep])
    mv = lambda x: np.transpose(x, keep + list(axes)).reshape(out.shape + (-1,))
    A, B, W = mv(a), mv(b), None if w is None else mv(w)
    for i in np.ndindex(*out.shape):
        out[i] = corr(A[i].tolist(), B[i].tolist(), None if W is None else W[i].tolist(), skip)
    return out


class P(Prop):
    id = 'C25'
    oracle = 'weighted covariance over weighted standard deviations of each sample in scalar loops, pairs with a missing member dropped when asked'
    assumptions = ['a and b have the same shape and container', 'samples that are constant, or with fewer than three valid pairs, are not compared',
                   'weights of xarray inputs are DataArrays with the reduced dimensions (or all)']

    def bounds_text(self, tier):
        return ('7 shapes up to 3-d (square ones included) x every axis / every ordered subset of dimensions x none/full/1-d weights incl. zeros x skipna x 7 missing-value '
                'patterns (and every single element) x ndarray/list/DataArray/Dataset/dask/float32/int/strided; samples of up to 14400 pairs, magnitudes 1e-6 to 1e12, small and mixed types')

    def scenarios(self, tier):
        th = tier == 'thorough'
        nans = ['none', 'a', 'b', 'both', 'row', 'slab', 'alla']
        for sh in SH:
            nd = len(SH[sh])
            axes = [None] + list(range(nd)) + [-k for k in range(1, nd + 1)]
            for s in product(sh=[sh], axis=axes, w=['none', 'full', '1d', 'zeros'], skip=[False, True], nan=nans, cont=['np', 'list', 'f4', 'i8', 'F', 'strided', 'tuple']):
                if s['w'] == '1d' and s['axis'] is None and nd > 1 or s['cont'] == 'i8' and s['nan'] != 'none':
                    continue
                if not th and s['cont'] not in ('np', 'list') and s['nan'] in ('a', 'b', 'slab'):
                    continue
                yield s
            dims = [None] + [list(p) for k in range(1, nd + 1) for p in itertools.permutations(range(nd), k)] + [{'d': i} for i in range(nd)]
            for s in product(sh=[sh], dim=dims, w=['none', 'full', 'dims', 'zeros'], skip=[False, True], nan=nans, cont=['xr', 'ds', 'dask', 'xrT', 'f4x']):
                if s['cont'] == 'dask' and s['dim'] is None:
                    pass
                if not th and s['cont'] != 'xr' and (s['nan'] in ('a', 'b', 'row', 'slab') or s['w'] == 'zeros'):
                    continue
                if not th and isinstance(s['dim'], list) and len(s['dim']) == 3 and s['dim'] != [0, 1, 2] and s['dim'] != [2, 0, 1]:
                    continue
                yield dict(s, xr=1)
        for at in range(24):
            for s in product(sh=['234'], axis=[None, 0, 1, 2], w=['none', 'full'], skip=[False, True], nan=['at'], cont=['np']):
                yield dict(s, at=at)
            for s in product(sh=['234'], dim=[None, [1], [2, 0]], w=['none', 'full'], skip=[False, True], nan=['at'], cont=['xr']):
                yield dict(s, at=at, xr=1)
        # ordinary sizes and magnitudes
        for sh in BIG:
            nd = len(BIG[sh])
            for s in product(sh=[sh], axis=[None] + list(range(-nd, nd)), w=['none', 'full', '1d'], skip=[False, True], nan=['none', 'both', 'some', 'row'], cont=['np', 'list', 'f4', 'i4', 'F']):
                if s['w'] == '1d' and s['axis'] is None and nd > 1 or s['cont'] == 'i4' and s['nan'] != 'none' or s['cont'] == 'list' and sh == '12x30x40' and not th:
                    continue
                yield s
            for s in product(sh=[sh], dim=[None] + [[i] for i in range(nd)] + ([[0, 1], [nd - 1, 0]] if nd > 1 else []), w=['none', 'dims'], skip=[False, True], nan=['none', 'both', 'some', 'slab'],
                             cont=['xr', 'ds', 'dask', 'xrT', 'f4x']):
                yield dict(s, xr=1)
        for s in product(sh=['34', '234', '50x40'], scale=list(SCALES), axis=[None, 0, -1], w=['none', 'full'], skip=[False, True], nan=['none', 'both'], cont=['np', 'list']):
            yield s
        for s in product(sh=['34', '234', '50x40'], scale=list(SCALES), dim=[None, [0], [1, 0]], w=['none', 'dims'], skip=[False, True], nan=['none', 'both'], cont=['xr', 'dask']):
            yield dict(s, xr=1)
        for s in product(sh=['5', '34', '234'], axis=[None, 0, -1], w=['none', 'full', 'int', 'f4w', 'listw'], skip=[False, True], nan=['none'], cont=['np', 'i4', 'u1', 'b1', 'i2', 'mixed', 'mix2']):
            yield s
        for k in ('dimaxis-np', 'dimaxis-xr', 'keep-true', 'keep-false', 'self', 'anti', 'keep-ds', 'positional'):
            yield dict(kind=k)

    def data(self, s):
        sh = {**SH, **BIG}[s['sh']]
        a, b = gen(sh, 3, -5, 5), gen(sh, 8, 0, 9)
        b = b + .4 * a
        o, f = SCALES[s['scale']] if 'scale' in s else (0., 1.)
        a, b = o + f * a, o + f * b
        if s['cont'] in ('i4', 'u1', 'i2', 'mixed', 'mix2'):
            a, b = np.round(a * 10 + 100), np.round(b * 10 + 100) if s['cont'] != 'mix2' else b
        if s['cont'] == 'b1':
            a, b = (a > 0) * 1., (b > 4) * 1.
        n = s['nan']
        if s['cont'] == 'i8':
            a, b = np.round(a * 10), np.round(b * 10)
        if s['cont'] in ('f4', 'f4x'):
            a, b = a.astype('f4').astype(float), b.astype('f4').astype(float)
        if n in ('a', 'both'):
            a.flat[1] = np.nan
        if n in ('b', 'both'):
            b.flat[-1] = np.nan
        if n == 'row':
            a[0] = np.nan
        if n == 'slab':
            b[..., 0] = np.nan
        if n == 'alla':
            a[...] = np.nan
        if n == 'some':
            a.flat[::11] = np.nan
            b.flat[::7] = np.nan
        if n == 'at':
            a.flat[s['at']] = np.nan
            b.flat[(s['at'] * 7 + 3) % b.size] = np.nan
        return a, b

    def run(self, s, R):
        import geocat.comp as gc
        if 'kind' in s:
            return self.special(s['kind'], R, gc)
        a, b = self.data(s)
        nd = a.ndim
        w = None
        if s['w'] in ('full', 'zeros', 'int', 'f4w', 'listw'):
            w = gen(a.shape, 5, .1, 3)
            if s['w'] == 'int':
                w = np.round(w) + 1
            if s['w'] == 'f4w':
                w = w.astype('f4').astype(float)
            if s['w'] == 'zeros':
                w.flat[::3] = 0.0
                if s['sh'] == '234':
                    w[0, 0, 1] = .5
        tol = 2e-4 if s['cont'] in ('f4', 'f4x', 'mixed') or s['w'] == 'f4w' else 1e-8
        kw = {'skipna': True} if s['skip'] else {}
        if not s.get('xr'):
            ax = s['axis']
            red = tuple(range(nd)) if ax is None else (ax % nd,)
            wa = w
            if s['w'] == '1d':
                v = gen((a.shape[red[0]],), 5, .1, 3)
                w = np.empty(a.shape)
                for i in np.ndindex(*a.shape):
                    w[i] = v[i[red[0]]]
                wa = v
            if s['cont'] in ('i4', 'u1', 'b1', 'i2', 'mixed', 'mix2'):
                t = {'i4': ('i4', 'i4'), 'u1': ('u1', 'u1'), 'b1': ('?', '?'), 'i2': ('i2', 'i2'), 'mixed': ('i2', 'f4'), 'mix2': ('i8', 'f8')}[s['cont']]
                X = None
            else:
                t = None
            X = lambda x: {'np': lambda: x, 'list': lambda: x.tolist(), 'tuple': lambda: tuple(x.tolist()), 'f4': lambda: x.astype('f4'), 'i8': lambda: x.astype('i8'),
                           'F': lambda: np.asfortranarray(x), 'strided': lambda: np.repeat(x, 2, -1)[..., ::2]}[s['cont']]()
            args = [X(a), X(b)] if t is None else [a.astype(t[0]), b.astype(t[1])]
            if wa is not None:
                kw['weights'] = wa.tolist() if s['cont'] in ('list', 'tuple') or s['w'] == 'listw' else wa.astype('i8' if s['w'] == 'int' else 'f4' if s['w'] == 'f4w' else 'f8')
            if ax is not None:
                kw['axis'] = ax
            o = R.call(gc.pearson_r, *args, **kw)
        else:
            d = s['dim']
            red = tuple(range(nd)) if d is None else (d['d'],) if isinstance(d, dict) else tuple(d)
            dn = list(DN[:nd])
            mk = lambda x: xr.DataArray(x, dims=dn, coords={k: np.arange(n) * 2. for k, n in zip(dn, x.shape)})
            wa = None
            if w is not None:
                wa = mk(w)
                if s['w'] == 'full' and d is not None and len(red) < nd:
                    # xskillscore asks for weights with the reduced dimensions only
                    wa = wa.isel({dn[i]: 0 for i in range(nd) if i not in red})
                    w = np.broadcast_to(np.expand_dims(wa.values, [i for i in range(nd) if i not in red]), a.shape)
                elif s['w'] == 'zeros' and len(red) < nd:
                    return
            elif s['w'] == 'dims':
                v = gen([a.shape[i] for i in sorted(red)], 6, .1, 3)
                wa = xr.DataArray(v, dims=[dn[i] for i in sorted(red)], coords={dn[i]: np.arange(a.shape[i]) * 2. for i in red})
                w = np.broadcast_to(np.expand_dims(v, [i for i in range(nd) if i not in red]), a.shape)
            A, B = mk(a), mk(b)
            if s['cont'] == 'f4x':
                A, B = A.astype('f4'), B.astype('f4')
            if s['cont'] == 'xrT':
                B = B.transpose(*dn[::-1])
            if s['cont'] == 'dask':
                A, B = A.chunk({dn[0]: 2}), B.chunk({dn[-1]: 1})
                if any(True for _ in red):   # core dimensions are single chunks, as dask needs
                    A, B = A.chunk({dn[i]: -1 for i in red}), B.chunk({dn[i]: -1 for i in red})
            if s['cont'] == 'ds':
                A, B = xr.Dataset({'u': A, 'v': B}), xr.Dataset({'u': B, 'v': A})
            if wa is not None:
                kw['weights'] = wa
            if d is not None:
                kw['dim'] = dn[d['d']] if isinstance(d, dict) else [dn[i] for i in d]
            o = R.call(gc.pearson_r, A, B, **kw)
        r = R.value(o, 'pearson_r')
        if r is None:
            R.true(o.ok is False, 'no result', 'returned None')
            return
        e = reduce(a, b, w, red, s['skip'])
        # too few valid pairs or a constant sample: rounding decides
        valid = ~(np.isnan(a) | np.isnan(b)) & (True if w is None else (w > 0))
        few = valid.sum(axis=red) < 3
        if not s['skip']:
            few = few & ~np.isnan(e)
        else:
            few = few & (valid.sum(axis=red) > 0)
        few |= np.array([a.shape[i] for i in red]).prod() < 3
        if s.get('xr') and s['cont'] != 'ds':
            if not R.equal(list(r.dims), [DN[i] for i in range(nd) if i not in red], 'dims'):
                return
        rs = [r] if s['cont'] != 'ds' else [r['u'], r['v']]
        for x in rs:
            if isinstance(x, xr.DataArray):
                x = x.values
            R.close(x, e, 'correlation', atol=tol, rtol=tol, skip=few)

    def special(self, k, R, gc):
        a, b = gen((3, 4), 1), gen((3, 4), 2)
        A, B = (xr.DataArray(x, dims=['p', 'q'], attrs={'n': i}) for i, x in enumerate((a, b)))
        e = corr(a.ravel().tolist(), b.ravel().tolist(), None, False)
        if k == 'dimaxis-np':
            o = R.call(gc.pearson_r, a, b, dim='p', axis=0)
            R.true(any(issubclass(w.category, UserWarning) and 'dim' in str(w.message) for w in o.warns), 'unused dim is warned about', [str(w.message) for w in o.warns])
            R.close(o.value, reduce(a, b, None, (0,), False), 'axis wins')
        elif k == 'dimaxis-xr':
            o = R.call(gc.pearson_r, A, B, dim='p', axis=1)
            R.true(any(issubclass(w.category, UserWarning) and 'axis' in str(w.message) for w in o.warns), 'unused axis is warned about', [str(w.message) for w in o.warns])
            R.close(o.value, reduce(a, b, None, (0,), False), 'dim wins')
        elif k.startswith('keep'):
            X, Y = (A, B) if k != 'keep-ds' else (A.to_dataset(name='z'), B.to_dataset(name='z'))
            r = R.value(R.call(gc.pearson_r, X, Y, keep_attrs=k != 'keep-false'), k)
            if r is not None:
                q = r['z'] if k == 'keep-ds' else r
                R.equal(q.attrs, {} if k == 'keep-false' else {'n': 0}, 'attributes')
                R.close(q.values, e, 'correlation')
        elif k in ('self', 'anti'):
            for x, y in ((a, a), (A, A)):
                R.close(np.asarray(R.value(R.call(gc.pearson_r, x, y * (1 if k == 'self' else -2)), k)), 1.0 if k == 'self' else -1.0, 'bounds', rtol=1e-12)
        elif k == 'positional':
            w = xr.DataArray(gen((3,), 4, .1, 2), dims=['p'])
            r = R.value(R.call(gc.pearson_r, A, B, 'p', w, True, True), k)
            if r is not None:
                R.close(r.values, reduce(a, b, np.repeat(w.values[:, None], 4, 1), (0,), True), 'positional')
                R.equal(r.attrs, {'n': 0}, 'positional attrs')
            r = R.value(R.call(gc.pearson_r, a, b, None, None, False, False, 1), k)
            if r is not None:
                R.close(r, reduce(a, b, None, (1,), False), 'positional axis')


PROP = P()
