"""empirical orthogonal functions"""
import itertools, math
import numpy as np, xarray as xr
from ..core import Prop, product, gen

SHAPES = {'6x4': (6, 4), '4x6': (4, 6), '5x5': (5, 5), '5x2x3': (5, 2, 3), '4x4x4': (4, 4, 4), '3x2x2x2': (3, 2, 2, 2), '7x1x3': (7, 1, 3)}
LARGE = {'14x12': (14, 12), '11x20': (11, 20), '30x3x5': (30, 3, 5)}
FIELDS = {'120x8x12': (120, 8, 12), '40x12x20': (40, 12, 20), '300x6': (300, 6), '12x400': (12, 400), '24x3x6x8': (24, 3, 6, 8)}
SCALES = {'K': (250., 1.), 'Pa': (1e5, 300.), 'kg/kg': (0., 1e-6), '1e10': (0., 1e10)}


def solve(X, center, ddof):
    """X: time x valid points -> eigenvalues (decreasing), eigenvectors, by eigen-decomposition of the covariance matrix"""
    N = X.shape[0]
    if center:
        X = X - X.mean(0)
    if X.shape[1] > 40:
        C = np.einsum('ti,tj->ij', X, X) / (N - ddof)
    else:
        C = np.array([[sum(X[t, i] * X[t, j] for t in range(N)) / (N - ddof) for j in range(X.shape[1])] for i in range(X.shape[1])])
    ev, V = np.linalg.eigh(C)
    o = np.argsort(ev)[::-1]
    return X, ev[o], V[:, o]


class P(Prop):
    id = 'C26'
    oracle = 'eigen-decomposition of the explicitly summed covariance matrix (the code uses an SVD), compared up to the sign of each mode, and PCs as projections of the data'
    assumptions = ['modes with a (relatively) zero or repeated eigenvalue have no unique pattern and only their eigenvalue is compared',
                   'time is the leftmost dimension, named time, of DataArrays']

    def bounds_text(self, tier):
        return ('7 small shapes (and three with 11-15 modes) x every position of the time axis (negative too) x number of modes 1..all x 3 scalings x 3 weight shapes x centred or not x ddof x missing-value '
                'placements x meta x ndarray/list/DataArray/float32/int8..int64 of any centring, fields up to 120x8x12 and 12x400, magnitudes 1e-6 to 1e10, weights of every kind, EOFs and PCs, deprecated wrappers')

    def scenarios(self, tier):
        th = tier == 'thorough'
        base = dict(shape='5x2x3', td=0, n='all', scal=0, w='none', center=True, ddof=1, nan='none', meta=False, cont='np', vf=False)
        for sh in SHAPES:
            nd = len(SHAPES[sh])
            for s in product(shape=[sh], td=list(range(-nd, nd)), n=[1, 2, 'all'], scal=[0, 1, 2], meta=[False, True], w=['none', 'point'] if th else ['none'], cont=['np', 'list'] + (['f4'] if th else [])):
                yield {**base, **s}
            for s in product(shape=[sh], w=['none', 'point', 'last', 'full', 'scalar'], center=[True, False], ddof=[0, 1, 2], scal=[0, 1, 2], nan=['none', 'point', 'cell', 'two'],
                             cont=['np', 'xr', 'xrc'], vf=[False, True]):
                if not s['center'] and s['nan'] in ('cell', 'two'):
                    continue
                if sh == '7x1x3' and s['nan'] == 'two':
                    continue
                if not th and (s['ddof'] == 2 or s['vf'] or s['cont'] != 'np') and s['scal'] and s['w'] != 'point':
                    continue
                yield {**base, **s}
            for s in product(shape=[sh], cont=['xr', 'xrc', 'xraux', 'f4', 'i8', 'xrname', 'xrtd'], meta=[False, True], n=[1, 3], scal=[0, 1, 2], nan=['none', 'point']):
                if s['cont'] == 'i8' and s['nan'] != 'none':
                    continue
                yield {**base, **s}
        for s in product(shape=list(LARGE), n=[1, 2, 3, 5, 10, 'all'], scal=[0, 1, 2], cont=['np', 'xr', 'xrc'], vf=[False, True], nan=['none', 'point'], w=['none', 'point'] if th else ['none'],
                         td=[0, -1]):
            if s['td'] == 0 or s['cont'] == 'np':
                yield {**base, **s}
        for s in product(shape=list(FIELDS), n=[1, 3, 10], scal=[0, 1, 2] if th else [0, 2], cont=['np', 'xrc', 'f4', 'list', 'i4'], nan=['none', 'point', 'cell', 'land'], w=['none', 'point', 'last'], td=[0, -1]):
            if (s['td'] == 0 or s['cont'] in ('np', 'list')) and not (s['cont'] == 'i4' and s['nan'] != 'none'):
                yield {**base, **s}
        for s in product(shape=['6x4', '5x2x3', '4x4x4'], cont=['i8', 'i2', 'u1'], center=[True, False], w=['none', 'point', 'scalar'], scal=[0, 1, 2], n=[1, 'all'], td=[0, -1]):
            yield {**base, **s}
        for s in product(shape=['6x4', '5x2x3', '30x3x5'], scale=list(SCALES), n=[1, 'all'], scal=[0, 1, 2], cont=['np', 'xr'], nan=['none', 'point'], ddof=[0, 1]):
            yield {**base, **s}
        for s in product(shape=['6x4', '5x2x3', '4x4x4'], w=['listw', 'intw', 'f4w', 'F', 'xw'], n=['all'], scal=[0, 1], cont=['np', 'xr', 'xrc', 'list', 'i2', 'u1'], meta=[False, True], nan=['none']):
            yield {**base, **s}
        for s in product(shape=['6x4', '5x2x3', '4x4x4'], cont=['eofunc', 'eofunc_ts'], td=['default', 0, 1, -1], n=[1, 2], meta=[None, False, True], nan=['np', 'list', 'xr']):
            yield {**base, **s}
        for k in ('neofs0', 'neofs-1', 'npcs0', 'npcs-1', 'td-high', 'td-low', 'pcs-td-high', 'pcs-td-low', 'nottime', 'allnan', '1d'):
            yield dict(base, cont='reject:' + k)

    def run(self, s, R):
        import geocat.comp as gc
        c = s['cont']
        if c.startswith('reject'):
            return self.reject(c.split(':')[1], R, gc)
        if c in ('eofunc', 'eofunc_ts'):
            return self.wrapper(s, R, gc)
        sh = {**SHAPES, **LARGE, **FIELDS}[s['shape']]
        x = gen(sh, 11, -6, 9) + 2 * gen((sh[0],) + (1,) * (len(sh) - 1), 5, -3, 3) * gen((1,) + sh[1:], 9, .2, 1)
        o, f = SCALES[s['scale']] if 'scale' in s else (0., 1.)
        x = o + f * x
        if c in ('i8', 'i4', 'i2', 'u1'):
            x = np.round(x * (1 if c == 'u1' else 10)) + (100 if c == 'u1' else 0)
        if c == 'f4':
            x = x.astype('f4').astype(float)
        if s['nan'] == 'point':
            x[(slice(None),) + (0,) * (len(sh) - 1)] = np.nan
        elif s['nan'] == 'cell':
            x[(1,) + (0,) * (len(sh) - 1)] = np.nan
        elif s['nan'] == 'land':
            x.reshape(sh[0], -1)[:, ::3] = np.nan
        elif s['nan'] == 'two':
            x[(0,) + tuple(n - 1 for n in sh[1:])] = np.nan
            x[(2,) + (0,) * (len(sh) - 1)] = np.nan
        w = {'none': None, 'point': gen(sh[1:], 4, .3, 2), 'last': gen(sh[-1:], 4, .3, 2), 'scalar': 3.0, 'full': np.broadcast_to(gen(sh[1:], 4, .3, 2), sh).copy()}.get(s['w'], 0)
        if s['w'] in ('listw', 'intw', 'f4w', 'F', 'xw'):
            w = gen(sh[1:], 4, 1, 5)
            w = {'intw': lambda: np.round(w).astype('i8'), 'f4w': lambda: w.astype('f4'), 'F': lambda: np.asfortranarray(w)}.get(s['w'], lambda: w)()
        X = x.reshape(sh[0], -1)
        if w is not None:
            ww = np.broadcast_to(w if s['w'] != 'full' else w[0], sh[1:]).ravel()
            X = X * ww
        ok = ~np.isnan(X).any(0)
        Xc, ev, V = solve(X[:, ok], s['center'], s['ddof'])
        k = min(sh[0], int(ok.sum()))
        n = k if s['n'] == 'all' else min(s['n'], k)
        nreq = n if s['n'] == 'all' else s['n']
        td = s['td']
        kw = dict(weights=w, center=s['center'], ddof=s['ddof'])
        if s['w'] == 'listw':
            kw['weights'] = w.tolist()
        kw = {a: b for a, b in kw.items() if not (a == 'weights' and b is None) and not (a == 'center' and b is True) and not (a == 'ddof' and b == 1)}
        if td:
            kw['time_dim'] = td
        if s['meta']:
            kw['meta'] = True
        d = np.moveaxis(x, 0, td)
        dn = ['time'] + ['la', 'lo', 'le'][:len(sh) - 1]
        if c == 'list':
            d = d.tolist()
        elif c in ('f4', 'i8', 'i4', 'i2', 'u1'):
            d = d.astype(c)
        elif c in ('xr', 'xrc', 'xraux', 'xrname', 'xrtd'):
            co = {} if c == 'xr' else {q: np.arange(m) * 2. + 1 for q, m in zip(dn, sh)}
            if c == 'xraux':
                co.update(month=('time', np.arange(sh[0]) % 12), area=(dn[1], np.arange(sh[1]) + 5.), level=500.)
            d = xr.DataArray(d, dims=dn, coords=co, attrs={'units': 'K'}, name='v' if c == 'xrname' else None)
            if c == 'xrtd':
                kw['time_dim'] = 1   # documented as ignored
        isx = isinstance(d, xr.DataArray)
        if s['w'] == 'xw':
            kw['weights'] = d.isel(time=0, drop=True).copy(data=w) if isx else w
        e = R.value(R.call(gc.eofunc_eofs, d, nreq, eofscaling=s['scal'], vfscaled=s['vf'], **kw), 'eofs')
        p = R.value(R.call(gc.eofunc_pcs, d, nreq, pcscaling=s['scal'], **kw), 'pcs')
        if e is None or p is None:
            return
        tol = 1e-3 if c == 'f4' else 1e-7
        tot = ev.sum()
        top = ev[:n]
        A = e.attrs
        R.close(A.get('eigenvalues'), top, 'eigenvalues', rtol=tol, atol=tol * ev[0])
        R.close(A.get('totalAnomalyVariance'), tot, 'total variance', rtol=tol)
        R.close(A.get('varianceFraction'), top / tot, 'variance fraction', rtol=tol, atol=tol)
        nt = top * math.sqrt(2 / sh[0])
        R.close(A.get('northTest'), nt / tot if s['vf'] else nt, 'North test', rtol=tol, atol=tol * ev[0])
        if not R.equal(e.shape, (n,) + sh[1:], 'eof shape') or not R.equal(p.shape, (n, sh[0]), 'pc shape'):
            return
        R.equal(tuple(p.dims), ('pc', 'time'), 'pc dims')
        R.equal(e.dims[0], 'eof', 'eof dims')
        # metadata
        if s['meta'] and isx:
            R.equal(e.dims[1:], tuple(dn[1:]), 'eof dims with meta')
            R.equal({q: np.asarray(v).tolist() for q, v in e.coords.items()}, {q: np.asarray(v).tolist() for q, v in d.coords.items() if 'time' not in v.dims}, 'eof coords')
            R.equal(p.attrs.get('units'), 'K', 'pc attrs')
            R.equal(A.get('units'), 'K', 'eof attrs')
            if 'time' in d.coords:
                R.close(p['time'].values, d['time'].values, 'pc time')
            R.equal(dict(d.attrs), {'units': 'K'}, 'input attributes untouched')
        else:
            R.true('time' not in e.dims and 'units' not in A and 'units' not in p.attrs, 'no metadata asked for', (e.dims, list(A)))
        E = np.asarray(e.values, float).reshape(n, -1)
        Pn = np.asarray(p.values, float)
        if not R.close(np.isnan(E), np.broadcast_to(~ok, E.shape), 'missing points of the EOFs'):
            return
        gap = [min([abs(ev[i] - ev[j]) for j in range(len(ev)) if j != i] or [ev[0]]) for i in range(n)]
        for i in range(n):
            if ev[i] < 1e-6 * ev[0] or gap[i] < 1e-4 * ev[0]:
                continue
            f = {0: 1.0, 1: 1 / math.sqrt(ev[i]), 2: math.sqrt(ev[i])}[s['scal']]
            v = V[:, i]
            sg = 1.0 if np.dot(E[i, ok], v) > 0 else -1.0
            R.close(E[i, ok], sg * v * f, 'eof pattern', rtol=tol, atol=tol * f * 10)
            pc = Xc @ v
            sp = 1.0 if np.dot(Pn[i], pc) > 0 else -1.0
            R.close(Pn[i], sp * pc * f, 'principal component', rtol=tol, atol=tol * f * 10 * math.sqrt(ev[0]))
            R.true(sg == sp, 'signs of EOF and PC agree', i)

    def wrapper(self, s, R, gc):
        sh = SHAPES[s['shape']]
        x = gen(sh, 11, -6, 9)
        d = {'np': lambda: x, 'list': lambda: x.tolist(), 'xr': lambda: xr.DataArray(x, dims=['time', 'q', 'r'][:len(sh)])}[s['nan']]()
        td = len(sh) - 1 if s['td'] == 'default' else s['td']
        kw = {} if s['td'] == 'default' else {'time_dim': s['td']}
        if s['meta'] is not None:
            kw['meta'] = s['meta']
        if s['cont'] == 'eofunc':
            o = R.call(gc.eofunc, d, s['n'], **kw)
            ref = gc.eofunc_eofs(x, neofs=s['n'], time_dim=td)
        else:
            o = R.call(gc.eofunc_ts, d, np.ones((s['n'], 2)), **kw)
            ref = gc.eofunc_pcs(x, npcs=s['n'], time_dim=td)
        R.true(any(issubclass(w.category, PendingDeprecationWarning) for w in o.warns), 'deprecation warning', '')
        r = R.value(o, 'wrapper')
        if r is not None:
            R.close(np.asarray(r), ref.values, 'wrapper value')
            R.equal(set(r.attrs), set(ref.attrs), 'wrapper attributes')

    def reject(self, k, R, gc):
        x = gen((5, 3, 4), 1)
        V = (ValueError,)
        fn = gc.eofunc_pcs if 'pcs' in k else gc.eofunc_eofs
        if k[1:5] in ('eofs', 'pcs0', 'pcs-') or k.startswith('npcs'):
            R.raises(R.call(fn, x, int(k[5:] if 'eofs' in k else k[4:])), k, V)
        elif 'td-high' in k:
            R.raises(R.call(fn, x, time_dim=3), k, V)
        elif 'td-low' in k:
            R.raises(R.call(fn, x, time_dim=-4), k, V)
        elif k == 'nottime':
            R.raises(R.call(fn, xr.DataArray(x, dims=['a', 'time', 'b'])), k, V)
        elif k == 'allnan':
            R.raises(R.call(fn, x * np.nan), k, V)
        else:
            R.raises(R.call(fn, x[:, 0, 0]), k, V)


PROP = P()
