"""C15 sigma to hybrid interpolation"""
import itertools
import numpy as np, xarray as xr
from ..core import Prop, product, gen
from .. import hyb as H

SIG = {'four': [0.125, 0.375, 0.625, 1.0], 'two': [0.25, 0.75], 'six': [0.0625, 0.1875, 0.3125, 0.5, 0.8125, 0.9375], 'three': [0.125, 0.5, 1.0], 's18': [((k + .7) / 18.3) ** 1.3 for k in range(18)], 's60': [(k + .6) / 60.9 for k in range(60)]}
PERM = {1: ['l'], 2: ['lx', 'xl'], 3: [''.join(p) for p in itertools.permutations('lyx')], 4: [''.join(p) for p in itertools.permutations('tlyx')]}
NAME = {'l': 'lev', 'x': 'lon', 'y': 'lat', 't': 'time'}


class P(Prop):
    id = 'C15'
    oracle = 'scalar piecewise-linear interpolation in sigma (or log sigma) of every column at hya*p0/ps + hyb, NaN outside'
    assumptions = ['data and surface pressure share their horizontal coordinates', 'the value of the hlev coordinate is not claimed: sigma varies from column to column']

    def bounds_text(self, tier):
        return ('4 sigma axes x 7 hybrid coefficient sets (fewer, equal and more levels) x storage direction x all permutations of up to 4 dimensions x '
                'order of the dimensions of ps x method x missing level x missing surface pressures x dtype x chunking')

    def scenarios(self, tier):
        th = tier == 'thorough'
        base = dict(sig='four', coef='mixed', flip=False, perm='lyx', psrev=False, method='linear', nan=-1, kind='plain', coords=True)
        for s in product(sig=['four', 'two', 'six', 'three'], coef=list(H.COEF), flip=[False, True], method=['linear', 'log'], perm=['l', 'lx', 'xl'] + (PERM[3] if th else []),
                         nan=[-1, 0, 1]):
            yield {**base, **s}
        for nd in PERM:
            for s in product(perm=PERM[nd], sig=['four', 'six'], coef=['mixed', 'top', 'two'] if th else ['mixed', 'top'], psrev=[False, True],
                             kind=['plain', 'dask', 'lazyps', 'f4', 'i8', 'renamed'] if th or nd < 4 else ['plain', 'dask'], coords=[True, False]):
                yield {**base, **s}
        # missing surface pressures
        for s in product(psnan=['first', 'last', 'all'], perm=['l', 'lx', 'xl', 'lyx', 'yxl', 'tlyx'], sig=['four', 'two', 'six'], coef=['mixed', 'top', 'two', 'pressure'], kind=['plain', 'dask', 'lazyps', 'i8'], method=['linear', 'log']):
            yield {**base, **s}
        # realistic sizes
        for s in product(sig=['s18', 's60'], coef=['l30', 'l20'], size=[[1, 20, 30], [2, 7, 9], [1, 1, 300]] if not th else [[1, 40, 60], [5, 12, 16], [1, 1, 1500], [3, 150, 4]], perm=['lyx', 'tlyx', 'yxl'], kind=['plain', 'dask', 'f4'],
                         method=['linear', 'log'], nan=[-1, 1], psrev=[False, True]):
            if s['perm'] != 'tlyx' and s['size'][0] > 1:
                continue
            if s['kind'] == 'dask':   # one task per column
                if s['size'][0] > 1:
                    continue
                s['size'] = [1, 5, s['size'][2] % 9 + 4]
            if not th and (s['nan'] >= 0) + (s['kind'] != 'plain') + (s['method'] == 'log') + s['psrev'] > 1:
                continue
            yield {**base, **s}

    def run(self, s, R):
        import geocat.comp as gc
        sg = SIG[s['sig']]
        a, b = H.coef(s['coef'])
        n, m = len(sg), len(a)
        perm = s['perm']
        sz = {'x': 3, 'y': 2, 't': 2}
        if 'size' in s:
            sz.update(zip('tyx', s['size']))
        hd = [c for c in 'tyx' if c in perm]
        hs = tuple(sz[c] for c in hd)
        ncol = int(np.prod(hs)) if hs else 1
        p0 = 102400.0
        ps = np.array([[102400.0, 51200.0, 76800.0, 81920.0, 64000.0, 96000.0][i % 6] for i in range(ncol)]).reshape(hs)
        if 'size' in s:
            ps = gen(hs, 6, 51000, 104000)
        vals = gen((n,) + hs, 21, -50, 50)
        if s.get('psnan'):
            ps.reshape(-1)[{'first': 0, 'last': -1, 'all': slice(None)}[s['psnan']]] = np.nan
        if s['kind'] == 'f4':
            vals = vals.astype('f4')
        if s['kind'] == 'i8':
            vals = np.round(vals).astype('i8')
        if s['nan'] >= 0:
            vals.reshape(n, -1)[s['nan'], ncol - 1] = np.nan
        exp = np.empty((m, ncol))
        skip = np.zeros((m, ncol), bool)
        for i in range(ncol):
            for k in range(m):
                if np.isnan(ps.reshape(-1)[i]):
                    exp[k, i] = np.nan
                    continue
                x = a[k] * p0 / float(ps.reshape(-1)[i]) + b[k]
                # a target within rounding of a level that ends the column, or touches a missing one
                near = min(abs(x - v) for v in sg) < 1e-12
                exp[k, i], sure = H.interp(sg, [float(v) for v in vals.reshape(n, -1)[:, i]], x, s['method'] == 'log')
                skip[k, i] = (near and x not in sg) or not sure
        cx = {NAME[c]: np.arange(sz[c]) * 2.0 + 1 for c in hd} if s['coords'] else {}
        sl = sg[::-1] if s['flip'] else sg
        data = xr.DataArray(vals[::-1] if s['flip'] else vals, dims=['lev'] + [NAME[c] for c in hd], coords={**cx, 'lev': np.array(sl)}, attrs={'u': 'm'}, name='U')
        data = data.transpose(*[NAME[c] for c in perm])
        pd = [NAME[c] for c in hd]
        xps = xr.DataArray(ps, dims=pd, coords=cx)
        if s['psrev']:
            xps = xps.transpose(*pd[::-1])
        sig = xr.DataArray(np.array(sl), dims=['lev'], coords={'lev': np.array(sl)})
        hd_ = 'hyb' if s['kind'] == 'renamed' else 'lev'
        ha, hb = xr.DataArray(np.array(a), dims=[hd_]), xr.DataArray(np.array(b), dims=[hd_])
        if s['kind'] == 'dask':
            data, xps = data.chunk({d: max(1, data.sizes[d] // 3) for d in data.dims if d != 'lev'}), xps.chunk()
        if s['kind'] == 'lazyps':
            xps = xps.chunk()
        kw = {'lev_dim': 'lev', 'p0': p0}
        if s['method'] == 'log':
            kw['method'] = 'log'
        r = R.value(R.call(gc.interp_sigma_to_hybrid, data, sig, xps, ha, hb, **kw), 'call')
        if r is None:
            return
        R.equal(list(r.dims), ['hlev' if c == 'l' else NAME[c] for c in perm], 'dims')
        R.equal((dict(r.attrs), r.name), ({'u': 'm'}, 'U'), 'metadata')
        R.equal(r.sizes['hlev'], m, 'number of levels')
        R.true('hlev' in r.coords, 'hlev coordinate missing')
        if s['coords']:
            for c in hd:
                R.equal(r[NAME[c]].values.tolist(), cx[NAME[c]].tolist(), 'coordinate values')
        got = np.asarray(r.transpose('hlev', *pd).values).reshape(m, ncol)
        R.close(got, exp, 'values', rtol=2e-6 if s['kind'] == 'f4' else 1e-9, atol=1e-4 if s['kind'] == 'f4' else 1e-9, skip=skip)


PROP = P()
