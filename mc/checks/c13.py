"""C13 hybrid to pressure interpolation inside the column"""
import itertools, math
import numpy as np, xarray as xr
from ..core import Prop, product, gen
from .. import hyb as H

LEVS = {
    'exact': None, 'mid': None, 'cover': None, 'in': None,      # derived from the column
    'out': [102400 * 2.0, 12.5], 'one': [50000.0], 'desc': [100000., 85000., 50000., 20000., 10000., 1000.],
    'asc': [1000., 10000., 20000., 50000., 85000., 100000.], 'dup': [50000., 50000., 70000.], 'mess': [70000., 10000., 90000., 30000.],
    'int': [100000, 50000, 20000], 'default': 'default',
}
MAND = [1000, 925, 850, 700, 500, 400, 300, 250, 200, 150, 100, 70, 50, 30, 20, 10, 7, 5, 3, 2, 1]


class P(Prop):
    id = 'C13'
    oracle = 'scalar piecewise-linear interpolation in p (or log p) of every column, NaN outside the column'
    assumptions = ['pressures of a column are distinct', 'at an exactly hit level next to a missing one either the level value or NaN is accepted']

    def bounds_text(self, tier):
        return ('coefficient sets x storage direction x all permutations of up to 4 dimensions x linear/log x 12 target level sets x '
                'p0 x each single missing level x missing surface pressures x dtypes x coordinate layouts x chunkings')

    def scenarios(self, tier):
        th = tier == 'thorough'
        perms = {1: ['l'], 2: ['lx', 'xl'], 3: [''.join(p) for p in itertools.permutations('lyx')],
                 4: [''.join(p) for p in itertools.permutations('tlyx')]}
        base = dict(coef='mixed', flip=False, perm='lyx', method='linear', lev='cover', p0=102400.0, nan=-1, kind='plain', lc='asc')
        # full products of the interacting parts
        for s in product(coef=list(H.COEF), flip=[False, True], method=['linear', 'log'], lev=list(LEVS), perm=['lx'] if not th else ['lx', 'yxl', 'tlyx'],
                         lc=['asc', 'none'] if not th else ['asc', 'desc', 'none', 'aux']):
            yield {**base, **s}
        for nd in perms:
            for s in product(perm=perms[nd], kind=['plain', 'dask', 'lazyps'], coef=['mixed', 'top', 'sigma'], method=['linear', 'log'],
                             lev=['cover', 'mess'] if not th else ['cover', 'mess', 'desc', 'exact', 'out', 'default']):
                yield {**base, **s}
        for s in product(coef=list(H.COEF), nan=list(range(6)), method=['linear', 'log'], flip=[False, True], lev=['cover', 'mess', 'mid'],
                         kind=['plain'] if not th else ['plain', 'dask', 'f4']):
            if s['nan'] < len(H.COEF[s['coef']][0]):
                yield {**base, **s}
        for s in product(kind=['f4', 'i8', 'int-p0', 'p0=1', 'xrlev', 'intlev', 'big', 'pint'], coef=list(H.COEF), method=['linear', 'log'], lev=['cover', 'mid', 'desc', 'in'],
                         perm=['lx', 'xl'] if not th else ['lx', 'xl', 'tlyx', 'yxl', 'lxy']):
            yield {**base, **s}
        for s in product(lc=['asc', 'desc', 'none', 'aux', 'guess', 'scalar'], coef=['mixed', 'top'], perm=perms[3] + ['l', 'lx'], kind=['plain', 'dask']):
            yield {**base, **s}
        # missing surface pressures
        for s in product(psnan=['first', 'last', 'all'], perm=['l', 'lx', 'xl', 'lyx', 'yxl', 'tlyx'], coef=['mixed', 'top', 'sigma', 'pressure'], kind=['plain', 'dask', 'lazyps', 'f4', 'i8'], method=['linear', 'log'], lev=['cover', 'mess', 'default']):
            yield {**base, **s}
        # realistic sizes
        for s in product(coef=['l30', 'l65'], size=[[1, 40, 60], [5, 12, 16], [1, 1, 1500], [3, 150, 4]] if not th else [[1, 40, 60], [5, 12, 16], [1, 1, 5000], [3, 150, 4], [20, 20, 20]],
                         perm=['tlyx', 'lyx', 'yxl'], kind=['plain', 'dask', 'f4'], method=['linear', 'log'], lev=['default', 'desc', 'mess'], nan=[-1, 3]):
            if s['perm'] != 'tlyx' and s['size'][0] > 1:
                continue
            if not th and (s['lev'] != 'default') + (s['nan'] >= 0) + (s['kind'] != 'plain') + (s['method'] == 'log') > 1:
                continue
            yield {**base, **s}

    def run(self, s, R):
        import geocat.comp as gc
        a, b = H.coef(s['coef'], s['flip'])
        n = len(a)
        sz = {'l': n, 'x': 3, 'y': 2, 't': 2}
        if 'size' in s:
            sz.update(zip('tyx', s['size']))
        full = {'l': 'lev', 'x': 'lon', 'y': 'lat', 't': 'time'}
        perm = s['perm']
        hd = [c for c in 'tyx' if c in perm]
        hs = tuple(sz[c] for c in hd)
        ncol = int(np.prod(hs)) if hs else 1
        ps = np.array([H.PS[i % len(H.PS)] + (0 if i < len(H.PS) else 1600.0) for i in range(ncol)]).reshape(hs)
        if 'size' in s:
            ps = gen(hs, 6, 51000, 104000)
        vals = gen((n,) + hs, 5, 180, 320)
        if s['kind'] == 'f4':
            vals = vals.astype('f4')
        if s['kind'] == 'i8':
            vals = np.round(vals * 10).astype('i8')
        if s['kind'] == 'big':
            vals = vals * 1e12
        if s['nan'] >= 0:
            vals.reshape(n, -1)[s['nan'], ncol // 2] = np.nan
        gone = set()
        if s.get('psnan'):
            gone = {'first': {0}, 'last': {ncol - 1}, 'all': set(range(ncol))}[s['psnan']]
        p0 = s['p0']
        aa = list(a)
        call = {'p0': p0}
        if s['kind'] == 'p0=1':
            aa = [x * p0 for x in a]
            call = {'p0': 1.0}
        elif s['kind'] == 'int-p0':
            call = {'p0': int(p0)}
        cols = {i: H.pressure(a, b, p0, float(ps.reshape(-1)[i])) for i in range(ncol)}
        if s['lev'] == 'exact':
            new = sorted(cols[0] + cols[ncol - 1])[::-1]
        elif s['lev'] == 'mid':
            c = sorted(cols[0])
            new = [(p + q) / 2 for p, q in zip(c, c[1:])] + [c[0] - 64, c[-1] + 64]
        elif s['lev'] == 'cover':
            c = sorted(set(sum(cols.values(), [])))
            new = sorted(set([c[0] - 32] + c[::3] + [(p + q) / 2 for p, q in zip(c, c[1:])][::2] + [c[-1], c[-1] + 1600]))
        elif s['lev'] == 'in':
            lo, hi = max(min(c) for c in cols.values()), min(max(c) for c in cols.values())
            new = [lo + (hi - lo) * f for f in (.9, .55, .3, .05)]
        elif s['lev'] == 'default':
            new = [m * 100.0 for m in MAND]
        else:
            new = LEVS[s['lev']]
        exp = np.empty((len(new), ncol))
        skip = np.zeros(exp.shape, bool)
        for i in range(ncol):
            for j, x in enumerate(new):
                if i in gone:   # nothing is known about the column
                    exp[j, i] = np.nan
                    continue
                exp[j, i], sure = H.interp(cols[i], [float(v) for v in vals.reshape(n, -1)[:, i]], float(x), s['method'] == 'log')
                skip[j, i] = not sure
        if gone:
            ps = ps.copy()
            ps.reshape(-1)[sorted(gone)] = np.nan
        dims = ['l'] + hd
        lc = s['lc']
        co = {full[c]: np.arange(sz[c]) * 1.5 + 2 for c in hd if lc != 'none'}
        lv = np.arange(n) * 10.0 + 1
        if lc in ('asc', 'aux', 'guess', 'scalar'):
            co['lev'] = ('lev', lv, {'axis': 'Z', 'positive': 'down'} if lc == 'guess' else {})
        elif lc == 'desc':
            co['lev'] = ('lev', lv[::-1])
        if lc == 'aux':
            co['nominal'] = ('lev', np.array(a))
            if 'x' in hd:
                co['name'] = ('lon', ['p', 'q', 'r'])
        if lc == 'scalar':
            co['member'] = 4
        data = xr.DataArray(vals, dims=[full[c] for c in dims], coords=co, attrs={'units': 'K', 'long_name': 'T'}, name='T')
        data = data.transpose(*[full[c] for c in perm])
        xps = xr.DataArray(ps, dims=[full[c] for c in hd], coords={k: v for k, v in co.items() if k in ('lon', 'lat', 'time')})
        cl = {'lev': co['lev']} if 'lev' in co and lc != 'desc' else ({'lev': ('lev', lv[::-1])} if lc == 'desc' else {})
        ha, hb = xr.DataArray(np.array(aa), dims=['lev'], coords=cl), xr.DataArray(np.array(b), dims=['lev'], coords=cl)
        if s['kind'] == 'dask':
            data = data.chunk({d: (2 if d == 'lev' and n > 2 else 1) for d in data.dims}) if s['coef'] == 'top' else data.chunk({d: max(1, data.sizes[d] // 3) for d in data.dims if d != 'lev'})
            if s['coef'] == 'mixed':
                xps = xps.chunk({d: max(1, xps.sizes[d] // 3) for d in xps.dims})
        if s['kind'] == 'lazyps':
            xps = xps.chunk()
        if s['kind'] == 'pint':   # data with units attached
            from metpy.units import units
            data = data.copy(data=units.Quantity(data.values, 'kelvin'))
        nl = np.array(new)
        if s['kind'] == 'xrlev':
            nl = xr.DataArray(nl, dims=['plev'])
        if s['kind'] == 'intlev':
            nl = nl.astype('i8')
            if (nl != np.array(new)).any():
                exp = None
        if s['lev'] != 'default':
            call['new_levels'] = nl
        if s['method'] != 'linear':
            call['method'] = s['method']
        if lc != 'guess':
            call['lev_dim'] = 'lev'
        r = R.value(R.call(gc.interp_hybrid_to_pressure, data, xps, ha, hb, **call), 'call')
        if r is None:
            return
        if s['kind'] == 'pint':
            R.equal(str(getattr(r.data, 'units', None)), 'kelvin', 'units of the data')
            r = r.copy(data=getattr(r.data, 'magnitude', r.data))
        R.equal(list(r.dims), ['plev' if c == 'l' else full[c] for c in perm], 'dims')
        R.equal(dict(r.attrs), dict(data.attrs), 'attrs')
        R.equal(r.name, 'T', 'name')
        R.true('plev' in r.coords, 'plev coordinate missing')
        if 'plev' in r.coords:
            R.close(r['plev'].values, np.asarray(nl, float), 'plev values')
        for k, v in data.coords.items():
            if 'lev' not in v.dims:
                R.true(k in r.coords, 'coordinate lost', k)
                if k in r.coords:
                    R.equal(r[k].values.tolist(), v.values.tolist(), 'coordinate values')
        if s['kind'] == 'dask':
            R.true(r.chunks is not None, 'laziness', 'chunked input computed eagerly')
        if exp is not None:
            got = np.asarray(r.transpose('plev', *[full[c] for c in hd]).values).reshape(len(new), ncol)
            R.close(got, exp, 'values', rtol=2e-4 if 'size' in s and (s['kind'] == 'f4' or s['lev'] == 'default') else 2e-6 if s['kind'] == 'f4' or s['lev'] == 'default' else 1e-9, skip=skip)


PROP = P()
