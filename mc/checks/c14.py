"""C14 extrapolation below the lowest model level"""
import itertools, math
import numpy as np, xarray as xr
from ..core import Prop, product, gen
from .. import hyb as H

RD, G = 287.04, 9.80616
AL = 0.0065 * RD / G
# temperature of the lowest level and surface height chosen to reach every branch and its boundaries
TB = [200.0, 248.0, 253.0, 255.0, 257.0, 275.0, 289.0, 290.5, 292.0, 297.0, 303.0, 315.0]
HGT = [-50.0, 0.0, 10.0, 800.0, 1999.0, 2000.0, 2001.0, 2250.0, 2499.0, 2500.0, 2501.0, 4000.0, 5500.0]


def temp(tb, p, psfc, ps, phi):
    """ECMWF formulation, TN-396 equation 16"""
    ts = tb * (1 + AL * (ps / psfc - 1))
    h = phi / G
    t0 = ts + 0.0065 * h
    if h < 2000:
        y = AL * math.log(p / ps)
    else:
        tpl = min(t0, 298.0)
        tp = tpl if h > 2500 else 0.002 * ((2500 - h) * t0 + (h - 2000) * tpl)
        y = 0.0 if tp < ts else RD * (tp - ts) / phi * math.log(p / ps)
    return ts * (1 + y + y * y / 2 + y ** 3 / 6)


def height(tb, p, psfc, ps, phi):
    """equation 15"""
    ts = tb * (1 + AL * (ps / psfc - 1))
    h = phi / G
    t0 = ts + 0.0065 * h
    al = AL
    if ts <= 290.5 and t0 > 290.5:
        al = RD / phi * (290.5 - ts)
    elif ts > 290.5 and t0 > 290.5:
        al = 0.0
        ts = 0.5 * (290.5 + ts)
    if ts < 255:
        ts = 0.5 * (255 + ts)
    y = al * math.log(p / ps)
    return h - RD * ts / G * math.log(p / ps) * (1 + y / 2 + y * y / 6)


class P(Prop):
    id = 'C14'
    oracle = 'interpolation inside the column as C13; below the lowest level the ECMWF formulas, evaluated branch by branch for each column'
    assumptions = ['the level coordinate increases downwards (or levels are stored top to bottom without a coordinate)',
                   'points within 1e-9 of a branch boundary where rounding decides are accepted with either branch (the formulas are continuous there)']

    def bounds_text(self, tier):
        return ('12 temperatures x 13 surface heights (all branches and their boundaries) x surface pressures x level sets x coefficient sets x '
                'variable x method x dimension orders x storage direction x chunking x a missing value of each argument x neighbouring regimes in one array')

    def scenarios(self, tier):
        th = tier == 'thorough'
        for s in product(var=['temperature', 'geopotential', 'other'], coef=list(H.COEF) if th else ['mixed', 'top', 'three', 'pressure'], perm=['lyx', 'xly', 'yxl'],
                         tb=list(range(len(TB))), kind=['plain', 'dask'], dirn=['down', 'up', 'none'], lev=['a', 'b'] if th else ['a'],
                         method=['linear', 'log']):
            if not th and (s['perm'], s['kind'], s['dirn'], s['method']) not in (
                    ('lyx', 'plain', 'down', 'linear'), ('xly', 'plain', 'down', 'log'), ('yxl', 'dask', 'down', 'linear'),
                    ('lyx', 'plain', 'up', 'linear'), ('lyx', 'plain', 'none', 'linear'), ('xly', 'dask', 'up', 'log')):
                continue
            if s['var'] == 'other' and s['tb'] > 1:
                continue
            yield s
        # whole-array products: every pair (t, h) next to every other
        for s in product(var=['temperature', 'geopotential'], coef=['mixed', 'top', 'six'], perm=['lyx', 'xyl'], tb=[-1], kind=['plain', 'dask'], dirn=['down'],
                         lev=['a', 'b'], method=['linear']):
            yield s
        # one missing input value: surface pressure, temperature, geopotential, lowest level
        for s in product(var=['temperature', 'geopotential', 'other'], coef=['mixed', 'top', 'pressure'] if not th else list(H.COEF), perm=['lyx', 'yxl'], tb=[0, 6], kind=['plain', 'dask'], dirn=['down', 'up'], lev=['a', 'b'],
                         method=['linear', 'log'] if th else ['linear'], miss=['ps', 'tb', 'phi', 'low'], cell=['first', 'last', 'mid', 'row']):
            if s['var'] != 'other' or s['miss'] in ('ps', 'low'):
                yield s
        # realistic sizes: 13 heights repeated over many columns, every temperature
        for s in product(var=['temperature', 'geopotential', 'other'], coef=['l30'] if not th else ['l30', 'l65'], perm=['lyx', 'yxl'], tb=[-2], kind=['plain', 'dask'], dirn=['down', 'none'],
                         lev=['a', 'b'], method=['linear', 'log']):
            if not th and (s['perm'] == 'yxl') + (s['kind'] == 'dask') + (s['dirn'] == 'none') + (s['method'] == 'log') > 1:
                continue
            yield s

    def run(self, s, R):
        import geocat.comp as gc
        p0 = 102400.0
        a, b = H.coef(s['coef'])
        n = len(a)
        tbs = TB if s['tb'] < 0 else [TB[s['tb']], TB[(s['tb'] + 5) % len(TB)]]
        hgt = HGT
        if s['tb'] == -2:
            tbs, hgt = [t + 0.7 * q for q in range(4) for t in TB], HGT * 4
        ny, nx = len(tbs), len(hgt)
        ps = np.array([[H.PS[(i * 3 + j) % len(H.PS)] for j in range(nx)] for i in range(ny)])
        tb = np.array([[t + (0 if t in (255.0, 290.5) else 0.1 * j) for j in range(nx)] for t in tbs])
        phi = np.array([[h * G for h in hgt] for _ in tbs])
        vals = gen((n, ny, nx), 9, 210, 300)
        m = {'first': [(0, 0)], 'last': [(ny - 1, nx - 1)], 'mid': [(0, 5)], 'row': [(1, j) for j in range(nx)], None: []}[s.get('cell')]
        if m:
            {'ps': ps, 'tb': tb, 'phi': phi, 'low': vals[-1]}[s['miss']][tuple(zip(*m))] = np.nan
        new = [20000., 45000., 60000., 80000., 90000., 100000., 104000.] if s['lev'] == 'a' else [150000., 101000., 70000., 55000., 3000.]
        exp = np.empty((len(new), ny, nx))
        skip = np.zeros(exp.shape, bool)
        for i in range(ny):
            for j in range(nx):
                if np.isnan(ps[i, j]):   # nothing is known about the column
                    exp[:, i, j] = np.nan
                    continue
                pc = H.pressure(a, b, p0, float(ps[i, j]))
                psfc = pc[-1]
                for k, p in enumerate(new):
                    if p <= psfc:
                        exp[k, i, j], sure = H.interp(pc, [float(v) for v in vals[:, i, j]], p, s['method'] == 'log')
                        skip[k, i, j] = not sure
                    elif s['var'] == 'temperature':
                        exp[k, i, j] = temp(float(tb[i, j]), p, psfc, float(ps[i, j]), float(phi[i, j]))
                    elif s['var'] == 'geopotential':
                        exp[k, i, j] = height(float(tb[i, j]), p, psfc, float(ps[i, j]), float(phi[i, j]))
                    else:
                        exp[k, i, j] = vals[-1, i, j]
        nm = {'l': 'lev', 'y': 'lat', 'x': 'lon'}
        dims = [nm[c] for c in s['perm']]
        lv = {'lev': np.arange(n) * 7.0 + 3} if s['dirn'] != 'none' else {}
        co = {'lat': np.arange(ny) * 1.0, 'lon': np.arange(nx) * 2.0}
        data = xr.DataArray(vals, dims=['lev', 'lat', 'lon'], coords={**co, **lv}, name='T', attrs={'u': 'K'})
        ha, hb = xr.DataArray(np.array(a), dims=['lev'], coords=lv), xr.DataArray(np.array(b), dims=['lev'], coords=lv)
        if s['dirn'] == 'up':
            data, ha, hb = data[::-1], ha[::-1], hb[::-1]
        data = data.transpose(*dims)
        two = lambda v: xr.DataArray(v, dims=['lat', 'lon'], coords=co)
        xps, xtb, xphi = two(ps), two(tb), two(phi)
        if s['kind'] == 'dask':
            data = data.chunk({'lon': 5})
            xps = xps.chunk({'lon': 4})
            xtb = xtb.chunk({'lat': 1})
        kw = {} if s['var'] == 'other' else {'t_bot': xtb, 'phi_sfc': xphi}
        r = R.value(R.call(gc.interp_hybrid_to_pressure, data, xps, ha, hb, p0=p0, new_levels=np.array(new), lev_dim='lev', method=s['method'],
                           extrapolate=True, variable=s['var'], **kw), 'call')
        if r is None:
            return
        R.equal(list(r.dims), ['plev' if d == 'lev' else d for d in dims], 'dims')
        R.close(r['plev'].values, new, 'plev values')
        R.equal((set(r.coords), r.name, dict(r.attrs)), ({'plev', 'lat', 'lon'}, 'T', {'u': 'K'}), 'coordinates, name and attributes')
        R.close(r.transpose('plev', 'lat', 'lon').values, exp, 'values', rtol=1e-8, skip=skip)
        if s['kind'] == 'dask':
            R.true(r.chunks is not None, 'laziness', 'chunked input computed eagerly')
        # without extrapolation the same levels are missing, the others unchanged
        r2 = R.value(R.call(gc.interp_hybrid_to_pressure, data, xps, ha, hb, p0=p0, new_levels=np.array(new), lev_dim='lev', method=s['method'],
                            variable=s['var'], **kw), 'call without extrapolation')
        if r2 is not None:
            e2 = np.array(exp)
            for i in range(ny):
                for j in range(nx):
                    pc = H.pressure(a, b, p0, float(ps[i, j]))
                    for k, p in enumerate(new):
                        if p > pc[-1]:
                            e2[k, i, j] = np.nan
            R.close(r2.transpose('plev', 'lat', 'lon').values, e2, 'values without extrapolation', rtol=1e-8, skip=skip)


PROP = P()
