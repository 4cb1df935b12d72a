"""C21 zonal mean meridional streamfunction"""
import math
import numpy as np, xarray as xr
from ..core import Prop, product, gen
from .. import hyb as H
from .c17 import model as thickness

A, G = 6378137.0, 9.80665
LEV = {'three': [20000., 50000., 85000.], 'two': [30000., 70000.], 'five': [10000., 30000., 50000., 85000., 100000.], 'l18': [1000., 2000., 3000., 5000., 7000., 10000., 15000., 20000., 25000., 30000., 40000., 50000., 60000., 70000., 85000., 92500., 95000., 100000.], 'six': [5000., 25000., 40000., 60000., 90000., 99000.]}
LAT = {'default': None, 'tuple': (-60, 60, 30), 'list': [-30., 0., 40.], 'one': 40.0, 'array': np.array([-55.5, 20.25]), 'desc': [40., -30.], 'ints': [-20, 10, 50]}
MAND = [m * 100.0 for m in [1000, 925, 850, 700, 500, 400, 300, 250, 200, 150, 100, 70, 50, 30, 20, 10, 7, 5, 3, 2, 1]]
VN = {'std': ('wind', {'standard_name': 'northward_wind'}), 'long': ('wind', {'long_name': 'Meridional wind'}), 'V': ('V', {}), 'vs': ('vs', {}), 'low': ('v', {}),
      'name': ('meridional_wind', {}), 'arg': ('q17', {})}
PN = {'std': ('sp', {'standard_name': 'surface_air_pressure'}), 'long': ('sp', {'long_name': 'Surface pressure'}), 'PS': ('PS', {}), 'ps': ('ps', {}), 'name': ('surface_pressure', {}),
      'ps2': ('p_surface', {}), 'arg': ('zz', {})}
LN = {'plev': ('plev', {}), 'name': ('pressure_lev', {}), 'name2': ('pressure_levels', {}), 'std': ('level', {'standard_name': 'air_pressure'}), 'arg': ('foo', {}), 'plevarg': ('plev', {})}


class P(Prop):
    id = 'C21'
    oracle = ('zonal means taken from uxarray, layer thicknesses from the scalar model of C17, running sum from the top of the atmosphere '
              'down, times 2 pi a cos(latitude)/g')
    assumptions = ['uxarray.zonal_mean is correct', 'inputs have the dimensions (time, level, face) the docstring assumes']

    def bounds_text(self, tier):
        return 'grids x level sets x direction x latitude specifications x time lengths x missing-value placements x every way of naming each input x hybrid input'

    def prepare(self, tier):
        import uxarray as ux
        self.g = {'a': ux.Grid.from_structured(lon=np.arange(0, 360, 60.), lat=np.arange(-75, 76, 30.)),
                  'c': ux.Grid.from_structured(lon=np.arange(0, 360, 15.), lat=np.arange(-82.5, 83, 15.)),
                  'b': ux.Grid.from_structured(lon=np.arange(0, 360, 40.), lat=np.linspace(-80, 80, 9))}
        # compile uxarray's kernels before the workers fork
        for v in (gen((2, 3, self.g['a'].n_face)), gen((2, self.g['a'].n_face))):
            for lat in ([-30., 0.], 40.0):
                ux.UxDataArray(v, dims=['time', 'plev', 'n_face'][-v.ndim:] if v.ndim == 3 else ['time', 'n_face'], uxgrid=self.g['a']).zonal_mean(lat=lat)

    def scenarios(self, tier):
        th = tier == 'thorough'
        base = dict(grid='a', lev='three', desc=False, lat='list', nt=2, nan='none', V='V', P='PS', L='plev', path='plev', ps='mid', fn='zonal_meridional_psi')
        for s in product(grid=['a', 'b'], lev=[x for x in LEV if x != 'l18'], desc=[False, True], lat=list(LAT), nt=[1, 2, 3], nan=['none', 'face', 'level', 'top', 'bottom', 'all'] if th else ['none', 'face', 'bottom', 'top'],
                         ps=['mid', 'low', 'varied'], fn=['zonal_meridional_psi', 'zonal_mpsi'] if th else ['zonal_meridional_psi']):
            if not th and (s['grid'] == 'b') != (s['nt'] == 3):
                continue
            yield {**base, **s}
        for s in product(grid=['c'], lev=['l18'], desc=[False, True], lat=['default', 'tuple', 'list'], nt=[1, 13], nan=['none', 'face', 'top'], ps=['mid', 'varied'], fn=['zonal_mpsi', 'zonal_meridional_psi']):
            if th or (s['lat'] == 'list') != (s['fn'] == 'zonal_mpsi'):
                yield {**base, **s}
        for s in product(V=list(VN), P=list(PN), L=list(LN), desc=[False, True], fn=['zonal_meridional_psi', 'zonal_mpsi']):
            yield {**base, **s}
        for s in product(path=['hybrid'], V=list(VN), P=['PS', 'arg', 'std'], L=['long', 'hyam', 'hya', 'arg'], nt=[1, 2], lat=['list', 'one'], ps=['varied'],
                         grid=['a', 'b'] if th else ['a'], fn=['zonal_meridional_psi', 'zonal_mpsi']):
            yield {**base, **s}
        for k in ('nan-ps', 'zero-ps', 'neg-ps', 'no-v', 'no-ps', 'no-lev'):
            yield {**base, 'path': 'reject:' + k}

    def run(self, s, R):
        import geocat.comp as gc, uxarray as ux
        g = self.g[s['grid']]
        nf, nt = g.n_face, s['nt']
        fn = getattr(gc, s['fn'])
        lo, hi = {'mid': (99000, 101000), 'low': (45000, 75000), 'varied': (52000, 104000)}[s['ps']]
        ps = gen((nt, nf), 2, lo, hi)
        lat = LAT[s['lat']]
        kw = {} if lat is None else {'lat': lat}
        latarg = (-90, 90, 10) if lat is None else lat
        vname, vattr = VN[s['V']]
        pname, pattr = PN[s['P']]
        if s['V'] == 'arg':
            kw['meridional_wind_varname'] = vname
        if s['P'] == 'arg':
            kw['surface_air_pressure_varname'] = pname
        P = xr.DataArray(ps, dims=['time', 'n_face'], attrs=pattr)
        rej = s['path'].split(':')[1] if s['path'].startswith('reject') else None
        if s['path'] == 'hybrid':
            a, b = H.coef('top')
            n = len(a)
            v = gen((nt, n, nf), 5, -9, 9)
            V = xr.DataArray(v, dims=['time', 'lev', 'n_face'], coords={'lev': ('lev', np.arange(n) * 100., {'axis': 'Z', 'positive': 'down'})}, attrs=vattr)
            nm = {'long': ('aa', 'bb'), 'hyam': ('hyam', 'hybm'), 'hya': ('hya', 'hyb'), 'arg': ('c1', 'c2')}[s['L']]
            at = [{'long_name': f'hybrid {c} coefficient at layer midpoints'} if s['L'] == 'long' else {} for c in 'AB']
            ds = ux.UxDataset({vname: V, pname: P, nm[0]: ('lev', np.array(a), at[0]), nm[1]: ('lev', np.array(b), at[1])}, uxgrid=g)
            if s['L'] == 'arg':
                kw.update(hyam_coordname=nm[0], hybm_coordname=nm[1])
            plev = MAND
            w = np.empty((nt, len(plev), nf))
            for t in range(nt):
                for f in range(nf):
                    pc = H.pressure(a, b, 100000.0, float(ps[t, f]))
                    for k, p in enumerate(plev):
                        w[t, k, f] = H.interp(pc, [float(x) for x in v[t, :, f]], p)[0]
        else:
            plev = LEV[s['lev']]
            if s['desc']:
                plev = plev[::-1]
            w = gen((nt, len(plev), nf), 5, -9, 9)
            if s['nan'] == 'face':
                w[0, len(plev) // 2, nf // 2] = np.nan
            elif s['nan'] == 'level':
                w[:, len(plev) // 2, :] = np.nan
            elif s['nan'] in ('top', 'bottom'):
                w[-1, (0 if (s['nan'] == 'top') != s['desc'] else -1), ::2] = np.nan
            elif s['nan'] == 'all':
                w[0] = np.nan
            ln, lattr = LN[s['L']]
            V = xr.DataArray(w, dims=['time', ln, 'n_face'], coords={ln: (ln, np.array(plev), lattr)}, attrs=vattr)
            d = {vname: V, pname: P}
            if rej == 'no-v':
                d.pop(vname)
            if rej == 'no-ps':
                d.pop(pname)
            if rej == 'no-lev':
                d[vname] = V.isel({ln: 0}, drop=True)
            if s['L'] in ('arg', 'plevarg'):
                kw['plev_coordname'] = ln
            ds = ux.UxDataset(d, uxgrid=g)
            if rej == 'nan-ps':
                ds[pname][0, 3:] = np.nan
            if rej == 'zero-ps':
                ds[pname][0, 0] = 0.0
            if rej == 'neg-ps':
                ds[pname][0, nf - 1] = -5.0
        o = R.call(fn, ds, **kw)
        if rej:
            R.raises(o, 'reject ' + rej, {'no-v': (KeyError,), 'no-ps': (KeyError,), 'no-lev': (AttributeError,)}.get(rej, (ValueError,)))
            return
        r = R.value(o, 'call')
        if r is None:
            return
        zv = ux.UxDataArray(w, dims=['time', 'plev', 'n_face'], uxgrid=g).zonal_mean(lat=latarg)
        zp = ux.UxDataArray(ps, dims=['time', 'n_face'], uxgrid=g).zonal_mean(lat=latarg)
        lats = np.atleast_1d(zp.latitudes.values)
        zv, zp = zv.transpose('time', 'plev', 'latitudes').values, zp.transpose('time', 'latitudes').values
        raw = np.zeros((nt, len(plev), len(lats)))
        down = sorted(range(len(plev)), key=lambda k: plev[k])
        for t in range(nt):
            for j in range(len(lats)):
                dp = thickness(plev, float(zp[t, j]), min(plev))
                acc = 0.0
                for k in down:
                    x = zv[t, k, j] * dp[k]
                    if not math.isnan(x):
                        acc += x
                    raw[t, k, j] = acc * 2 * math.pi * A / G
        R.equal(list(r.dims), ['time', 'plev', 'latitudes'], 'dims')
        R.close(r['plev'].values, plev, 'plev values', rtol=1e-6)
        R.close(r['latitudes'].values, lats, 'latitudes')
        R.equal((r.attrs.get('units'), r.attrs.get('long_name')), ('kg/s', 'zonal mean meridional streamfunction'), 'metadata')
        got = r.transpose('time', 'plev', 'latitudes').values
        tol = 2e-4 if s['path'] == 'hybrid' else 1e-9
        scale = np.abs(raw).max() + 1
        deg = np.cos(np.deg2rad(lats))
        # the released code takes the cosine of degrees, which its own test repeats: a known finding
        if (np.abs(got - raw * np.cos(lats)) <= tol * scale).all():
            if (np.abs(np.cos(lats) - deg) > 1e-6).any():
                R.fail('cosine of degrees', 'the latitude factor is cos(latitude in degrees) taken as radians')
            R.obs(got)
            R.compared += 1
        else:
            R.close(got, raw * deg, 'streamfunction', rtol=tol, atol=tol * scale)


PROP = P()
