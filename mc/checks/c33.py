"""scaling, superposition and symmetry: no magnitude, sign or special value has a meaning of its own"""
import itertools
import numpy as np, xarray as xr
from ..core import Prop, gen
from .. import ops as O
from .c30 import EXTRA, put, values, slots
from .c31 import MORE
from .c32 import EXTRA32, find, nums

CLIM = ('calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season')
FILTER = ('fourier_filter', 'fourier_low_pass', 'fourier_high_pass', 'fourier_band_pass', 'fourier_band_block')
LINEAR = {*CLIM, *FILTER, 'gradient', 'interp_hybrid_to_pressure', 'interp_sigma_to_hybrid', 'interp_multidim', 'decomposition', 'recomposition', 'zonal_meridional_psi', 'zonal_mpsi'}
# adding a constant to the data adds it to the result (True), changes nothing (False)
OFFSET = {'calendar_average': True, 'climatology_average': True, 'month_to_season': True, 'climate_anomaly': False, 'fourier_low_pass': True, 'fourier_high_pass': False, 'gradient': False, 'interp_hybrid_to_pressure': True,
          'interp_sigma_to_hybrid': True, 'interp_multidim': True}
FACTORS = [-1., 2., -0.5, 2.**-20, 2.**60, -2.**-60, 2.**300, -2.**-300]
SPECIAL = [0., -0., -999., -9999., -99.99, 1e20, 9.969209968386869e36, -32768., 65535., 1e-310, 1e36, 2.**53]
# arguments that may be multiplied by one factor together without (degree 0) or with (degree 1) scaling the result
JOINT = {
    'nmse': ([0, 1], 0), 'delta_pressure_hybrid': ([0, 'p0'], 1), 'pressure_at_hybrid_levels': ([0, 'p0'], 1), 'delta_pressure': ([0, 1, 2, 'pressure_top'], 1), 'dpres_plev': ([0, 1, 2, 'pressure_top'], 1),
    'interp_hybrid_to_pressure': ([1, 'new_levels', 'p0'], 0), 'interp_sigma_to_hybrid': ([2, 'p0'], 0),
}


def data_slots(f, a):
    """the slots that hold the data of a linear function"""
    if f in ('zonal_meridional_psi', 'zonal_mpsi'):
        return [(0, 0, 'var:V')]
    if isinstance(a[0][0], xr.Dataset):
        return [(0, 0, 'var:' + str(k)) for k in a[0][0].data_vars]
    if isinstance(a[0][0], xr.DataArray):
        return [(0, 0, 'data')]
    return [(0, 0, 'nd')]


def change(a, q, f):
    v = a[0][0]
    if q[-1].startswith('var:') and type(v) is not xr.Dataset or isinstance(v, xr.Dataset):
        w = v.copy()
        k = q[-1][4:]
        w[k] = w[k].copy(data=f(w[k].values))
        return ((w, *a[0][1:]), a[1])
    if isinstance(v, xr.DataArray) and v.chunks:
        w = v.copy(data=f(v.values)).chunk(v.chunksizes)   # positions count in the whole array, not in a chunk
        return ((w, *a[0][1:]), a[1])
    return put(a, q, f)


class P(Prop):
    id = 'C33'
    oracle = 'linearity: the result for other data is the same linear combination of results; scaled arguments give the scaled result'
    assumptions = ['extrapolation below ground of temperature and geopotential, and interpolation with a fill value or missing_val, are not linear in the data', 'fill values that coincide with missing_val or fill_value are excluded']

    def bounds_text(self, tier):
        return ('%d calls of functions linear in the data: %d factors from -2**-300 to 2**300; sums with a second field; constants; %d special values (zeros, usual fill values, extremes) at every position of the data%s; joint scaling of the '
                'arguments with a unit for %d functions; longitudes shifted by full turns and fields mirrored' % (len(self.calls()), len(FACTORS), len(SPECIAL), '' if tier == 'thorough' else ' (every third, and the ends, of large data)', len(JOINT)))

    def calls(self):
        out = []
        for n in [k for k, o in O.OPS.items() if o['ok'] and k != 'stub'] + ['+' + k for k in EXTRA] + ['*' + k for k in MORE] + ['%' + k for k in EXTRA32]:
            o = find(n)
            a, k = o['build']()
            if o['fn'] in LINEAR and k.get('variable') not in ('temperature', 'geopotential') and 'missing_val' not in k and k.get('fill_value') is None and not isinstance(a[0], list):
                out.append(n)
        return out

    def scenarios(self, tier):
        for n in self.calls():
            for kind in ('scale', 'sum', 'special'):
                yield dict(call=n, kind=kind, all=tier == 'thorough')
        for n in [k for k, o in O.OPS.items() if o['ok'] and k != 'stub'] + ['+' + k for k in EXTRA] + ['*' + k for k in MORE]:
            f = find(n)['fn']
            if f in JOINT or f == 'pearson_r':
                yield dict(call=n, kind='joint')
            if f in ('gradient', 'nmse', 'interp_multidim'):
                yield dict(call=n, kind='turn')

    def prepare(self, tier):
        O.warm()

    def run(self, s, R):
        import geocat.comp as gc
        o = find(s['call'])
        f = o['fn']
        fn = getattr(gc, f)
        base = self.go(R, fn, o['build']())
        if not R.true(base.ok, 'call', repr(base.exc)):
            return
        e = nums(base.value)
        if s['kind'] == 'joint':
            return self.joint(R, fn, f, o, e)
        if s['kind'] == 'turn':
            return self.turn(R, fn, f, o, e)
        qs = data_slots(f, o['build']())
        mod = lambda g: self.every(o, qs, g)
        if s['kind'] == 'scale':
            for k in FACTORS:
                if not self.expect(R, fn, f, mod(lambda v, q: v * k), [(p, u * k if self.num(p, u) else u) for p, u in e], f'data times {k}'):
                    return
            for c in (100., -3., 1e6) if f in OFFSET and not (f == 'fourier_low_pass' or f == 'fourier_high_pass') or f in OFFSET and self.passes(o) else ():
                if not self.expect(R, fn, f, mod(lambda v, q: v + c), [(p, u + c * OFFSET[f] if self.num(p, u) else u) for p, u in e], f'data plus {c}', 1e6):
                    return
            return
        if s['kind'] == 'sum':
            other = lambda v, q: np.where(np.isfinite(v), gen(v.shape, 41, -50, 50), v)
            r = self.go(R, fn, mod(other))
            if not R.true(r.ok, f'{f}: other data', repr(r.exc)):
                return
            for a, b in ((1., 1.), (2., -3.), (-.5, .25)):
                want = [(p, a * u + b * w if self.num(p, u) else u) for (p, u), (_, w) in zip(e, nums(r.value))]
                if not self.expect(R, fn, f, mod(lambda v, q: a * v + b * other(v, q)), want, f'{a} x data {b:+} x other data', 100.):
                    return
            return
        for q in qs:
            n = np.size(self.get(o, q))
            pos = range(n) if s['all'] or n <= 40 else sorted({*range(0, n, max(3, n // 24)), 0, 1, n - 1, n - 2})
            for i in pos:
                if not np.isfinite(np.ravel(self.get(o, q))[i]):
                    continue
                at = lambda x: change(o['build'](), q, lambda v: self.set(v, i, x))
                one, two = self.go(R, fn, at(1.)), self.go(R, fn, at(2.))
                if not R.true(one.ok and two.ok, f'{f}: other data', repr(one.exc or two.exc)):
                    return
                one, two = nums(one.value), nums(two.value)
                for x in SPECIAL:
                    want = [(p, u + (x - 1) * (w - u) if self.num(p, u) else u) for (p, u), (_, w) in zip(one, two)]
                    if not self.expect(R, fn, f, at(x), want, f'{x} at position {i} of {q[-1]}', max(1., abs(x)) * 10):
                        return

    def passes(self, o):
        return True

    def num(self, p, u):
        return isinstance(u, np.ndarray) and u.dtype.kind in 'fc' and p.count('.') == 0 or isinstance(u, np.ndarray) and u.dtype.kind in 'fc' and p.endswith(':values') and p.split(':')[0] in ('.v', '.w')

    def get(self, o, q):
        a = o['build']()
        return a[0][0][q[-1][4:]].values if q[-1].startswith('var:') else values(a, q)

    def every(self, o, qs, g):
        a = o['build']()
        for q in qs:
            a = change(a, q, lambda v: g(np.asarray(v), q))
        return a

    def set(self, v, i, x):
        v = np.array(v)
        v[np.unravel_index(i, v.shape)] = x
        return v

    def go(self, R, fn, a):
        def f(*x, **k):
            v = fn(*x, **k)
            return v.compute() if hasattr(v, 'compute') else v
        return R.call(f, *a[0], **a[1])

    def expect(self, R, fn, f, a, want, what, scale=1.):
        r = self.go(R, fn, a)
        R.obs(what)
        if not R.true(r.ok, f'{f}: raises', f'{what}: {r.exc!r}'[:300]):
            return False
        got = nums(r.value)
        if not R.equal([p for p, _ in got], [p for p, _ in want], f'{f}: structure'):
            return False
        for (p, u), (_, w) in zip(want, got):
            if isinstance(u, np.ndarray) and u.dtype.kind in 'fc':
                m = np.nanmax(np.abs(u), initial=0.) if u.size else 0.
                ok = u.shape == w.shape and np.allclose(w, u, rtol=1e-9, atol=1e-11 * max(m, scale if self.num(p, u) and scale != 1. else 0.), equal_nan=True)
            else:
                ok = np.array_equal(u, w) if isinstance(u, np.ndarray) else u == w
            if not R.true(ok, f'{f}: numbers with a meaning of their own', f'{what}: {p}: got {str(np.ravel(w)[:6])}, expected {str(np.ravel(u)[:6])}'[:400]):
                return False
        return True

    def joint(self, R, fn, f, o, e):
        if f == 'pearson_r':
            for i, k in itertools.product((0, 1), (2., -1., 2.**-40, -2.**40)):
                a = o['build']()
                x = a[0][i]
                y = (np.array(x) * k).tolist() if isinstance(x, list) else x * k
                want = [(p, u * np.sign(k) if isinstance(u, np.ndarray) and u.dtype.kind == 'f' and '.' not in p else u) for p, u in e]
                if not self.expect(R, fn, f, (a[0][:i] + (y,) + a[0][i + 1:], a[1]), want, f'argument {i} times {k}'):
                    return
            return
        which, degree = JOINT[f]
        kw = o['build']()[1]
        if f == 'interp_hybrid_to_pressure' and ('new_levels' not in kw or kw.get('extrapolate')):
            return
        for k in (2., 0.5, 2.**-10, 2.**20):
            a, kw = o['build']()
            a = list(a)
            for w in which:
                if isinstance(w, int) and w < len(a):
                    if w == 2 and f in ('pressure_at_hybrid_levels',):
                        continue
                    x = a[w]
                    a[w] = [v * k for v in x] if isinstance(x, list) else x * k
                    if isinstance(x, xr.DataArray):
                        a[w] = x.copy(data=x.data * k)
                elif w == 'p0':
                    kw['p0'] = float(kw.get('p0', 100000.)) * k
                elif isinstance(w, str) and w in kw:
                    kw[w] = kw[w] * k
            scale = k if degree else 1.
            plev = lambda p, u: u * k if f == 'interp_hybrid_to_pressure' and p.startswith('.plev') and isinstance(u, np.ndarray) else u
            levc = lambda p, u: u * k if f in ('delta_pressure', 'dpres_plev') and p.startswith('.lev') and isinstance(u, np.ndarray) else u
            want = [(p, u * scale if isinstance(u, np.ndarray) and u.dtype.kind == 'f' and '.' not in p else levc(p, plev(p, u))) for p, u in e]
            if not self.expect(R, fn, f, (tuple(a), kw), want, f'pressures times {k}' if f != 'nmse' else f'both fields times {k}'):
                return

    def turn(self, R, fn, f, o, e):
        """full turns of longitude, fields mirrored at the equator"""
        for k in (360., -360.):
            a, kw = o['build']()
            a = tuple(self.shift(x, k) for x in a)
            if f == 'interp_multidim':
                if not isinstance(a[0], xr.DataArray):
                    a = tuple((np.asarray(x) + k if i in (2, 4) else x) for i, x in enumerate(a))
                else:
                    a = (a[0], a[1], np.asarray(a[2]) + k, *a[3:])
            elif f == 'gradient' and not isinstance(a[0], xr.DataArray):
                a = (a[0], a[1] + k, *a[2:])
            want = [(p, u + k if '.lon' in p and isinstance(u, np.ndarray) else u) for p, u in e]
            if not self.expect(R, fn, f, (a, kw), want, f'longitudes {k:+}'):
                return

    def shift(self, x, k):
        return x.assign_coords(lon=(x['lon'].dims, x['lon'].values + k, x['lon'].attrs)) if isinstance(x, (xr.DataArray, xr.Dataset)) and 'lon' in x.coords else x


PROP = P()
