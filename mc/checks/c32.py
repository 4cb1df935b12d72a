"""independent cells: the result for a column, profile, line or point is the same whatever else is in the array"""
import itertools
import numpy as np, xarray as xr
from ..core import Prop, gen
from .. import ops as O
from .c30 import numbers, call, EXTRA
from .c31 import arrays, over, find as find31, MORE

CLIM = ('calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season')
POINT = ('heat_index', 'relhum', 'relhum_ice', 'relhum_water', 'dewtemp', 'saturation_vapor_pressure', 'actual_saturation_vapor_pressure', 'saturation_vapor_pressure_slope', 'psychrometric_constant')
FILTER = ('fourier_filter', 'fourier_low_pass', 'fourier_high_pass', 'fourier_band_pass', 'fourier_band_block')
# dimensions along which the calculation does nothing but repeat itself
IND = {**{f: 'x' for f in CLIM + POINT}, **{f: 'x time' for f in FILTER}, 'interp_hybrid_to_pressure': 'time x', 'interp_sigma_to_hybrid': 'x time', 'interp_multidim': 't', 'gradient': 't', 'nmse': 'time', 'pearson_r': 'x y',
       'delta_pressure': 'a b', 'dpres_plev': 'a b', 'pressure_at_hybrid_levels': 'time x', 'delta_pressure_hybrid': 'time x', 'zonal_meridional_psi': 'time', 'zonal_mpsi': 'time'}
POISON = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, 'zero': 0., 'big': 1e30, 'negative': -1e3}
DOMAIN = {'heat_index': ('nan', 'zero'), 'delta_pressure': ('nan', 'inf', 'big'), 'dpres_plev': ('nan', 'inf', 'big'), 'zonal_meridional_psi': ('big',), 'zonal_mpsi': ('big',)}
RANKS = {*CLIM, *POINT, *FILTER, 'interp_hybrid_to_pressure', 'interp_sigma_to_hybrid', 'interp_multidim', 'gradient', 'delta_pressure', 'dpres_plev', 'pressure_at_hybrid_levels', 'delta_pressure_hybrid', 'pearson_r'}
# arrays without names: (argument, axis) that vary with the cell, and the axis of the result
BARE = {**{f: (lambda a, k: [([(i, 0) for i in range(len(a))], 0)]) for f in POINT},
        **{f: (lambda a, k: [([(0, 1 - k.get('time_axis', 0) % 2)], 1 - k.get('time_axis', 0) % 2)]) for f in FILTER},
        'pearson_r': lambda a, k: [([(0, j), (1, j)], j - (j > k['axis'] % np.ndim(a[0]))) for j in range(np.ndim(a[0])) if j != k['axis'] % np.ndim(a[0])] if k.get('axis') is not None and np.ndim(k.get('weights', 0)) < 2 else [],
        'gradient': lambda a, k: [([(0, 0)], 0)] if np.ndim(a[0]) > 2 else [], 'interp_multidim': lambda a, k: [([(0, 0)], 0)] if np.ndim(a[0]) > 2 else [],
        'delta_pressure': lambda a, k: [([(1, j)], j) for j in range(np.ndim(a[1]))], 'pressure_at_hybrid_levels': lambda a, k: [([(0, j)], j + 1) for j in range(np.ndim(a[0]))],
        'delta_pressure_hybrid': lambda a, k: [([(0, j)], j + 1) for j in range(np.ndim(a[0]))], 'max_daylight': lambda a, k: [([(0, 0)], 0), ([(1, 0)], 1)] if not isinstance(a[0], float) else []}


def gappy(shape, seed, kind):
    v = gen(shape, seed, -3, 9)
    if kind == 2:
        v.reshape(-1)[seed % 7::11] = np.nan
    return v


EXTRA32 = {
    'grad_np3': ('gradient', lambda: ((O.field(3).values, O.LON.copy(), O.LAT.copy()), {})), 'grad_np3_2d': ('gradient', lambda: ((O.field(3).values, *[a.copy() for a in np.meshgrid(O.LON, O.LAT)]), {})),
    'pr_rest': ('pearson_r', lambda: (tuple(O.ab('xr')), {'dim': 'x'})),
    **{f'pr_ax{x}_{sk}_{w}': ('pearson_r', lambda x=x, sk=sk, w=w: ((gappy((4, 5, 3), 31, sk), gappy((4, 5, 3), 32, sk)), {'axis': x, 'skipna': bool(sk), **({'weights': gen((4, 5, 3)[x:x + 1] if x >= 0 else (3,), 9, .5, 3)} if w else {})}))
       for x in (0, 1, -1) for sk in (0, 1, 2) for w in (0, 1)},
    'pr_rest_y': ('pearson_r', lambda: (tuple(O.ab('xr')), {'dim': 'y', 'skipna': True})),
}


def find(n):
    return dict(fn=EXTRA32[n[1:]][0], build=EXTRA32[n[1:]][1]) if n[0] == '%' else find31(n)


def nums(r):
    if isinstance(r, list) and not any(isinstance(v, (np.ndarray, xr.DataArray)) for v in r):
        r = np.array(r, float)
    return [(p, v) for p, v in numbers(r) if '.hlev' not in p]


def fill(v, d, keep, val):
    """v with every cell along d but one replaced"""
    if d not in v.dims:
        return v
    c = getattr(v, 'chunksizes', None)
    w = v.copy(deep=True)
    w = w.compute() if c else w
    for a in ([w] if isinstance(w, xr.DataArray) else [w[k] for k in w.data_vars if d in w[k].dims]):
        a[{d: [j for j in range(a.sizes[d]) if j != keep]}] = val
    return w.chunk(c) if c else w


class Labelled:
    """cells along a named dimension"""

    def __init__(self, name, o, d):
        self.o, self.d = o, d
        a = o['build']()
        self.n = max(v.sizes[d] for v in arrays(a) if d in v.dims)
        self.args = [i for i, v in enumerate(arrays(a)) if d in v.dims]

    def select(self, s):
        return over(self.o['build'](), lambda v: v.isel({self.d: s}) if self.d in v.dims else v)

    def poison(self, keep, val, which):
        k = [-1]

        def f(v):
            k[0] += 1
            return fill(v, self.d, keep, val) if which is None or k[0] == which else v
        return over(self.o['build'](), f)

    def result(self, r, s):
        return over(r, lambda v: v.isel({self.d: s}) if self.d in v.dims else v)


class Bare:
    """cells along an axis"""

    def __init__(self, o, ins, out):
        self.o, self.ins, self.out = o, dict(ins), out
        a = o['build']()[0]
        self.n = np.shape(a[ins[0][0]])[ins[0][1]]
        self.args = [i for i, _ in ins]
        self.d = f'axis {out} of the result'

    def each(self, f):
        a, k = self.o['build']()
        back = lambda x, y: y.tolist() if isinstance(x, list) else y
        return tuple(back(x, f(np.array(x), self.ins[i], i)) if i in self.ins else x for i, x in enumerate(a)), k

    def select(self, s):
        return self.each(lambda x, ax, i: np.take(x, s, axis=ax))

    def poison(self, keep, val, which):
        def f(x, ax, i):
            if which is None or i == which:
                x = np.moveaxis(x.astype(float), ax, 0)
                x[[j for j in range(len(x)) if j != keep]] = val
                x = np.moveaxis(x, 0, ax)
            return x
        return self.each(f)

    def result(self, r, s):
        if isinstance(r, xr.DataArray):
            return r.isel({r.dims[self.out]: s})
        if isinstance(r, list) and any(isinstance(v, np.ndarray) for v in r):
            return [np.take(v, s, axis=self.out) for v in r]
        return np.take(np.asarray(r, float), s, axis=self.out)


def cells(name):
    o = find(name)
    f = o['fn']
    a, k = o['build']()
    if any(True for _ in arrays((a, k))):
        dims = {d for v in arrays((a, k)) for d in v.dims}
        for d in IND.get(f, '').split():
            if d not in dims:
                continue
            if f in FILTER and d != ('x' if k.get('time_axis', 0) == 0 else 'time'):
                continue
            if f == 'pearson_r' and (not k.get('dim') or d in k['dim']):
                continue
            yield Labelled(name, o, d)
    elif f in BARE and not any(np.ndim(x) == 0 for x in a[:1]):
        for ins, out in BARE[f](a, k):
            yield Bare(o, ins, out)


class P(Prop):
    id = 'C32'
    oracle = 'the same call on other selections, contents and ranks of the cells, compared cell by cell'
    assumptions = ['the hlev coordinate of interp_sigma_to_hybrid (levels of the first column) and generated names are not compared', 'contents outside the documented domain (humidity outside 0..100, surface above the top, missing surface pressure of the streamfunction, which it rejects) are not tried']

    def calls(self):
        return [n for n in [k for k, o in O.OPS.items() if o['ok'] and k != 'stub'] + ['+' + k for k in EXTRA] + ['*' + k for k in MORE] + ['%' + k for k in EXTRA32] if any(True for _ in cells(n))]

    def bounds_text(self, tier):
        return ('%d calls x every dimension or axis of independent cells: all index sequences (with repetition, any order) up to length %d and tilings to 500 cells; for every cell, all others replaced by missing, infinite, zero, huge or negative values in all arguments and in each '
                'alone; the same field stacked with another along a new dimension at every position' % (len(self.calls()), 4 if tier == 'thorough' else 3))

    def scenarios(self, tier):
        for n in self.calls():
            for i, c in enumerate(cells(n)):
                for kind in ('select', 'poison'):
                    yield dict(call=n, cells=i, kind=kind, depth=4 if tier == 'thorough' else 3)
            if find(n)['fn'] in RANKS and any(isinstance(c, Labelled) for c in cells(n)) and any(isinstance(v, xr.DataArray) for v in arrays(find(n)['build']())):
                yield dict(call=n, cells=0, kind='stack', depth=2)

    def prepare(self, tier):
        O.warm()

    def run(self, s, R):
        import geocat.comp as gc
        o = find(s['call'])
        f = o['fn']
        fn = getattr(gc, f)
        c = list(cells(s['call']))[s['cells']]
        base = self.go(R, fn, o['build']())
        if not R.true(base.ok, 'call', repr(base.exc)):
            return
        if s['kind'] == 'stack':
            return self.stack(s, R, fn, f, o, base.value, c)
        if s['kind'] == 'select':
            n = c.n
            seqs = [list(q) for k in range(1, s['depth'] + 1) for q in itertools.product(range(n), repeat=k)] if n <= 4 else [list(q) for k in (1, 2) for q in itertools.product(range(n), repeat=k)]
            seqs += [[(i * k) % n for i in range(m)] for m, k in ((12, 1), (37, max(1, n - 1)), (500, 1))] if f not in ('interp_sigma_to_hybrid', 'zonal_meridional_psi', 'zonal_mpsi') else [[i % n for i in range(12)]]
            for q in seqs:
                r = self.go(R, fn, c.select(q))
                if not R.true(r.ok, f'{f}: raises for a selection of cells', f'{c.d} = {q[:8]}: {r.exc!r}'[:300]) or not self.same(R, f, nums(c.result(base.value, q)), nums(r.value), f'cells {q[:8]} along {c.d}'):
                    return
            return
        for keep in range(c.n):
            e = nums(c.result(base.value, [keep]))
            for pk in DOMAIN.get(f, POISON):
                for which in [None, *(c.args if len(c.args) > 1 else ())]:
                    r = self.go(R, fn, c.poison(keep, POISON[pk], which))
                    what = f'cell {keep} along {c.d}, {pk} elsewhere in {"every argument" if which is None else f"argument {which}"}'
                    if not R.true(r.ok, f'{f}: raises for contents of other cells', f'{what}: {r.exc!r}'[:300]) or not self.same(R, f, e, nums(c.result(r.value, [keep])), what):
                        return

    def stack(self, s, R, fn, f, o, base, c):
        """a second member along a new dimension at every position"""
        ind = [q.d for q in cells(s['call'])]
        has = lambda v: isinstance(v, xr.DataArray) and any(d in v.dims for d in ind)
        other = lambda v: v.copy(data=v.data * .97) if has(v) else v
        second = self.go(R, fn, over(o['build'](), other))
        if not R.true(second.ok, 'call', repr(second.exc)):
            return
        a = o['build']()
        nd = max(v.ndim for v in arrays(a) if has(v))
        for pos in range(nd + 1):
            if f == 'gradient' and pos > nd - 2 or f == 'interp_multidim' and pos > nd - 2:
                continue
            for co in (None, [7, 9], ['a', 'b']):
                def grow(v):
                    if not has(v):
                        return v
                    w = xr.concat([v, other(v)], dim='ens', join='override', combine_attrs='override', coords='minimal', compat='override')
                    d = [q for q in w.dims if q != 'ens']
                    d.insert(min(pos, len(d)), 'ens')
                    w = w.transpose(*d)
                    return w if co is None else w.assign_coords(ens=co)
                x = over(o['build'](), grow)
                if f in FILTER:
                    ta = x[1].get('time_axis', 0)
                    ta = ta if ta >= 0 else ta + nd
                    x = (x[0], {**x[1], 'time_axis': ta + (pos <= ta)})
                r = self.go(R, fn, x)
                what = f'a new dimension at position {pos}'
                if not R.true(r.ok, f'{f}: raises for another rank', f'{what}: {r.exc!r}'[:300]):
                    return
                for i, e in enumerate((base, second.value)):
                    got = over(r.value, lambda v: v.isel(ens=i, drop=True))
                    # the place of the other dimensions is compared by the check of each function
                    got = over(got, lambda v: v) if isinstance(got, (list, tuple)) else got.transpose(*e.dims)
                    if not self.same(R, f, nums(e), nums(got), f'{what}, member {i}'):
                        return

    def go(self, R, fn, a):
        def f(*x, **k):
            v = fn(*x, **k)
            return v.compute() if hasattr(v, 'compute') else v
        return R.call(f, *a[0], **a[1])

    def same(self, R, f, e, r, what):
        R.obs(what)
        q = O.differ(e, r, rtol=1e-9)
        if [p for p, _ in e] != [p for p, _ in r]:
            return R.fail(f'{f}: result depends on other cells', f'{what}: {q}'[:400])
        if q is not None:   # rounding of values near zero
            ok = all((np.shape(u) == np.shape(w) and np.allclose(w, u, rtol=1e-9, atol=1e-11 * (np.nanmax(np.abs(u[np.isfinite(u)])) if np.isfinite(u).any() else 0), equal_nan=True))
                     if isinstance(u, np.ndarray) and u.dtype.kind in 'fc' else (np.array_equal(u, w) if isinstance(u, np.ndarray) else u == w) for (_, u), (_, w) in zip(e, r))
            q = None if ok else q
        return R.true(q is None, f'{f}: result depends on other cells', f'{what}: {q}'[:400])


PROP = P()
