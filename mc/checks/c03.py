"""C03 chunked inputs: every chunking and every order of the chunk tasks"""
import itertools, json
import numpy as np, xarray as xr
from ..core import Prop
from .. import ops as O
from .c22 import REG, NAME


def compositions(n):
    if n == 0:
        return [()]
    out = []
    for m in range(1 << (n - 1)):
        c, cur = [], 1
        for i in range(n - 1):
            if m >> i & 1:
                c.append(cur); cur = 1
            else:
                cur += 1
        out.append(tuple(c + [cur]))
    return sorted(out, key=len)


def splits(n, tier, small):
    """ways to split one dimension: all of them when short, else all uniform sizes and all single cuts"""
    if n <= small:
        return compositions(n)
    out = {(n,)}
    for k in range(1, n):
        out.add(tuple([k] * (n // k) + ([n % k] if n % k else [])))
        out.add((k, n - k))
    if tier == 'thorough':
        for i in range(1, n):
            for j in range(i + 1, n, 1 if n < 12 else 3):
                out.add((i, j - i, n - j))
    return sorted(out)


def isx(x):
    return isinstance(x, (xr.DataArray, xr.Dataset))


def rechunk(x, ch):
    return x.chunk({k: tuple(v) for k, v in ch.items() if k in x.dims}) if isx(x) else x


def compute(v, scheduler=None):
    import dask
    if isinstance(v, (list, tuple)):
        return type(v)(compute(x, scheduler) for x in v)
    if isx(v):
        return v.compute(scheduler=scheduler) if scheduler else v.compute()
    if hasattr(v, 'dask'):
        return v.compute(scheduler=scheduler) if scheduler else v.compute()
    return v


class Orders:
    """a dask scheduler that runs one task at a time in an order chosen by a list of deviations from the default"""

    def __init__(self):
        self.choices = {}
        self.points = []
        self.mode = 'default'

    def __call__(self, dsk, keys, **kw):
        from dask._task_spec import convert_legacy_graph
        from dask.core import flatten
        from dask.order import order
        if hasattr(dsk, '__dask_graph__'):
            dsk = dsk.__dask_graph__()
        dsk = convert_legacy_graph(dict(dsk))
        prio = order(dsk)
        num = {k: i for i, k in enumerate(sorted(dsk, key=lambda k: prio[k]))}
        waiting = {k: set(t.dependencies) for k, t in dsk.items()}
        users = {}
        for k, d in waiting.items():
            for q in d:
                users.setdefault(q, []).append(k)
        ready = sorted((k for k, d in waiting.items() if not d), key=num.get)
        cache = {}
        step = len(self.points)
        while ready:
            self.points.append(len(ready))
            i = self.choices.get(step, 0)
            if self.mode == 'last':
                i = len(ready) - 1
            elif self.mode == 'rotate':
                i = step % len(ready)
            if i >= len(ready):
                raise RuntimeError('replay diverged')
            step += 1
            k = ready.pop(i)
            cache[k] = dsk[k]({d: cache[d] for d in dsk[k].dependencies})
            for u in users.get(k, ()):
                waiting[u].discard(k)
                if not waiting[u]:
                    ready.append(u)
            ready.sort(key=num.get)
        assert len(cache) == len(dsk), 'tasks left over'

        def pick(k):
            return [pick(x) for x in k] if isinstance(k, list) else cache[k]
        return pick(keys)


def sources(args):
    """the arrays in memory behind chunked arguments"""
    out = []
    for x in args:
        if isinstance(x, xr.DataArray):
            x = [x]
        elif isinstance(x, xr.Dataset):
            x = list(x.data_vars.values())
        else:
            continue
        for a in x:
            out.append(a.values)
    return out


NOCORE = {'pr_xr'}
POINT = ['hi_xr', 'rh_xr', 'rhi_xr', 'rhw_xr', 'dew_xr', 'svp_xr', 'slope_xr', 'psy_xr', 'asvp_xr']


class P(Prop):
    id = 'C03'
    oracle = 'the result of the same call on data in memory'
    assumptions = ['pearson_r with the reduced dimension split into several chunks is not supported by xskillscore', 'the sign of an EOF mode is arbitrary', 'EOFs of data split in time and in space are refused by dask (NotImplementedError)',
                   'tasks of one graph are executed one at a time, in every order explored']
    timeout = 300

    def bounds_text(self, tier):
        return ('every function that takes chunked data x which arguments are chunked x every split of each dimension of up to 4 points and all uniform splits and single cuts of longer ones '
                f'(joint over the dimensions); arguments split alike and differently; every {"sequence of 4" if tier == "thorough" else "multiset of 3"} representative elements and missing values of the element-wise functions and a missing value anywhere in the others; every task order with up to {2 if tier == "thorough" else 1} departures from the default order plus the reversed and a rotating order')

    def prepare(self, tier):
        O.warm()

    def names(self):
        # cftime versions of the climatologies share everything with the others but the calendar arithmetic
        return [n for n, o in O.OPS.items() if o['ok'] and ('xr' in o['tags'] or n.endswith('_ds') or n in SMALL)]

    def dims(self, args):
        d = {}
        for x in args:
            if isx(x):
                d.update({k: v for k, v in x.sizes.items() if k not in d})
        return d

    def scenarios(self, tier):
        for n in self.names():
            a, k = build(n)
            dims = self.dims(a)
            nx = sum(map(isx, a))
            whichs = ['all', 'first', 'rest', 'other'] if nx > 1 else ['all']
            small = 4 if tier == 'quick' else 6
            if 'clim' in O.OPS.get(n, {'tags': ()})['tags']:
                small = 2
            sp = [splits(v, tier, small) for v in dims.values()]
            for combo in itertools.product(*sp):
                if sum(len(c) > 1 for c in combo) > (2 if tier == 'quick' else 9):
                    continue
                if n in NOCORE and len(combo[0]) > 1:
                    continue
                if tier == 'quick' and max(dims.values()) > 6 and len(combo) > 1 and 1 < len(combo[0]) and len(combo[1]) > 1 and combo[0][0] % 3:
                    continue
                if tier == 'quick' and n.endswith('_noleap') and combo[0][0] % 4 != 1:
                    continue
                for w in whichs if max(dims.values()) <= 6 else ['all']:
                    yield dict(k='chunk', op=n, which=w, ch=dict(zip(dims, map(list, combo))))
        # what the blocks hold: every sequence of representative elements in every split, a missing value at every place
        for f in REG:
            for first in range(len(REG[f])):
                yield dict(k='point', op=f, first=first, n=4 if tier == 'thorough' else 3)
        for n in self.names():
            if n in POINT:
                continue  # above
            a, k = build(n)
            x = next((x for x in a if isinstance(x, xr.DataArray) and x.dtype.kind == 'f'), None)
            if x is None:
                continue
            dims = self.dims(a)
            chs = [{d: [1] * v for d, v in dims.items()}, {d: [v - v // 2, v // 2] for d, v in dims.items() if v > 1}] + [{d: [1, v - 1]} for d, v in dims.items() if v > 1]
            clim = 'clim' in O.OPS.get(n, {'tags': ()})['tags']
            if tier == 'quick' and n.endswith('_noleap'):
                continue
            for ch in chs[1:2] if clim and tier == 'quick' else chs:
                if n in NOCORE and len(ch.get(list(dims)[0], [1])) > 1:
                    continue
                for pos in range(0, x.size, 1 if tier == 'thorough' else max(1, x.size // (4 if clim else 8))):
                    yield dict(k='chunk', op=n, which='all', hole=pos, ch={d: ch.get(d, [v]) for d, v in dims.items()})
        for n, chs in ORDER.items():
            for ch in chs[:None if tier == 'thorough' else 2]:
                for part in range(4):
                    yield dict(k='order', op=n, ch=ch, bound=2 if tier == 'thorough' and len(chs) < 2 else 1, part=part)

    def run(self, s, R):
        import geocat.comp as gc, dask
        dask.config.set(scheduler='synchronous')
        if s['k'] == 'point':
            return self.point(s, R, gc)
        n = s['op']
        o = OPS(n)
        fn = getattr(gc, o['fn'])

        def build(n):
            a, k = globals()['build'](n)
            if 'hole' in s:
                a = tuple(a)
                i = next(i for i, x in enumerate(a) if isinstance(x, xr.DataArray) and x.dtype.kind == 'f')
                x = a[i].copy(deep=True)
                x.values[np.unravel_index(s['hole'], x.shape)] = np.nan
                a = a[:i] + (x,) + a[i + 1:]
            return a, k
        a, k = build(n)
        ref = R.value(R.call(fn, *a, **k), 'data in memory')
        if ref is None:
            return
        ref = O.flat(compute(ref))
        a, k = build(n)
        w = s.get('which', 'all')
        b, first = [], True
        for x in a:
            if isx(x):
                if w == 'other' and not first:   # split differently from the first argument
                    b.append(rechunk(x, {d: c[::-1] if c != c[::-1] else [sum(c)] if len(c) > 1 else [1] * c[0] for d, c in s['ch'].items()}))
                    continue
                b.append(rechunk(x, s['ch']) if w == 'all' or (w == 'first') == first else x)
                first = False
            else:
                b.append(x)
        if s['k'] == 'chunk':
            o = R.call(lambda: compute(fn(*b, **k)))
            if n.startswith(('eof', 'pcs')) and isinstance(o.exc, NotImplementedError) and len(s['ch']['time']) > 1 and len(s['ch']['x']) * len(s['ch']['y']) > 1:
                return  # dask has no svd of an array split in both directions and says so
            v = R.value(o, 'chunked data')
            if v is not None:
                self.same(R, n, O.flat(v), ref, 'differs from the result in memory')
            d = O.differ(O.flat(compute(list(b))), O.flat(list(build(n)[0])))
            R.true(strip(d) is None, 'chunked arguments changed', d)
            return
        g = Orders()
        res = R.value(R.call(fn, *b, **k), 'chunked data')
        if res is None:
            return
        pristine = [x.copy() for x in sources(build(n)[0])]
        runs = 0

        def execute(ch, mode='default'):
            nonlocal runs
            runs += 1
            g.choices, g.points, g.mode = ch, [], mode
            v = R.call(lambda: compute(res, scheduler=g))
            if v.ok:
                if not self.same(R, n, O.flat(v.value), ref, 'depends on the order of the tasks'):
                    R.viol[-1]['msg'] += f' with choices {ch} mode {mode}'
            else:
                R.fail('depends on the order of the tasks:raised', f'{v!r} with choices {ch} mode {mode}')
            return list(g.points)

        pts = execute({})
        execute({}, 'last'); execute({}, 'rotate')
        execute({})
        todo = [({i: c}, i) for i, p in enumerate(pts) for c in range(1, p)]
        todo = [t for j, t in enumerate(todo) if j % 4 == s['part']]
        for ch, i in todo:
            p2 = execute(ch)
            if s['bound'] > 1:
                for j in range(i + 1, len(p2)):
                    for c in range(1, p2[j]):
                        execute({**ch, j: c})
            if len(R.viol) > 3:
                break
        for x, y in zip(sources(b), pristine):
            R.true(np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'), 'chunked arguments changed', (x, y))
        R.obs(f'{runs} orders of {len(pts)} tasks')

    def point(self, s, R, gc):
        f, L = s['op'], s['n']
        fn, kw, reg = getattr(gc, NAME[f]), {'alternate_coeffs': True} if f == 'heat_alt' else {}, REG[f]
        for rest in itertools.product(range(len(reg)), repeat=L - 1) if L > 3 else itertools.combinations_with_replacement(range(len(reg)), L - 1):
            rows = [reg[i] for i in (s['first'],) + rest]
            cols = [xr.DataArray(np.array(c), dims=['x'], coords={'x': np.arange(L)}) for c in zip(*rows)]
            ref = R.value(R.call(fn, *cols, **kw), f)
            if ref is None:
                return
            for c in compositions(L) if L > 3 else [(3,), (1, 2)]:
                v = R.value(R.call(lambda: fn(*[x.chunk({'x': c}) for x in cols], **kw).compute()), f'{f} chunked')
                if v is None or not R.close(v.values, ref.values, 'differs from the result in memory', rtol=1e-12):
                    R.fail('differs from the result in memory', f'{f} {rows} in blocks {c}')
                    return

    def same(self, R, n, got, ref, sig):
        drop = lambda f: [x for x in f if not x[0].endswith((':lazy',))]
        if n.startswith(('eof', 'pcs')):
            def norm(f):
                out = []
                for p, x in f:
                    if p.endswith(':data:attrs'):
                        continue
                    if p.endswith(':data:values'):
                        ax = 1 if n.startswith('pcs') and x.shape[0] == 6 else 0
                        x = np.moveaxis(x, ax, 0)
                        x = np.array([m * np.sign(m.ravel()[np.argmax(np.abs(m.ravel()))]) for m in x])
                    out.append((p, x))
                return out
            got, ref = norm(got), norm(ref)
        d = O.differ(drop(got), drop(ref), rtol=1e-9)
        R.compared += 1
        R.obs(repr(d is None))
        for p, x in got:
            if isinstance(x, np.ndarray):
                R.obs(x)
        if d:
            R.fail(sig, f'{n}: {d} (chunked / in memory)')
            return False
        return True


def strip(d):
    return None if d is None or ':lazy' in d else d


SMALL = {}
ORDER = {}


def OPS(n):
    return O.OPS[n] if n in O.OPS else SMALL[n]


def build(n):
    return OPS(n)['build']()


def small(name, fn, build, *chs):
    SMALL[name] = dict(fn=fn, build=build, ok=True, tags=set())
    ORDER[name] = list(chs)


for c in ('hi_xr', 'rh_xr', 'rhi_xr', 'rhw_xr', 'dew_xr', 'svp_xr', 'slope_xr', 'psy_xr', 'asvp_xr'):
    ORDER[c] = [{'x': [2, 2]}, {'x': [1, 1, 2]}, {'x': [1, 1, 1, 1]}]
ORDER.update({'i2p': [{'time': [1, 1]}, {'lev': [2, 2]}, {'x': [1, 1, 1], 'time': [1, 1]}], 'i2p_log': [{'lev': [1, 3]}, {'x': [1, 2]}], 'i2p_temperature': [{'x': [1, 2]}, {'lev': [2, 2]}],
              'i2p_geopotential': [{'time': [1, 1]}, {'lev': [2, 2]}], 'i2p_other': [{'x': [2, 1]}, {'lev': [1, 3]}], 'pah': [{'time': [1, 1], 'x': [1, 2]}],
              'dph': [{'time': [1, 1], 'x': [1, 2]}], 'nmse': [{'time': [1, 1]}, {'lat': [1, 2]}], 'pr_xr': [{'x': [2, 2]}], 'grad_xr': [{'lat': [2, 2]}],
              'multi': [{'lat': [2, 2]}], 'sph_dec_xr': [{'y': [2, 3]}], 'sph_rec_xr': [{'y': [2, 3]}]})
sm = lambda cal, n, step: (lambda: O.ts(cal, n, step))
def s2hs():
    a, k = O.OPS['s2h']['build']()
    return tuple(x.isel(time=slice(0, 1), x=slice(0, 2)) if 'time' in x.dims else x for x in a), k


small('s_s2h', 'interp_sigma_to_hybrid', s2hs, {'lev': [2, 2]})
small('s_cal_month', 'calendar_average', lambda: ((O.ts('np', 6).isel(time=slice(0, 4)), 'month'), {}), {'time': [2, 2]})
small('s_cal_season', 'calendar_average', lambda: ((O.ts('np', 5), 'season'), {}), {'time': [2, 3]})
small('s_clim_season', 'climatology_average', lambda: ((O.ts('np', 5), 'season'), {'custom_seasons': 'DJF'}), {'time': [2, 3]})
small('s_clim_month', 'climatology_average', lambda: ((O.ts('np', 14).isel(time=slice(0, 14)), 'month'), {}), {'time': [7, 7]})
small('s_anom', 'climate_anomaly', lambda: ((O.ts('np', 5), 'month'), {}), {'time': [2, 3]})
small('s_mts', 'month_to_season', lambda: ((O.ts('np', 12), 'JFM'), {}), {'time': [6, 6]})

PROP = P()
