"""NWS heat index"""
import math
import numpy as np, xarray as xr
from ..core import Prop
from .. import shapes as S

C1 = [-42.379, 2.04901523, 10.14333127, -0.22475541, -0.00683783, -0.05481717, 0.00122874, 0.00085282, -0.00000199]
C2 = [0.363445176, 0.988622465, 4.777114035, -0.114037667, -0.000850208, -0.020716198, 0.000687678, 0.000274954, 0.0]


def model(t, r, alt):
    """returns (value, alternative value admitted by the documentation or None, ambiguous)"""
    c, crit = (C2, 70) if alt else (C1, 79)
    simple = 0.5 * (t + 61.0 + (t - 68.0) * 1.2 + r * 0.094)
    h = t if t < 40 else simple
    near = abs(simple - crit) < 1e-6
    full = h >= crit
    if full:
        h = (c[0] + c[1] * t + c[2] * r + c[3] * t * r + c[4] * t * t + c[5] * r * r + c[6] * t * t * r
             + c[7] * t * r * r + c[8] * t * t * r * r)
    adj = 0.0
    if r <= 13 and 80 <= t <= 112:
        adj = -((13 - r) / 4) * math.sqrt(max(0.0, 17 - abs(t - 95.0)) / 17)
    elif r > 85 and 80 <= t <= 87:
        adj = ((r - 85) / 10) * ((87 - t) / 5)
    # the text can be read as adjusting only the regression value
    return h + adj, (None if full else h), near


TQ = [-40., 0., 32., 39., 39.99, 40., 40.01, 41., 50., 60., 64.5, 68., 69.9, 70., 72., 74., 75., 76., 77., 78., 78.9, 79., 79.1, 79.9,
      79.99, 80., 80.01, 80.5, 81., 82., 83.3, 85., 86., 86.9, 87., 87.1, 88., 90., 95., 100., 104., 108., 111.9, 112., 112.1, 115., 120., 130.]
RQ = [0., .5, 1., 2., 5., 10., 12., 12.9, 13., 13.1, 14., 20., 30., 40., 45.5, 50., 60., 70., 79., 80., 81., 84.9, 85., 85.1, 86., 90., 95., 99.5, 100.]
# one point (or more) of every regime: cold, simple formula, regression, both adjustments, their edges
POINTS = [(35., 50.), (39.9, 5.), (40., 90.), (70., 90.), (78., 10.), (80., 12.), (84., 95.), (95., 50.), (96., 5.), (113., 10.), (88., 99.), (79.5, 60.)]
CONTS = ['float', 'int', 'list', 'nested', 'np1', 'np2', 'np3F', 'f4', 'i8', 'xr1', 'xr2', 'xr0', 'size1', '0d']


class C18(Prop):
    id = 'C18'
    title = 'heat_index follows the NWS algorithm in every temperature/humidity regime'
    oracle = 'scalar transcription of the NWS decision procedure'
    assumptions = ['points where the simple formula is within 1e-6 of the regression threshold are not compared',
                   'where only the simple formula applies the low/high humidity adjustment may or may not be added (the text allows both)']

    def bounds_text(self, tier):
        return f'full product of {len(TQ)} temperatures x {len(RQ)} humidities touching every branch boundary (thorough: 0.25F x 0.5%), both coefficient sets, {len(CONTS)} containers; every sequence of up to 3 (thorough: 4) of 12 points of the regimes as one array; 7 containers x 8 shapes'

    def scenarios(self, tier):
        for alt in (False, True):
            for c in CONTS:
                T = TQ if c not in ('int', 'i8') else [float(v) for v in range(30, 126)]
                for t in T:
                    yield dict(alt=alt, cont=c, t=t)
            if tier == 'thorough':
                for i in range(-80, 521):
                    yield dict(alt=alt, cont='np1', t=i / 4, fine=1)
                    yield dict(alt=alt, cont='xr1', t=i / 4, fine=1)
        for k in range(12):
            yield dict(alt=False, cont='reject', t=k)
        for alt in (False, True):
            for i in range(len(POINTS)):
                yield dict(alt=alt, cont='sequence', t=i, depth=4 if tier == 'thorough' else 3)
            for i in range(len(POINTS)):
                yield dict(alt=alt, cont='shapes', t=i)
            yield dict(alt=alt, cont='table', t=0)

    def run(self, s, R):
        import geocat.comp as gc
        f, t, c = gc.heat_index, s['t'], s['cont']
        if c == 'reject':
            k = s['t']
            a, b = np.array([90., 95., 100.]), np.array([50., 60., 70.])
            X = lambda v: xr.DataArray(v, dims=['x'])
            cases = [(a, np.array([50., -0.1, 70.])), (a, np.array([50., 60., 100.1])), (a, np.array([50., 60.])), (a, list(b)),
                     (X(a), b), (list(a), b), (90., 101.), (90., -1.), (X(a), X(np.array([1., 2., 101.]))), ([90., 80.], [50., -3.]),
                     (np.ones((2, 3)) * 80, np.ones((3, 2)) * 50), (90, 50.)]
            R.raises(R.call(f, *cases[k]), f'reject:{k}')
            if k == 0:
                o = R.call(f, a, b / 100)
                R.true(any('fraction' in str(w.message) or '<= 1' in str(w.message) for w in o.warns), 'no-warning-for-fractional-humidity')
                o = R.call(f, a, np.array([.5, .6, 50.]))
                R.true(not any('<= 1' in str(w.message) for w in o.warns), 'spurious-warning')
                n = R.value(R.call(f, np.array([90., np.nan, 100.]), np.array([50., 60., np.nan])), 'nan')
                if n is not None:
                    R.close(n, [model(90., 50., False)[0], np.nan, np.nan], 'nan')
            return
        if c in ('sequence', 'shapes', 'table'):
            kw = dict(alternate_coeffs=True) if s['alt'] else {}
            tol = dict(rtol=1e-9, atol=1e-9)

            def go(rows, forms, shapes):
                ms = [model(*r, s['alt']) for r in rows]
                return S.check(R, f, 'heat index', rows, [m[0] for m in ms], forms, shapes, tol, kw, [m[0] if m[1] is None else m[1] for m in ms], [m[2] for m in ms])
            if c == 'table':
                rows = [(a, b) for a in TQ for b in RQ]
                return go(rows, ['nd', 'list', 'xr', 'dask'], [(-1,), (len(TQ), -1), (-1, 1, 2)])
            if c == 'shapes':
                return go((POINTS[t:] + POINTS[:t])[:6], S.FORMS, S.SHAPES)
            for q in S.sequences(POINTS, s['depth'] - 1):
                if not go([POINTS[t]] + [POINTS[i] for i in q], ['nd', 'xr'] if len(q) < 2 else ['nd'], [(-1,)]):
                    return
            return
        RH = RQ if not s.get('fine') else [i / 2 for i in range(0, 201)]
        if c in ('int', 'i8'):
            RH = [float(int(v)) for v in RH if v == int(v)]
        ms = [model(t, r, s['alt']) for r in RH]
        exp = np.array([m[0] for m in ms])
        alt = np.array([m[0] if m[1] is None else m[1] for m in ms])
        skip = np.array([m[2] for m in ms])
        kw = dict(alternate_coeffs=True) if s['alt'] else {}
        tol = dict(rtol=1e-9, atol=1e-9)
        n = len(RH)
        if c in ('float', 'int', 'xr0', 'size1', '0d'):
            mk = {'float': float, 'int': int, 'xr0': xr.DataArray, 'size1': lambda v: np.array([v]), '0d': np.array}[c]
            got = []
            for r in RH:
                v = R.value(R.call(f, mk(t), mk(r), **kw), c)
                if v is None:
                    return
                if c in ('float', 'int'):
                    R.true(isinstance(v, float) or isinstance(v, int) or np.ndim(v) == 0, 'scalar:type', type(v).__name__)
                got.append(np.asarray(v, float).reshape(()) if np.size(v) == 1 else np.nan)
            R.close(np.array(got), exp, 'value', alt=alt, skip=skip, **tol)
            return
        # pad to even size by repeating the last humidity
        pad = RH + [RH[-1]] * (n % 2)
        T2, R2 = np.full(len(pad), t), np.array(pad)
        shape = {'np2': (2, -1), 'xr2': (-1, 2), 'np3F': (1, -1, 2), 'nested': (2, -1)}.get(c, (-1,))
        T2, R2 = T2.reshape(shape), R2.reshape(shape)
        if c in ('list', 'nested'):
            a, b = T2.tolist(), R2.tolist()
        elif c == 'np3F':
            a, b = np.asfortranarray(T2), np.asfortranarray(R2)
        elif c in ('f4', 'i8'):
            a, b = T2.astype(c), R2.astype(c)
            if c == 'f4':
                tol = dict(rtol=3e-4, atol=3e-3)
                f32 = [model(float(np.float32(t)), float(np.float32(r)), s['alt']) for r in RH]
                exp = np.array([m[0] for m in f32]); alt = np.array([m[0] if m[1] is None else m[1] for m in f32])
                crit = 70 if s['alt'] else 79
                skip = np.array([abs(.5 * (t + 61 + (t - 68) * 1.2 + r * .094) - crit) < 1e-3 or abs(r - 13) < 1e-5 * 13 and r != 13 for r in RH])
        elif c in ('xr1', 'xr2'):
            d = ['time', 'lat'][:T2.ndim]
            co = {k: np.arange(m) * 2 for k, m in zip(d, T2.shape)}
            a, b = xr.DataArray(T2, dims=d, coords=co), xr.DataArray(R2, dims=d, coords=co)
        else:
            a, b = T2, R2
        v = R.value(R.call(f, a, b, **kw), c)
        if v is None:
            return
        if c in ('list', 'nested'):
            R.true(isinstance(v, list), 'list:type', type(v).__name__)
        if c.startswith('xr'):
            if R.true(isinstance(v, xr.DataArray), 'xr:type', type(v).__name__):
                R.equal(tuple(v.dims), tuple(a.dims), 'xr:dims')
                for k in a.coords:
                    R.close(v[k].values, a[k].values, 'xr:coords')
                R.equal(v.attrs.get('units'), 'F', 'xr:units')
        g = np.asarray(v, float)
        if not R.true(g.shape == T2.shape, 'shape', f'{g.shape} for {T2.shape}'):
            return
        R.close(g.ravel()[:n], exp, 'value', alt=alt, skip=skip, **tol)


PROP = C18()
