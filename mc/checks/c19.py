"""relative humidity and dew point"""
import math
import numpy as np, xarray as xr
from ..core import Prop
from .. import shapes as S
from ..relhum_table import TABLE


def m_relhum(t, w, p):
    t = min(max(t, 173.16), 375.16)
    i = int(math.floor(t - 173.16 + 1e-9))
    fr = (t - 173.16) - i
    es = 0.1 * (TABLE[i] + fr * (TABLE[min(i + 1, len(TABLE) - 1)] - TABLE[i]))
    return max(100 * w * (p - 0.378 * es) / (0.622 * es), 1e-4)


def m_ice(t, w, p):
    es = 6.1128 * math.exp(22.571 * (t - 273.15) / (t - 273.15 + 273.71))
    return 100 * w / (0.622 * es / (p * 0.01 - 0.378 * es))


def m_water(t, w, p):
    es = 6.1128 * math.exp(17.269 * (t - 273.15) / (t - 35.86))
    return 100 * w / (0.622 * es / (p * 0.01 - 0.378 * es))


def m_dew(t, rh):
    gcx = 461.5 / 4186.0
    lhv = (597.3 - 0.57 * (t - 273)) / gcx
    return t * lhv / (lhv - t * math.log(rh / 100))


WS = [0.0, 1e-9, 1e-6, 0.001, 0.008, 0.03]
PS = [200., 5000., 50000., 101325.]
RHS = [0.5, 1., 10., 33., 50., 90., 99., 100., 105.]
CONTS = ['float', 'list', 'np1', 'np2', 'np3F', 'xr1', 'xr2', 'f4', 'i8']


class C19(Prop):
    id = 'C19'
    title = 'Relative humidity and dew point follow their published formulas everywhere'
    oracle = 'scalar transcription of the table lookup, Magnus forms and Dutton formula'

    def bounds_text(self, tier):
        return ('every interval of the 204-entry saturation table at 4 interior points plus both clip ends, 6 mixing ratios, 4 pressures; '
                'temperatures 180..330 K for ice/water/dew point; 9 containers; every sequence of up to 3 (thorough: 4) of 8 points as one array; 7 containers x 8 shapes')

    def scenarios(self, tier):
        temps = [100., 173.0, 173.15] + [173.16 + i + f for i in range(203) for f in (0.0, 0.25, 0.5, 0.999)] + [375.16, 375.2, 400.]
        blocks = [temps[i::12] for i in range(12)]
        for fn in ('relhum', 'ice', 'water', 'dew'):
            for c in CONTS:
                for b in range(12):
                    yield dict(fn=fn, cont=c, block=b, tier=tier)
        for fn in ('relhum', 'ice', 'water', 'dew'):
            for i in range(8):
                yield dict(fn=fn, cont='sequence', block=i, tier=tier)
                yield dict(fn=fn, cont='shapes', block=i, tier=tier)
        for k in range(12):
            yield dict(fn='reject', cont='', block=k, tier=tier)

    def run(self, s, R):
        import geocat.comp as gc
        if s['fn'] == 'reject':
            a, b = np.array([290., 280.]), np.array([50., 60.])
            X = lambda v: xr.DataArray(v, dims=['x'])
            cases = [(gc.relhum_ice, (a, list(b / 1e4), b * 1000)), (gc.relhum_ice, (a, b[:1] / 1e4, b * 1000)), (gc.relhum_ice, (a, b / 1e4, b[:1] * 1000)),
                     (gc.relhum_water, (a, list(b / 1e4), b * 1000)), (gc.relhum_water, (a, b[:1] / 1e4, b * 1000)), (gc.relhum_water, (a, b / 1e4, b[:1] * 1000)),
                     (gc.relhum_ice, (X(a), b / 1e4, b * 1000)), (gc.relhum_water, (X(a), b / 1e4, X(b * 1000))),
                     (gc.dewtemp, (X(a), b)), (gc.dewtemp, (a, X(b))), (gc.relhum_ice, (290., [0.01], [1e5])), (gc.relhum_water, (290., [0.01], [1e5]))]
            fn, args = cases[s['block']]
            R.raises(R.call(fn, *args), 'reject')
            return
        temps = [100., 173.0, 173.15] + [173.16 + i + f for i in range(203) for f in (0.0, 0.25, 0.5, 0.999)] + [375.16, 375.2, 400.]
        temps = temps[s['block']::12]
        fn, c = s['fn'], s['cont']
        if c in ('sequence', 'shapes'):
            f, m = {'relhum': (gc.relhum, m_relhum), 'ice': (gc.relhum_ice, m_ice), 'water': (gc.relhum_water, m_water), 'dew': (gc.dewtemp, m_dew)}[fn]
            P = [(233., 10.), (250., 95.), (263.5, 100.), (273.15, 50.), (280., 1.), (290., 105.), (300., 33.), (320., 90.)] if fn == 'dew' else \
                [(233., 1e-4, 5e4), (250., .03, 1e5), (263.5, 0., 9e4), (273.15, .008, 5e4), (280., 1e-9, 7e4), (290., .01, 101325.), (300., .003, 6e4), (320., .02, 1e5)]
            if fn == 'relhum':
                P[0], P[4], P[7] = (150., .01, 200.), (400., .01, 5e4), (173.16, 1e-6, 5000.)
            go = lambda rows, forms, shapes: S.check(R, f, fn, rows, [m(*r) for r in rows], forms, shapes, dict(rtol=1e-9, atol=1e-12), {})
            b = s['block']
            if c == 'shapes':
                return go((P[b:] + P[:b])[:6], S.FORMS, S.SHAPES)
            for q in S.sequences(P, 3 if s['tier'] == 'thorough' else 2):
                if not go([P[b]] + [P[i] for i in q], ['nd', 'xr'] if len(q) < 2 else ['nd'], [(-1,)]):
                    return
            return
        if c == 'i8':
            temps = [float(int(t)) for t in temps]
        if fn in ('ice', 'water', 'dew'):
            temps = [t for t in temps if 180 <= t <= 330]
        if fn == 'dew':
            rows = [(t, r) for t in temps for r in RHS]
            f, m = gc.dewtemp, m_dew
        else:
            rows = [(t, w, p) for t in temps for w in WS for p in PS]
            f, m = {'relhum': (gc.relhum, m_relhum), 'ice': (gc.relhum_ice, m_ice), 'water': (gc.relhum_water, m_water)}[fn]
            if fn != 'relhum':   # the Magnus forms need vapour pressure well below total pressure
                rows = [r for r in rows if r[2] >= 50000.]
        if len(rows) % 2:
            rows.append(rows[-1])
        cols = [np.array(col) for col in zip(*rows)]
        if c == 'i8':
            cols[0] = cols[0].astype('i8')
            if fn == 'dew':
                cols[1] = np.ceil(cols[1]).astype('i8'); rows = [(float(a), float(b)) for a, b in zip(*cols)]
        if c == 'f4':
            cols = [x.astype('f4') for x in cols]
            rows = [tuple(float(v) for v in r) for r in zip(*cols)]
        exp = np.array([m(*r) for r in rows])
        tol = dict(rtol=1e-9, atol=1e-12) if c != 'f4' else dict(rtol=2e-3, atol=1e-3)
        if c == 'float':
            sub = range(0, len(rows), 5)
            got = []
            for i in sub:
                v = R.value(R.call(f, *[float(x) for x in rows[i]]), fn)
                if v is None:
                    return
                if not R.true(np.ndim(v) == 0, 'scalar:shape', brief_shape(v)):
                    return
                got.append(float(v))
            R.close(np.array(got), exp[list(sub)], fn + ':value', **tol)
            return
        sh = {'np2': (2, -1), 'np3F': (1, -1, 2), 'xr2': (-1, 2)}.get(c, (-1,))
        args = [x.reshape(sh) for x in cols]
        if c == 'list':
            args = [x.tolist() for x in args]
        elif c == 'np3F':
            args = [np.asfortranarray(x) for x in args]
        elif c.startswith('xr'):
            d = ['time', 'lat'][:args[0].ndim]
            co = {k: np.arange(n) * 3 for k, n in zip(d, args[0].shape)}
            args = [xr.DataArray(x, dims=d, coords=co) for x in args]
        v = R.value(R.call(f, *args), fn)
        if v is None:
            return
        if c.startswith('xr'):
            if R.true(isinstance(v, xr.DataArray), 'xr:type', type(v).__name__):
                R.equal(tuple(v.dims), tuple(args[0].dims), 'xr:dims')
                for k in args[0].coords:
                    R.close(v[k].values, args[0][k].values, 'xr:coords')
        R.close(np.asarray(v, float), exp.reshape(sh), fn + ':value', **tol)


def brief_shape(v):
    return f'{type(v).__name__} of shape {np.shape(v)}'


PROP = C19()
