"""FAO-56 functions"""
import math
import numpy as np, xarray as xr
from ..core import Prop
from .. import shapes as S


def c_of(f):
    return (f - 32) * 5 / 9


def m_svp(f, fill):
    t = c_of(f)
    return 0.6108 * math.exp(17.27 * t / (t + 237.3)) if t > 0 else fill


def m_slope(f, fill, k=4096):
    t = c_of(f)
    return k * 0.6108 * math.exp(17.27 * t / (t + 237.3)) / (t + 237.3) ** 2 if t > 0 else fill


def m_day(j, lat):
    dec = 0.409 * math.sin(2 * math.pi / 365 * j - 1.39)
    a = -math.tan(math.radians(lat)) * math.tan(dec)
    return 24 / math.pi * math.acos(a) if -1 <= a <= 1 else float('nan')


TF = [-40., 0., 14., 31.99, 32., 32.01, 33., 40., 50., 59.9, 60., 70., 77., 86., 100., 104., 122., 140.]
CONTS = ['float', 'int', 'list', 'np1', 'np2', 'np3F', 'i8', 'f4', 'xr1', 'xr2', 'xr0']
FILLS = ['default', 0.0, -999.0, 'nan']
LATS = [-66., -60., -55.5, -45., -23.4, -10., -1., 0., 1., 10., 20., 33.3, 45., 55., 56., 65., 66.]


class C20(Prop):
    id = 'C20'
    title = 'FAO-56 functions follow equations 8, 11, 13, 14, 24, 25 and 34'
    oracle = 'scalar transcription of the FAO-56 equations'
    assumptions = ['equation 13 is accepted with the constant 4096 (NCL, the repository\'s examples) or 4098 (FAO-56)',
                   'max_daylight arguments other than ndarrays are compared at single precision']

    def bounds_text(self, tier):
        return '18 temperatures around freezing and to 140F x 4 fill values x 11 containers; every sequence of up to 4 (thorough: 5) of 6 points as one array; 7 containers x 8 shapes; pressures 0..110 kPa; every day of year 1..366 x 17 latitudes'

    def scenarios(self, tier):
        for fn in ('svp', 'asvp', 'slope'):
            for fill in FILLS:
                for c in CONTS:
                    for pos in (0, 1):
                        yield dict(fn=fn, fill=fill, cont=c, pos=pos)
        for c in CONTS:
            yield dict(fn='psy', cont=c)
        for c in ('np', 'list', 'xr', 'xrboth', 'scalarday', 'scalarlat', 'f4', 'i8'):
            for b in range(12):
                yield dict(fn='day', cont=c, block=b)
        for c in ('np', 'list', 'xr', 'xrboth', 'i8'):
            for b in ('full', 'mixed', 'one', 'year2'):
                yield dict(fn='day', cont=c, block=b)
        for fn in ('svp', 'asvp', 'slope', 'psy'):
            for fill in FILLS if fn != 'psy' else ['default']:
                for c in ('sequence', 'shapes'):
                    yield dict(fn=fn, fill=fill, cont=c, depth=5 if tier == 'thorough' else 4)
        yield dict(fn='polar', cont='np')
        yield dict(fn='reject', cont='np')

    def run(self, s, R):
        import geocat.comp as gc
        fn, c = s['fn'], s['cont']
        if fn == 'reject':
            R.raises(R.call(gc.max_daylight, np.ones((2, 2)), np.array([1., 2.])), 'jday-2d')
            R.raises(R.call(gc.max_daylight, np.array([1., 2.]), np.ones((2, 2))), 'lat-2d')
            return
        if fn == 'polar':
            lat = np.array([-90., -80., -70., -67., 67., 70., 80., 90.])
            j = np.arange(1., 367.)
            v = R.value(R.call(gc.max_daylight, j, lat), 'polar')
            e = np.array([[m_day(a, b) for b in lat] for a in j])
            near = np.array([[abs(abs(math.tan(math.radians(b)) * math.tan(0.409 * math.sin(2 * math.pi / 365 * a - 1.39))) - 1) < 1e-6 for b in lat] for a in j])
            R.close(v, e, 'polar', rtol=1e-6, skip=near)
            return
        if fn == 'day':
            if c in ('scalarday', 'scalarlat'):
                j = np.arange(1. + s['block'], 367., 12)[::4]
                for a in j:
                    for b in LATS[::3]:
                        if c == 'scalarday':
                            v = R.value(R.call(gc.max_daylight, float(a), np.array([b, 5.])), 'day')
                            e = [[m_day(a, b), m_day(a, 5.)]]
                        else:
                            v = R.value(R.call(gc.max_daylight, np.array([a, 7.]), float(b)), 'day')
                            e = [[m_day(a, b)], [m_day(7., b)]]
                        if v is None:
                            return
                        R.close(np.asarray(v), e, 'daylight:scalar', rtol=1e-5)
                return
            if isinstance(s['block'], str):
                j = {'full': np.arange(1., 367.), 'mixed': np.array([200., 3., 200., 366., 1., 172.]), 'one': np.array([80.]), 'year2': np.arange(1., 366., 10).repeat(30)}[s['block']]
                lat = {'full': np.arange(-66, 66.5, .5), 'mixed': np.array([40., -60., 40., 0.]), 'one': np.array([-35.]), 'year2': np.array([12., 50.])}[s['block']]
            else:
                j = np.arange(1. + s['block'], 367., 12)
                lat = np.array(LATS)
            if c == 'i8':
                j, lat = j.astype('i8'), lat.astype('i8')
            if c == 'f4':
                j, lat = j.astype('f4'), lat.astype('f4')
            e = np.array([[m_day(float(a), float(b)) for b in lat] for a in j])
            aj, al = j, lat
            if c == 'list':
                aj, al = j.tolist(), lat.tolist()
            if c in ('xr', 'xrboth'):
                aj = xr.DataArray(j, dims=['t'])
            if c == 'xrboth':
                al = xr.DataArray(lat, dims=['l'])
            v = R.value(R.call(gc.max_daylight, aj, al), 'day')
            if v is None:
                return
            R.close(np.asarray(v), e, 'daylight', rtol=1e-9 if c in ('np', 'i8') else 1e-4)
            if c in ('xr', 'xrboth'):
                if R.true(isinstance(v, xr.DataArray), 'xr:type', type(v).__name__):
                    R.equal(tuple(v.dims), ('doy', 'lat'), 'xr:dims')
                    R.close(v['doy'].values, j, 'xr:doy', rtol=1e-6)
                    R.close(v['lat'].values, lat, 'xr:lat', rtol=1e-6)
            return
        if fn == 'psy':
            xs = [0., 10., 54.3, 60., 80., 100., 101., 110.]
            f, m, kw = gc.psychrometric_constant, (lambda p: 0.66474e-3 * p), {}
            alt = None
        else:
            xs = TF
            fill = float('nan') if s['fill'] in ('default', 'nan') else s['fill']
            f = {'svp': gc.saturation_vapor_pressure, 'asvp': gc.actual_saturation_vapor_pressure, 'slope': gc.saturation_vapor_pressure_slope}[fn]
            m = (lambda t: m_slope(t, fill)) if fn == 'slope' else (lambda t: m_svp(t, fill))
            kw = {} if s['fill'] == 'default' else {'tfill': fill}
        if c in ('sequence', 'shapes'):
            P = [0., 54.3, 80., 101., 110., 60.] if fn == 'psy' else [-40., 31.99, 32., 32.01, 60., 122.]
            mm = m if fn != 'slope' else lambda v: m_slope(v, fill)
            go = lambda v, forms, shapes: S.check(R, f, fn, [(q,) for q in v], [mm(q) for q in v], forms, shapes, dict(rtol=1e-9), kw, alt=[m_slope(q, fill, 4098) for q in v] if fn == 'slope' else None)
            if c == 'shapes':
                for i in range(6):
                    if not go((P[i:] + P[:i]), S.FORMS, S.SHAPES):
                        return
                return
            for q in S.sequences(P, s['depth']):
                if not go([P[i] for i in q], ['nd', 'xr'] if len(q) < 3 else ['nd'], [(-1,)]):
                    return
            return
        if c in ('int', 'i8'):
            xs = [float(int(v)) for v in xs]
        x = np.array(xs)
        if c == 'f4':
            x = x.astype('f4')
        e = np.array([m(float(v)) for v in x])
        alt = np.array([m_slope(float(v), fill, 4098) for v in x]) if fn == 'slope' else None
        tol = dict(rtol=1e-9) if c != 'f4' else dict(rtol=1e-4)
        args = (kw.pop('tfill'),) if kw and s.get('pos') else ()
        if c in ('float', 'int', 'xr0'):
            got = []
            for v in xs:
                r = R.value(R.call(f, {'float': float, 'int': int, 'xr0': xr.DataArray}[c](v), *args, **kw), fn)
                if r is None:
                    return
                if not R.true(np.ndim(r) == 0, 'scalar:shape', np.shape(r)):
                    return
                got.append(float(r))
            R.close(got, e, fn + ':value', alt=alt, **tol)
            return
        sh = {'np2': (2, -1), 'np3F': (1, -1, 2), 'xr2': (-1, 2)}.get(c, (-1,))
        a = x.reshape(sh)
        if c == 'list':
            a = a.tolist()
        if c == 'np3F':
            a = np.asfortranarray(a)
        if c == 'i8':
            a = a.astype('i8')
        if c.startswith('xr'):
            d = ['lat', 'lon'][:a.ndim]
            a = xr.DataArray(a, dims=d, coords={k: np.arange(n) + .5 for k, n in zip(d, a.shape)})
        r = R.value(R.call(f, a, *args, **kw), fn)
        if r is None:
            return
        R.close(np.asarray(r), e.reshape(sh), fn + ':value', alt=None if alt is None else alt.reshape(sh), **tol)
        if c.startswith('xr'):
            if R.true(isinstance(r, xr.DataArray), 'xr:type', type(r).__name__):
                R.equal(tuple(r.dims), tuple(a.dims), 'xr:dims')
                for k in a.coords:
                    R.close(r[k].values, a[k].values, 'xr:coords')
                R.equal(r.attrs.get('units'), {'slope': 'kPa/C', 'psy': 'kPa/C'}.get(fn, 'kPa'), 'xr:units')


PROP = C20()
