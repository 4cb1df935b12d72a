"""fourier filters: explicit DFT-bin gain model"""
import math
import numpy as np, xarray as xr
from ..core import Prop, product, gen


def quant(x, up):
    """admissible integer bins for cutoff/resolution (two when x is an integer up to rounding)"""
    r = round(x)
    if abs(x - r) < 1e-9 * max(1, abs(x)):
        if x == r:
            return {int(r)}
        return {int(r), int(r) + (1 if up else -1)}
    return {math.ceil(x) if up else math.floor(x)}


def gains(n, lo, hi, flags):
    """0/1 gain per DFT bin, symmetric in +-f"""
    g = []
    for k in range(n):
        m = min(k, n - k)
        keep = True
        if flags[0]:
            keep &= m < lo
        if flags[1]:
            keep &= m >= hi
        if flags[2]:
            keep &= lo <= m < hi
        if flags[3]:
            keep &= not (lo <= m < hi)
        g.append(1.0 if keep else 0.0)
    return g


def apply_model(x, axis, g):
    n = len(g)
    t = np.arange(n)
    c = np.zeros(n)      # response to a unit pulse
    for k in range(n):
        if g[k]:
            c += np.cos(2 * np.pi * ((k * t) % n) / n) / n
    M = c[(t[:, None] - t[None, :]) % n]
    return np.moveaxis(np.tensordot(M, np.moveaxis(np.asarray(x, float), axis, 0), axes=(1, 0)), 0, axis)


MODES = {'low': (1, 0, 0, 0), 'high': (0, 1, 0, 0), 'band': (0, 0, 1, 0), 'block': (0, 0, 0, 1)}


class C10(Prop):
    id = 'C10'
    title = 'Fourier filters apply exact 0/1 gain per frequency bin along the time axis'
    oracle = 'explicit DFT gain matrix per bin (no FFT), applied along the named axis'
    assumptions = ['a cutoff that lands on a bin only up to floating-point rounding may go to either bin']

    def bounds_text(self, tier):
        return ('series lengths 1..9 (thorough: ..17, 64), 1-3 dimensions, every axis incl. negative, '
                'cutoffs at every half bin from 0 to beyond Nyquist, all 16 flag subsets, ndarray/DataArray, '
                'float64/float32/int64, C/F order, sampling rates exact and inexact')

    def scenarios(self, tier):
        ns = [1, 2, 3, 4, 5, 6, 8, 9] if tier == 'quick' else list(range(1, 18)) + [31, 64]
        layouts = [((), 0), ((3,), 0), ((3,), 1), ((3,), -1), ((3,), -2), ((2, 3), 0), ((2, 3), 1), ((2, 3), 2),
                   ((2, 3), -1), ((2, 3), -2), ((2, 3), -3), ((1,), 0), ((1,), 1), ((8,), 1), ((17,), 0)]
        for n in ns:
            for rest, ax in layouts:
                nd = len(rest) + 1
                for cont, dt in [('np', 'f8'), ('xr', 'f8'), ('np', 'f4'), ('np', 'i8'), ('F', 'f8')]:
                    if cont == 'F' and nd == 1:
                        continue
                    for fs in (['n', 10.0] if cont in ('np', 'xr') and dt == 'f8' else ['n']):
                        yield dict(n=n, rest=list(rest), axis=ax, cont=cont, dt=dt, fs=fs, what='gains')
            yield dict(n=n, rest=[3], axis=1, cont='np', dt='f8', fs='n', what='flags')
            yield dict(n=n, rest=[3], axis=1, cont='np', dt='f8', fs='n', what='nan')

        # long series, many series, realistic sampling rates (per hour, per day, in Hz)
        for n, rest, ax in [(64, [3], 0), (100, [], 0), (365, [2], 1), (730, [2], 0), (1000, [3], -1), (501, [2], -2), (40, [30, 40], 0), (40, [30, 40], 1), (40, [30, 40], -1), (24, [2000], 0),
                            (24, [2000], 1), (37, [5, 600], -3)]:
            for cont, dt in [('np', 'f8'), ('xr', 'f8'), ('np', 'f4'), ('np', 'i8'), ('F', 'f8'), ('np', 'i2'), ('np', 'u1'), ('np', 'bool')]:
                for fs in (10, 1 / 3600., 24.0, 4.0e6):
                    if fs != 24.0 and (cont, dt) != ('np', 'f8'):
                        continue
                    yield dict(n=n, rest=rest, axis=ax, cont=cont, dt=dt, fs=fs, what='long')
        for n in (1, 2, 3, 4, 5, 8):
            for dt in ('i2', 'u1', 'bool', 'i4'):
                yield dict(n=n, rest=[3], axis=1, cont='np', dt=dt, fs='n', what='gains')

    def run(self, s, R):
        import geocat.comp as gc
        n, ax = s['n'], s['axis']
        rest = list(s['rest'])
        nd = len(rest) + 1
        pos = ax % nd
        shape = tuple(rest[:pos] + [n] + rest[pos:])
        x = gen(shape, 3, -5, 5)
        if s['dt'] == 'u1':
            x = np.abs(x * 40)
        if s['dt'] == 'bool':
            x = x > 0
        if s['dt'][0] == 'i':
            x = np.round(x * 3).astype('i8')
        x = x.astype(s['dt'])
        if s['cont'] == 'F':
            x = np.asfortranarray(x)
        fs = float(n) if s['fs'] == 'n' else s['fs']
        res = fs / n
        arg = x
        if s['cont'] == 'xr':
            arg = xr.DataArray(x, dims=['abc'[i] for i in range(nd)], name='sig', attrs={'units': 'K', 'u': 1},
                               coords={'abc'[i]: np.arange(shape[i]) * 1.5 for i in range(nd)})
        tol = dict(rtol=1e-9, atol=1e-9) if s['dt'] != 'f4' else dict(rtol=1e-4, atol=1e-4)
        grid = [h / 2 for h in range(0, 2 * (n // 2 + 2) + 1)] + [n + 1.5, 2.0 * n + 1]
        if s['what'] == 'nan':
            for j in range(3):
                y = x.copy()
                y[j, n // 2] = np.nan
                o = R.call(gc.fourier_low_pass, y, fs, 1.0, time_axis=1)
                v = R.value(o, 'nan')
                if v is None:
                    return
                e = apply_model(x, 1, gains(n, 1, 0, (1, 0, 0, 0)))
                keep = [i for i in range(3) if i != j]
                R.close(np.asarray(v)[keep], e[keep], 'nan:other-series', **tol)
            return
        if s['what'] == 'flags':
            for f in range(16):
                fl = [(f >> b) & 1 for b in range(4)]
                for lo, hi in [(1.0, 2.0), (2.0, 1.0), (1.5, 2.5), (0.0, 0.0), (2.0, 3.0)]:
                    o = R.call(gc.fourier_filter, arg, fs, cutoff_frequency_low=lo * res,
                               cutoff_frequency_high=hi * res, time_axis=ax, low_pass=bool(fl[0]),
                               high_pass=bool(fl[1]), band_pass=bool(fl[2]), band_block=bool(fl[3]))
                    v = R.value(o, 'flags')
                    if v is None:
                        return
                    exps = [apply_model(x, ax, gains(n, a, b, fl)) for a in quant(lo * res / res, 0)
                            for b in quant(hi * res / res, 1)]
                    self.any_close(R, v, exps, f'flags:{fl}', tol)
            # the default call passes no flag: unchanged signal
            R.close(R.value(R.call(gc.fourier_filter, arg, fs, time_axis=ax), 'noflag'), x, 'flags:none', **tol)
            return
        if s['what'] == 'long':
            ks = [0.5, 2.5, n / 20 + 0.5, n // 4 + 0.5, n // 2 - 0.5, 3, n // 3, 1]
            grid = ks
        for mode, fl in MODES.items():
            for lo in (grid if mode != 'high' else [0.0]):
                for hi in (grid if mode != 'low' else [0.0]):
                    if mode in ('band', 'block') and s['what'] != 'long' and not (n <= 6 and nd < 3) and (2 * lo) % 2 and (2 * hi) % 2:
                        continue
                    c1, c2 = lo * res, hi * res
                    if mode == 'low':
                        calls = [(gc.fourier_low_pass, (arg, fs, c1), dict(time_axis=ax))]
                    elif mode == 'high':
                        calls = [(gc.fourier_high_pass, (arg, fs, c2), dict(time_axis=ax))]
                    else:
                        calls = [(gc.fourier_band_pass if mode == 'band' else gc.fourier_band_block,
                                  (arg, fs, c1, c2), dict(time_axis=ax))]
                    if s['what'] == 'long' and mode in ('band', 'block') and ks.index(hi) != (ks.index(lo) + 1) % len(ks):
                        continue
                    if lo == hi:
                        calls.append((gc.fourier_filter, (arg, fs, c1, c2, ax) + tuple(bool(b) for b in fl), {}))
                    exps = [apply_model(x, ax, gains(n, a, b, fl)) for a in quant(c1 / (fs / n), 0) for b in quant(c2 / (fs / n), 1)]
                    for fn, a, k in calls:
                        v = R.value(R.call(fn, *a, **k), f'{mode}')
                        if v is None:
                            return
                        if not self.any_close(R, v, exps, f'{mode}:gain', tol):
                            R.viol[-1]['msg'] += f' lo={lo} hi={hi} bins'
                            return
                        if s['cont'] == 'xr':
                            if not R.true(isinstance(v, xr.DataArray), 'xr:type', type(v).__name__):
                                return
                            R.equal(tuple(v.dims), tuple(arg.dims), 'xr:dims')
                            R.equal(dict(v.attrs), {'units': 'K', 'u': 1}, 'xr:attrs')
                            R.equal(v.name, 'sig', 'xr:name')
                            for c in arg.coords:
                                R.close(v[c].values, arg[c].values, 'xr:coords')
                        else:
                            R.true(isinstance(v, np.ndarray), 'np:type', type(v).__name__)

    def any_close(self, R, v, exps, sig, tol):
        from ..core import _eq
        g = np.real(np.asarray(v))
        for e in exps[:-1] if not np.iscomplexobj(v) else []:
            if g.shape == e.shape and _eq(g, e, tol['rtol'], tol['atol']).all():
                R.compared += 1
                R.obs(g)
                return True
        return R.close(v, exps[-1], sig, **tol)


PROP = C10()
