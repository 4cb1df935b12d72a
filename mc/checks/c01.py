"""C01 purity and independence of the call history"""
import os, sys, types, warnings, itertools
import numpy as np, xarray as xr
from ..core import Prop
from .. import ops as O, forked


def ambient():
    """process state a call could leave behind"""
    import dask, pandas as pd, locale
    st = np.random.get_state()
    return {'warnings.filters': [repr(f) for f in warnings.filters], 'numpy error state': repr(np.geterr()), 'xarray options': repr(sorted(xr.get_options().items(), key=str)),
            'environment': repr(sorted(os.environ.items())), 'random state': repr((st[1][:5].tolist(), st[2])), 'dask config': repr(dask.config.config),
            'locale': locale.setlocale(locale.LC_ALL), 'cwd': os.getcwd(), 'print options': repr(np.get_printoptions()),
            'pandas options': repr((pd.get_option('mode.chained_assignment'), pd.get_option('display.max_rows')))}


def module_state():
    """everything the package's modules hold: plain objects, function defaults and attributes"""
    out = {}
    for name in sorted(n for n in sys.modules if n == 'geocat.comp' or n.startswith('geocat.comp.')):
        m = sys.modules[name]
        if m is None:
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith('__') and k.endswith('__') and k not in ('__doc__',) or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, types.FunctionType):
                if v.__module__ and v.__module__.startswith('geocat'):
                    cl = [describe(c.cell_contents) for c in (v.__closure__ or ()) if filled(c)]
                    out[f'{name}.{k}'] = ('function', describe(v.__defaults__), describe(v.__kwdefaults__), describe(v.__dict__), repr(cl))
            elif not isinstance(v, type):
                out[f'{name}.{k}'] = describe(v)
    return out


def filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def describe(v, depth=0):
    if isinstance(v, np.ndarray):
        return ('nd', v.dtype.str, v.shape, v.tobytes().hex() if v.dtype.kind != 'O' else repr(v.tolist()))
    if isinstance(v, (xr.DataArray, xr.Dataset)):
        return repr(v.to_dict())
    if isinstance(v, (list, tuple)) and depth < 5:
        return (type(v).__name__, [describe(x, depth + 1) for x in v])
    if isinstance(v, (dict, types.MappingProxyType)) and depth < 5:
        return ('dict', [(repr(k), describe(x, depth + 1)) for k, x in v.items()])
    if hasattr(v, 'magnitude'):
        return ('q', describe(np.asarray(v.magnitude)), str(getattr(v, 'units', '')))
    if isinstance(v, (set, frozenset)):
        return ('set', sorted(map(repr, v)))
    if isinstance(v, (int, float, str, bytes, bool, type(None), complex)):
        return repr(v)
    return type(v).__name__


def delta(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def run_op(name, args=None):
    import geocat.comp as gc
    o = O.get(name)
    a, k = args if args is not None else o['build']()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            v, ok = getattr(gc, o['fn'])(*a, **k), True
        except Exception as e:
            v, ok = e, False
    return ok, v


def result(ok, v):
    return ('ok', O.flat(v)) if ok else ('error', [('type', type(v).__name__), ('text', str(v))])


def fresh(name):
    """in a process in which nothing was called before"""
    return result(*run_op(name))


def scribble(v):
    """what a caller may do to a result"""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.kind in 'fciu':
            v[...] = -77
        b = v.base
        if isinstance(b, np.ndarray) and b.flags.writeable and b.dtype.kind in 'fciu' and v.size:
            pass
    elif isinstance(v, (xr.DataArray, xr.Dataset)):
        if isinstance(v, xr.Dataset):
            for k in list(v.data_vars):
                scribble(v[k])
        else:
            v.attrs['scribbled'] = 1
            for q in list(v.attrs.values()):
                if isinstance(q, list):
                    q.append('x')
            if v.chunks is None:
                try:
                    v.values[...] = -77
                except (ValueError, TypeError):
                    pass
        for c in list(v.coords):
            x = v.coords[c]
            x.attrs['scribbled'] = 1
            try:
                q = x.values
                if q.dtype.kind in 'fiu':
                    q[...] = -5
            except (ValueError, TypeError):
                pass
    elif isinstance(v, (list, tuple)):
        for x in v:
            scribble(x)
        if isinstance(v, list):
            v.append('scribbled')


def debruijn(n):
    """cyclic sequence over range(n) that contains every ordered pair exactly once"""
    seq = []
    for a in range(n):
        seq.append(a)
        for b in range(a + 1, n):
            seq += [a, b]
    return seq


class P(Prop):
    id = 'C01'
    oracle = 'the result of the same call in a process that has made no call before, a second identical copy of the arguments, and digests of all module and process state'
    assumptions = ['results may share memory with the arguments of their own call', 'results of a repeated call are compared to 11 digits']
    timeout = 400

    def bounds_text(self, tier):
        return (f'{len(O.OPS)} calls (quick: the containers and calendars that share a code path once) over every public function (invalid ones included): every ordered pair of consecutive calls, the caller overwriting each result '
                '(values, coordinates, attributes) before the next call, in histories of about 100 calls from a fresh process' +
                ('; every ordered triple inside each group of functions' if tier == 'thorough' else '; every triple A,B,A of calls of one function') +
                '; each call alternated with a call whose arguments differ in content only (data, coordinates, levels, weights, dates); each call on read-only, Fortran-ordered, strided, reversed, single-precision and partly missing arguments, and three times on the same arguments')

    def prepare(self, tier):
        O.warm()
        import geocat.comp  # noqa
        self.names = list(O.OPS)
        both = self.names + [n + '~' for n in self.names]
        self.base = dict(zip(both, forked.pmap(fresh, both)))

    def scenarios(self, tier):
        for n in self.names:
            yield dict(k='pure', op=n)
            for f in O.FORMS:
                yield dict(k='form', op=n, form=f)
        hn = [n for n in self.names if tier == 'thorough' or not n.endswith(('_noleap', '_list')) or n in ('hi_list', 'pr_list', 'eof_list', 'dp_list')]
        seq = debruijn(len(hn))
        seq = seq + seq[:1]
        L = len(hn)
        for i in range(0, len(seq) - 1, L):
            yield dict(k='history', ops=[hn[j] for j in seq[i:i + L + 1]])
        groups = {}
        for n in self.names:
            for t in ([next(iter(sorted(O.OPS[n]['tags'] - {'xr', 'dask'})), 'bad')] if tier == 'thorough' else [O.OPS[n]['fn']]):
                groups.setdefault(t, []).append(n)
        for t, g in sorted(groups.items()):
            if tier == 'thorough':
                for a in g:
                    yield dict(k='history', ops=[x for b in g for c in g for x in (a, b, c)])
            else:
                h = [x for a in g for b in g for x in (a, b, a)]
                yield dict(k='history', ops=h)

        # the same function on arguments that differ in content only, in every interleaved order
        groups = {}
        for n in self.names:
            groups.setdefault(O.OPS[n]['fn'], []).append(n)
        for g in groups.values():
            for a in g:
                yield dict(k='history', ops=[a, a + '~', a, a, a + '~', a + '~', a])
                h = [x for b in g if b != a for x in (a, b + '~', a + '~', b)]
                if h and (tier == 'thorough' or not a.endswith(('_noleap', '_list'))):
                    yield dict(k='history', ops=h)

    def run(self, s, R):
        viol, nc, nq, obs = forked.call(self.child, s)
        R.calls += nc
        R.compared += nq
        for x in obs:
            R.obs(x)
        for sig, msg in viol:
            R.fail(sig, msg)

    def child(self, s):
        v, obs = [], []
        nc = nq = 0
        m0 = module_state()
        a0 = ambient()

        def check_state(what):
            nonlocal m0, a0, nq
            nq += 2
            m1, a1 = module_state(), ambient()
            d = delta(m0, m1)
            if d:
                v.append(('module state changed', f'{what}: {d[:5]} {[(m0.get(k), m1.get(k)) for k in d[:1]]}'[:600]))
            e = delta(a0, a1)
            if e:
                v.append(('process state changed', f'{what}: {e} {[(a0[k][-3:] if isinstance(a0[k], list) else a0[k], a1[k][:3] if isinstance(a1[k], list) else a1[k]) for k in e[:1]]}'[:600]))
            m0, a0 = m1, a1
            obs.append(repr(len(m1)))

        def one(name, hist, args=None, sig='result depends on earlier calls'):
            nonlocal nc, nq
            nc += 1
            nq += 2
            pristine = O.flat(list(O.get(name)['build']()))
            ar = args if args is not None else O.get(name)['build']()
            ok, val = run_op(name, ar)
            res = result(ok, val)
            obs.append(repr(res[1][:3]))
            if res[0] != self.base[name][0]:
                v.append((sig, f'{name} after {hist[-3:]}: {res[0]} {res[1][:2] if res[0] == "error" else ""}, alone {self.base[name][0]}'))
            else:
                d = O.differ(res[1], self.base[name][1])
                if d:
                    v.append((sig, f'{name} after {hist[-3:]}: {d} (now / alone)'))
            d = O.differ(O.flat(list(ar)), pristine)
            if d:
                v.append(('arguments changed', f'{name}: {d} (after the call / before)'))
            return val if ok else None

        if s['k'] == 'pure':
            n = s['op']
            one(n, [])
            check_state(n)
            args = O.get(n)['build']()
            for i in range(3):
                one(n, ['itself'] * i, args=args, sig='result depends on earlier calls with the same arguments')
            check_state(n)
            ro = O.get(n)['build']()
            freeze(ro)
            one(n, ['read-only arguments'], args=ro, sig='result differs for read-only arguments')
            check_state(n)
        elif s['k'] == 'form':
            # other memory layouts, precisions and missing values: pure and repeatable
            n, f = s['op'], s['form']
            ref = result(*run_op(n, O.form(n, f)))
            pristine = O.flat(list(O.form(n, f)))
            args = O.form(n, f)
            bases = buffers(args)
            kept = [b.copy() for b in bases]
            for i in range(2):
                val = run_op(n, args)
                res = result(*val)
                nc += 1
                nq += 3
                obs.append(repr(res[1][:3]))
                d = O.differ(O.flat(list(args)), pristine) or (None if all(np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc') for x, y in zip(bases, kept)) else 'memory behind an argument')
                if d:
                    v.append(('arguments changed', f'{n} ({f}): {d} (after the call / before)'))
                d = 'success' if res[0] != ref[0] else O.differ(res[1], ref[1])
                if d:
                    v.append(('result depends on earlier calls with the same arguments', f'{n} ({f}): {d} (now / first)'))
                check_state(f'{n} ({f})')
        else:
            hist = []
            for n in s['ops']:
                val = one(n, hist)
                scribble(val)
                check_state(f'{n} after {hist[-2:]}')
                hist.append(n)
                if len(v) > 5:
                    break
        return v, nc, nq, obs


def buffers(x, out=None):
    """every array in memory behind the arguments, whole buffers of views included"""
    out = [] if out is None else out
    if isinstance(x, np.ndarray):
        while isinstance(x.base, np.ndarray):
            x = x.base
        out.append(x)
    elif isinstance(x, xr.DataArray):
        if isinstance(x.variable._data, np.ndarray):
            buffers(x.variable._data, out)
    elif isinstance(x, xr.Dataset):
        for k in x.data_vars:
            buffers(x[k], out)
    elif isinstance(x, dict):
        for k in x:
            buffers(x[k], out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            buffers(y, out)
    return out


def freeze(x):
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
    elif isinstance(x, xr.Dataset):
        for k in x.data_vars:
            freeze(x[k])
    elif isinstance(x, xr.DataArray):
        if x.chunks is None and isinstance(x.variable._data, np.ndarray):
            x.variable._data.flags.writeable = False
    elif isinstance(x, (list, tuple)):
        for y in x:
            freeze(y)
    elif isinstance(x, dict):
        for y in x.values():
            freeze(y)


PROP = P()
