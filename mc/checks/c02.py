"""C02 two calls in two threads: every schedule with few preemptions, under a controlled scheduler"""
import os, sys, threading, warnings
import numpy as np, xarray as xr
from ..core import Prop
from .. import ops as O
from .c01 import ambient, module_state, delta, result
from .c03 import SMALL

TINY = {}


def tiny(name, fn, build):
    TINY[name] = dict(fn=fn, build=build, ok=True, tags={'vert'})


def tinycol(chunk=False):
    d, ps, a, b = O.column()
    d, ps = d.isel(time=slice(0, 1), x=slice(0, 1)), ps.isel(time=slice(0, 1), x=slice(0, 1))
    return (d.chunk({'lev': 2}) if chunk else d, ps, a, b)


def tinysig():
    a, k = O.OPS['s2h']['build']()
    return tuple(x.isel(time=slice(0, 1), x=slice(0, 1)) if 'time' in x.dims else x for x in a), dict(k, lev_dim='lev')


tiny('t_s2h', 'interp_sigma_to_hybrid', tinysig)
tiny('t_i2p_dask', 'interp_hybrid_to_pressure', lambda: (tinycol(True), {'new_levels': O.LV(), 'lev_dim': 'lev'}))
tiny('t_i2p', 'interp_hybrid_to_pressure', lambda: (tinycol(), {'new_levels': O.LV(), 'lev_dim': 'lev'}))
tiny('t_i2p_x', 'interp_hybrid_to_pressure', lambda: (tinycol(), {'new_levels': np.array([30000., 110000.]), 'lev_dim': 'lev', 'extrapolate': True, 'variable': 'other'}))
COLUMNWISE = ('s2h', 't_s2h', 'i2p_dask', 't_i2p_dask')

TWO = ['hi_np', 'hi_list', 'rh_np', 'rh_xr', 'rhi_np', 'rhi_list', 'rhw_np', 'rhw_list', 'dew_np', 'dew_xr', 'svp_np', 'svp_xr', 'slope_np', 'psy_np', 'psy_xr', 'asvp_xr', 'day_np',
       'ff_low', 'ff_high_xr', 'ff_block', 'ff_pass_xr', 'ff_all', 'grad_np', 'grad_xr', 'pah_np', 'pah', 'dph_np', 'dph_mix', 'dp', 'dp_list', 'sph_dec', 'sph_rec', 'sph_vor', 'pr_np',
       'pr_list', 'pr_xr', 't_s2h', 't_i2p', 't_i2p_x', 't_i2p_dask', 'i2p_bad', 'hi_bad', 'rhi_bad', 'dp_bad', 'stub']
QUICK1 = ('t_i2p_dask', 't_i2p_x', 'grad_xr')  # two preemptions in the thorough tier only
HEAVY = ('psi', 'psi_hyb', 'nmse', 'nmse_ds', 'hi_dask', 'cal_ds')


def opx(n):
    return TINY[n] if n in TINY else O.OPS[n]


def build(n, variant):
    """the arguments of a call; the variant has other data of the same kind"""
    if not variant:
        return opx(n)['build']()
    return O.alt(n, opx(n)['build'])


PROBES = ['cal_month_np', 'clim_month_np' if 'clim_month_np' in O.OPS else 'clim_season_np', 'clim_season_np', 'anom_month_np', 'mts_np', 'ff_low', 'ff_high_xr', 'grad_xr', 'grad_np', 'i2p', 'i2p_temperature',
          's2h', 'multi', 'multi_mv', 'pah', 'pah_np', 'dph', 'hi_np', 'hi_xr', 'rh_np', 'rh_xr', 'rhi_np', 'rhw_xr', 'dew_xr', 'svp_np', 'svp_xr', 'slope_xr', 'psy_xr', 'asvp_xr', 'day_np', 'dp', 'dp_xr',
          'sph_dec', 'sph_rec_xr', 'sph_vor', 'nmse', 'pr_np', 'pr_xr', 'eof_np', 'eof_xr', 'pcs_xr', 'hi_bad', 'clim_bad']


def quick_state():
    """what one thread can change for another: cheap parts of the process state, and what the modules hold"""
    return (tuple(map(id, warnings.filters)), tuple(sorted((k, repr(v)) for k, v in xr.get_options().items())), repr(np.get_printoptions()), len(os.environ),
            hash(repr(module_state())))


class Sched:
    """two real threads, one runs at a time; the running thread may be preempted before any line of the package"""

    def __init__(self, root):
        self.root = root
        self.scan = None

    def run(self, fns, plan, first=0):
        """plan: list of line numbers (events of the running thread) at which it is preempted, in turn"""
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.count = [0, 0]
        self.plan = list(plan)
        self.fired = 0
        self.trace = [[], []]
        self.out = [None, None]
        self.stuck = False
        th = [threading.Thread(target=self.body, args=(i, fns[i]), daemon=True) for i in (0, 1)]
        for t in th:
            t.start()
        self.sem[first].release()
        for t in th:
            t.join(60)
            if t.is_alive():
                self.stuck = True
                return False
        return True

    def body(self, i, fn):
        self.sem[i].acquire()
        root = self.root

        def local(frame, event, arg):
            if event == 'line':
                self.trace[i].append((frame.f_code.co_filename[len(root):], frame.f_lineno))
                self.count[i] += 1
                if self.scan is not None:
                    self.scan.append(quick_state())
                if self.plan and self.plan[0] == self.count[i] and not self.done[1 - i]:
                    self.plan.pop(0)
                    self.fired += 1
                    self.sem[1 - i].release()
                    self.sem[i].acquire()
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(root) else None
        try:
            sys.settrace(glob)
            try:
                self.out[i] = (True, fn())
            except Exception as e:
                self.out[i] = (False, e)
            finally:
                sys.settrace(None)
        finally:
            self.done[i] = True
            self.sem[1 - i].release()


def points(trace, cap):
    """line events that are at most the cap-th visit of their line"""
    seen, out = {}, []
    for i, l in enumerate(trace, 1):
        seen[l] = seen.get(l, 0) + 1
        if seen[l] <= cap:
            out.append(i)
    return out


class P(Prop):
    id = 'C02'
    oracle = 'the result of each call when it runs alone, and the process state before the calls'
    assumptions = ['a thread is preempted only between lines of the package (never inside numpy, xarray or dask)', 'dask runs its tasks in the calling thread']
    timeout = 800

    def bounds_text(self, tier):
        return ('two threads, each making one catalogue call: the same function on different data, on the same argument objects, and with different options; '
                + ('one preemption before any line (first two visits) and a second one for the calls that run in a few milliseconds (first visit of each line)' if tier == 'quick' else
                   'one preemption before any line (first six visits), all pairs of calls in one area; two preemptions before any line (first two visits)'))

    def prepare(self, tier):
        O.warm()
        import geocat.comp as gc
        self.root = os.path.dirname(os.path.realpath(gc.__file__)) + os.sep

    def scenarios(self, tier):
        names = [n for n in O.OPS if tier == 'thorough' or not (n.endswith('_noleap') and n != 'clim_season_noleap')]
        groups = {}
        for n in names:
            groups.setdefault(O.OPS[n]['fn'], []).append(n)
        cap1, cap2 = (2, 1) if tier == 'quick' else (6, 2)
        for n in names:
            heavy = n in HEAVY
            for mode in ('variant', 'shared'):
                if tier == 'quick' and (mode == 'shared' and (heavy or 'clim' in O.OPS[n]['tags'] and n[-2:] != 'np') or n == 'psi_hyb'):
                    continue
                of = 1 if not heavy else 16 if n.startswith('psi') else 4
                for part in range(of):
                    yield dict(a=n, b=n, mode=mode, bound=1, cap=1 if (mode == 'shared' or heavy or O.OPS[n]['tags'] & {'clim', 'xr'}) and tier == 'quick' else cap1, col=n.startswith(COLUMNWISE), part=part, of=of)
        for g in groups.values():
            if len(g) > 1:
                for i, n in enumerate(g):
                    m = g[(i + 1) % len(g)]
                    if tier == 'quick' and (n in HEAVY or m in HEAVY):
                        continue
                    yield dict(a=n, b=m, mode='cross', bound=1, cap=1 if tier == 'quick' else cap1, col=n.startswith(COLUMNWISE) and m.startswith(COLUMNWISE), part=0, of=1)
        if tier == 'thorough':
            tags = {}
            for n in names:
                for t in O.OPS[n]['tags'] - {'xr', 'dask'}:
                    tags.setdefault(t, []).append(n)
            for g in tags.values():
                for n in g:
                    for m in g:
                        if O.OPS[n]['fn'] != O.OPS[m]['fn'] and m not in HEAVY and n not in HEAVY:
                            yield dict(a=n, b=m, mode='cross', bound=1, cap=1, col=n.startswith(COLUMNWISE) and m.startswith(COLUMNWISE), part=0, of=1)
        for n in names + list(TINY):
            for part in range(4 if n in HEAVY else 1):
                yield dict(k='critical', a=n, col=n.startswith(COLUMNWISE), part=part, of=4 if n in HEAVY else 1)
        two = [n for n in TWO if n not in QUICK1] if tier == 'quick' else [n for n in TWO + names if n not in HEAVY]
        for n in dict.fromkeys(two):
            of = 4 if tier == 'quick' else 16
            for part in range(of):
                yield dict(a=n, b=n, mode='variant', bound=2, cap=cap2 if tier == 'quick' or n in TWO else 1, col=n.startswith(COLUMNWISE), part=part, of=of)

    def critical(self, s, R):
        """preempt a call wherever the state of the process differs from what it was before the call, and run a probe of every function there"""
        import geocat.comp as gc
        n = s['a']
        fn = getattr(gc, opx(n)['fn'])
        A = build(n, False)
        S = Sched(self.root)
        S.run([lambda: fn(*A[0], **A[1]), lambda: None], [])   # what stays after the call is not a matter of schedules
        A = build(n, False)
        S = Sched(self.root)
        S.scan = [quick_state()]
        if not S.run([lambda: fn(*A[0], **A[1]), lambda: None], []):
            return R.fail('no result', 'the call alone does not end')
        alone = result(*S.out[0])
        tr = S.trace[0]
        # without the trace of states the same lines run
        crit = [i for i, st in enumerate(S.scan[1:], 1) if st != S.scan[0]]
        first = {}
        for i in crit:
            first.setdefault((tr[i - 1], repr(S.scan[i])), []).append(i)
        pts = sorted(j for v in first.values() for j in v[:1])[s['part']::s['of']][:60]
        R.obs(f'{len(tr)} lines, {len(crit)} with changed state, {len(pts)} tried')
        R.calls += 1
        R.compared += len(tr)
        if not pts:
            return
        probes = {}
        for m in PROBES + [m for m in O.OPS if O.OPS[m]['fn'] == opx(n)['fn']]:
            if m not in HEAVY:
                f, (a, k) = getattr(gc, O.OPS[m]['fn']), build(m, True)
                v = S2 = Sched(self.root)
                S2.run([lambda: f(*a, **k), lambda: None], [])
                probes[m] = (f, result(*S2.out[0]))
        a0 = ambient()
        for m, (f, ref) in probes.items():
            for i in pts:
                A, B = build(n, False), build(m, True)
                S = Sched(self.root)
                if not S.run([lambda: fn(*A[0], **A[1]), lambda: f(*B[0], **B[1])], [i], 0):
                    return R.fail('deadlock', f'{n} preempted at {tr[i - 1]} by {m}')
                R.calls += 2
                for w, got, exp in ((n, result(*S.out[0]), alone), (m, result(*S.out[1]), ref)):
                    R.compared += 1
                    d = f'{got[0]}' if got[0] != exp[0] else O.differ(got[1], exp[1])
                    if d:
                        R.fail('result depends on the schedule', f'{w}: {d} (in threads / alone), {n} preempted at {tr[i - 1]} by {m}')
                if len(R.viol) > 3:
                    return
        # overlap of two such sections, each left in the other order
        B = build(n, True) if n not in TINY else build(n, False)
        S = Sched(self.root)
        S.run([lambda: fn(*B[0], **B[1]), lambda: None], [])
        other = result(*S.out[0])
        q = points(S.trace[0], 1)
        lines = {tr[i - 1] for i in pts}
        near = [j for j in q if S.trace[0][j - 1] in lines]
        for i in pts[:20]:
            for j in near[:20]:
                A, B = build(n, False), build(n, True) if n not in TINY else build(n, False)
                base = list(warnings.filters)
                S = Sched(self.root)
                if not S.run([lambda: fn(*A[0], **A[1]), lambda: fn(*B[0], **B[1])], [i, j], 0):
                    return R.fail('deadlock', f'{n} with itself')
                R.calls += 2
                R.compared += 3
                for w, got, exp in (('a', result(*S.out[0]), alone), ('b', result(*S.out[1]), other)):
                    d = f'{got[0]}' if got[0] != exp[0] else O.differ(got[1], exp[1])
                    if d:
                        R.fail('result depends on the schedule', f'{w}: {d} (in threads / alone), {n} twice, preempted at {tr[i - 1]}, {j}')
                self.filters(R, base, n, f'{tr[i - 1]}, {j}')
                d = delta(a0, ambient())
                if d:
                    return R.fail('process state changed', f'{d} after two {n}, preempted at {tr[i - 1]}, {j}')

    def filters(self, R, base, ops, where):
        if list(warnings.filters) == base:
            return
        new = [f for f in warnings.filters if f not in base]
        if 'dask' in ops:
            new = [f for f in new if f[1:3] != (None, RuntimeWarning)]  # dask.array.utils.compute_meta has its own catch_warnings
        msg = getattr(new[0][1], 'pattern', None) if new else None if 'dask' in ops else 'filters lost'
        warnings.filters[:] = base
        warnings._filters_mutated()
        if msg and not any(v['sig'].endswith(msg) for v in R.viol):
            R.fail(f'process warning filters changed: {msg}', f'left behind after both calls returned, preempted at {where}')

    def run(self, s, R):
        import geocat.comp as gc
        if s.get('k') == 'critical':
            return self.critical(s, R)
        va, vb = s['mode'], s['mode'] == 'variant'
        fa, fb = getattr(gc, opx(s['a'])['fn']), getattr(gc, opx(s['b'])['fn'])
        S = Sched(self.root)
        res = lambda o: result(*o)

        def fresh():
            A = build(s['a'], False)
            B = A if s['mode'] == 'shared' else build(s['b'], vb)
            return A, B
        A, B = fresh()
        sa, sb = O.flat(list(A)), O.flat(list(B))
        alone = []
        tr = []
        for f, (a, k) in ((fa, A), (fb, build(s['b'], vb))):
            if not S.run([lambda: f(*a, **k), lambda: None], []):
                return R.fail('no result', 'the call alone does not end')
            alone.append(res(S.out[0]))
            tr.append(S.trace[0])
            R.calls += 1
        p = [points(t, s['cap']) for t in tr]
        m0, a0 = module_state(), ambient()
        base = list(warnings.filters)
        n = 0
        seen = set()

        def check(plan, first):
            nonlocal n
            n += 1
            A, B = fresh()
            fns = [lambda: fa(*A[0], **A[1]), lambda: fb(*B[0], **B[1])]
            if not S.run(fns, plan, first):
                return R.fail('deadlock', f'preempted at {self.where(tr, plan, first)}')
            R.calls += 2
            for i in (0, 1):
                got = res(S.out[i])
                R.compared += 1
                d = f'{got[0]} {got[1][:2] if got[0] == "error" else ""}' if got[0] != alone[i][0] else O.differ(got[1], alone[i][1])
                if d:
                    R.fail('result depends on the schedule', f'{s["ab"[i]]}: {d} (in threads / alone) preempted at {self.where(tr, plan, first)}')
            for x, y in ((A, sa), (B, sb)):
                d = O.differ(O.flat(list(x)), y)
                if d:
                    R.fail('arguments changed', f'{d}; preempted at {self.where(tr, plan, first)}')
            if list(warnings.filters) != base:
                new = [f for f in warnings.filters if f not in base]
                if 'dask' in s['a'] + s['b']:
                    new = [f for f in new if f[1:3] != (None, RuntimeWarning)]  # dask.array.utils.compute_meta has its own catch_warnings
                    if not new:
                        warnings.filters[:] = base
                        warnings._filters_mutated()
                        return
                msg = getattr(new[0][1], 'pattern', None) if new else 'filters lost'
                warnings.filters[:] = base
                warnings._filters_mutated()
                seen.add(msg)
                if seen == {msg} and sum(v['sig'].startswith('process warning') for v in R.viol) == 0:
                    R.fail(f'process warning filters changed: {msg}', f'left behind after both calls returned, preempted at {self.where(tr, plan, first)}')

        firsts = (0,) if s['a'] == s['b'] or s['mode'] == 'cross' and s['cap'] == 1 else (0, 1)
        for first in firsts:
            todo = p[first][s['part']::s['of']]
            for i in todo:
                if s['bound'] == 1:
                    check([i], first)
                else:
                    for j in p[1 - first]:
                        check([i, j], first)
                if len(R.viol) > 4:
                    break
        # replaying a schedule gives the same run
        if todo:
            check([todo[-1]], firsts[-1])
            t1 = [list(x) for x in S.trace]
            check([todo[-1]], firsts[-1])
            if t1 != S.trace and not R.viol:
                R.fail('result depends on the schedule', 'the same schedule takes another path the second time')
        m1, a1 = module_state(), ambient()
        d = delta(m0, m1) + delta(a0, a1)
        if d:
            R.fail('state changed', f'{d[:5]}')
        R.obs(f'{n} {len(tr[0])} {len(tr[1])}')
        for k, v in alone:
            R.obs(k + repr(v[:4]))

    def where(self, tr, plan, first):
        out, t = [], first
        for i in plan:
            try:
                out.append('%s:%d' % tr[t][i - 1])
            except IndexError:
                out.append(str(i))
            t = 1 - t
        return out


PROP = P()
