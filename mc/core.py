"""Bounded exhaustive explorer used by every check.

A property is a finite tree of *scenarios* (an alphabet of operations and argument
domains, enumerated completely within the bounds of the tier) and a `run` function which
drives the real geocat.comp code through one scenario and compares every step with a
reference model written independently of geocat.comp.

Nothing is sampled: `scenarios(tier)` is a plain generator over the declared product and
every element of it is executed.
"""
import hashlib, io, itertools, json, math, os, signal, sys, time, traceback, warnings
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def load_code():
    """import the code under test from /repo's working tree, never from elsewhere"""
    import geocat.comp as gc
    f = os.path.realpath(gc.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f'geocat.comp imported from {f}, not from {REPO}')
    return gc


class ScenarioTimeout(Exception):
    pass


class Outcome:
    __slots__ = ('ok', 'value', 'exc', 'warns')

    def __init__(self, ok, value, exc, warns=()):
        self.ok, self.value, self.exc, self.warns = ok, value, exc, warns

    def __repr__(self):
        return 'ok' if self.ok else f'{type(self.exc).__name__}: {str(self.exc)[:160]}'


class Rec:
    """records one scenario's run: calls, observations, violations"""

    def __init__(self, scn):
        self.scn = scn
        self.calls = 0
        self.compared = 0
        self.viol = []
        self.h = hashlib.blake2b(digest_size=12)
        self.steps = 0

    # -- driving the real code
    def call(self, fn, *a, **k):
        self.calls += 1
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                v = fn(*a, **k)
                o = Outcome(True, v, None, w)
            except ScenarioTimeout:
                raise
            except SystemExit as e:
                o = Outcome(False, None, e, w)
            except Exception as e:
                o = Outcome(False, None, e, w)
        self.obs('ok' if o.ok else type(o.exc).__name__)
        return o

    # -- observations make the state digest
    def obs(self, x):
        self.h.update(digest_bytes(x))

    # -- oracle
    def fail(self, sig, msg):
        self.viol.append({'sig': sig, 'msg': str(msg)[:1500]})

    def value(self, o, sig):
        """the call must have returned"""
        if not o.ok:
            self.fail(sig + ':raised', f'{type(o.exc).__name__}: {str(o.exc)[:300]}')
            return None
        return o.value

    def raises(self, o, sig, types=(Exception,)):
        self.compared += 1
        if o.ok:
            self.fail(sig + ':accepted', f'returned {brief(o.value)} instead of raising')
        elif not isinstance(o.exc, types):
            self.fail(sig + ':wrong-error', f'raised {type(o.exc).__name__}: {str(o.exc)[:200]}')

    def close(self, got, exp, sig, rtol=1e-9, atol=0.0, alt=None, skip=None):
        """shape, NaN pattern and values of got equal the model's"""
        import numpy as np
        self.compared += 1
        try:
            g = np.asarray(got, dtype=float) if not np.iscomplexobj(got) else np.asarray(got)
        except Exception as e:
            self.fail(sig + ':not-numeric', f'{type(got).__name__}: {e}')
            return False
        e = np.asarray(exp, dtype=float) if not np.iscomplexobj(exp) else np.asarray(exp)
        self.obs(g)
        if np.iscomplexobj(g) and not np.iscomplexobj(e):
            self.fail(sig + ':complex', f'got {g.dtype} where numbers are real')
            return False
        if g.shape != e.shape:
            self.fail(sig + ':shape', f'got shape {g.shape}, model {e.shape}')
            return False
        bad = ~_eq(g, e, rtol, atol)
        if alt is not None:
            bad &= ~_eq(g, np.broadcast_to(np.asarray(alt, float), e.shape), rtol, atol)
        if skip is not None:
            bad &= ~np.broadcast_to(np.asarray(skip, bool), bad.shape)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            self.fail(sig, f'at {i}: got {g[i]!r}, model {e[i]!r} ({int(bad.sum())}/{bad.size} differ)')
            return False
        return True

    def equal(self, got, exp, sig):
        self.compared += 1
        self.obs(repr(got))
        if got != exp:
            self.fail(sig, f'got {got!r}, model {exp!r}')
            return False
        return True

    def true(self, cond, sig, msg=''):
        self.compared += 1
        if not cond:
            self.fail(sig, msg)
        return bool(cond)


def _eq(g, e, rtol, atol):
    import numpy as np
    with np.errstate(all='ignore'):
        d = np.abs(g - e)
        ok = d <= atol + rtol * np.abs(e)
    ok |= (np.isnan(g) & np.isnan(e))
    ok |= (g == e)
    return ok


def brief(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'


def digest_bytes(x):
    import numpy as np
    if isinstance(x, bytes):
        return x
    if isinstance(x, str):
        return x.encode()
    if isinstance(x, np.ndarray) and x.dtype.kind in 'fc':
        with np.errstate(all='ignore'):
            return (str(x.shape) + ' '.join('%.7g' % v if x.dtype.kind == 'f' else '%.7g,%.7g' % (v.real, v.imag)
                                            for v in x.ravel()[:4000])).encode()
    return repr(x).encode()


# ---------------------------------------------------------------- enumeration helpers
def product(**domains):
    """all assignments, first domain slowest; simplest values first"""
    keys = list(domains)
    for vals in itertools.product(*[domains[k] for k in keys]):
        yield dict(zip(keys, vals))


def gen(shape, salt=0, lo=0.0, hi=1.0, dtype=float):
    """deterministic generic values: no ties, no special structure"""
    import numpy as np
    n = int(np.prod(shape)) if len(shape) else 1
    k = np.arange(1, n + 1, dtype=np.float64)
    u = np.mod(k * 0.6180339887498949 + salt * 0.7548776662466927 + np.mod(k * k * 0.5698402909980532, 1.0) * 0.31, 1.0)
    a = (lo + (hi - lo) * u).reshape(shape)
    return a.astype(dtype)


# ---------------------------------------------------------------- property base
class Prop:
    id = None
    title = ''
    level = 'model_checking'
    bounds = ''
    oracle = ''
    assumptions = []
    exhaustive = True
    timeout = 120

    def scenarios(self, tier):
        raise NotImplementedError

    def run(self, scn, R):
        raise NotImplementedError

    def prepare(self, tier):
        pass

    def finish(self, tier, stats):
        """extra evidence keys"""
        return {}


def run_scn(prop, scn):
    R = Rec(scn)

    def onalarm(*_):
        raise ScenarioTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, prop.timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            prop.run(scn, R)
    except ScenarioTimeout:
        R.fail('timeout', f'no result after {prop.timeout} s')
    except Exception:
        R.fail('model-mismatch', 'the result could not be compared with the model: ' + traceback.format_exc()[-900:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return R


_P = None
_S = None


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


def _chunk(idx):
    out = sys.stdout
    sys.stdout = _Null()
    try:
        res = []
        for i in idx:
            R = run_scn(_P, _S[i])
            res.append((i, R.h.hexdigest(), R.calls, R.compared, R.viol))
            if len([1 for r in res if r[4]]) >= 25:
                break
        return res
    finally:
        sys.stdout = out


def canon(scn):
    return json.dumps(scn, sort_keys=True, default=str)


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        d = json.load(open(p))
    except FileNotFoundError:
        return []
    return [k for k in d.get('known', []) if k['property'] == pid]


def main(prop, tier, seed, replay=None):
    global _P, _S
    t0 = time.time()
    load_code()
    prop.prepare(tier)
    if replay:
        rp = json.load(open(replay))
        R = run_scn(prop, rp['scenario'])
        print(json.dumps({'scenario': rp['scenario'], 'violations': R.viol}, indent=1, default=str))
        return 1 if R.viol else 0

    S = list(prop.scenarios(tier))
    distinct = len({canon(s) for s in S})
    _P, _S = prop, S
    nw = int(os.environ.get('VERIF_WORKERS', min(8, os.cpu_count() or 1)))
    n = len(S)
    size = max(1, min(32, n // (nw * 20) or 1))
    # strided chunks: every chunk sees the whole breadth of the product
    nchunks = max(1, math.ceil(n / size))
    chunks = [list(range(c, n, nchunks)) for c in range(nchunks)]
    results, broken, stopped = [], None, False
    known = known_findings(prop.id)
    if nw == 1:
        for c in chunks:
            results += _chunk(c)
    else:
        from concurrent.futures import ProcessPoolExecutor, as_completed
        from concurrent.futures.process import BrokenProcessPool
        with ProcessPoolExecutor(nw, mp_context=mp.get_context('fork')) as ex:
            futs = {ex.submit(_chunk, c): c for c in chunks}
            try:
                bad = 0
                for f in as_completed(futs):
                    r = f.result()
                    results += r
                    bad += sum(any(not any(matches(k, v, S[x[0]]) for k in known) for v in x[4]) for x in r)
                    if bad >= 12 or bad and time.time() - t0 > 400:
                        stopped = True  # enough has been found
                        ex.shutdown(wait=True, cancel_futures=True)
                        break
            except BrokenProcessPool:
                broken = 'a worker process died while running the code under test'
    results.sort()
    states = {h for _, h, _, _, _ in results}
    trans = sum(r[2] for r in results)
    comps = sum(r[3] for r in results)
    ksig = {}
    viols = []
    for i, h, c, m, vs in results:
        for v in vs:
            k = next((k for k in known if matches(k, v, S[i])), None)
            if k is not None:
                ksig.setdefault(k['key'], (k, i))
            else:
                viols.append((i, v))
    if broken:
        viols.append((0, {'sig': 'worker-died', 'msg': broken}))
    # completed chunks may have stopped early after many violations
    for k, i in ksig.values():
        print(f"KNOWN-FINDING: property={prop.id} {k['what']}")
    shown = {}
    for i, v in viols:
        shown.setdefault(v['sig'], (i, v))
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for sig, (i, v) in list(shown.items())[:5]:
        path = os.path.join(VERIF, 'replays', f"{prop.id}-{hashlib.sha1((sig + canon(S[i])).encode()).hexdigest()[:10]}.json")
        again = [x['sig'] for x in run_scn(prop, S[i]).viol] if not broken else []
        json.dump({'property': prop.id, 'scenario': S[i], 'violation': v, 'reproduced_alone': sig in again,
                   'replay_cmd': f'bash run.sh {prop.id} --replay {path}'}, open(path, 'w'), indent=1, default=str)
        print(f'  scenario {canon(S[i])[:600]}')
        print(f"  {v['sig']}: {v['msg']}")
        print(f'VIOLATION property={prop.id} replay={path}')
    wall = time.time() - t0
    idx = [0, n // 3, (2 * n) // 3] if n else []
    byi = {r[0]: r for r in results}
    samples = [{'scenario': S[i], 'real_calls': byi[i][2], 'comparisons': byi[i][3], 'outcome_digest': byi[i][1]}
               for i in dict.fromkeys(idx) if i in byi]
    cov = {'states': len(states), 'transitions': trans, 'traces_validated_against_impl': len(results),
           'scenarios_enumerated': n, 'distinct_scenarios': distinct, 'model_comparisons': comps,
           'samples': samples, 'bounds': prop.bounds_text(tier) if hasattr(prop, 'bounds_text') else prop.bounds,
           'oracle': prop.oracle, 'exhaustive': bool(prop.exhaustive and len(results) == n),
           'rule': 'every scenario of the declared product is executed on the real code; a state is a distinct '
                   'digest of everything observed along one scenario (outcomes, values), a transition is one '
                   'call of the public API, a validated trace is one scenario compared step by step with the model',
           'known_findings_seen': sorted(ksig)}
    cov.update(prop.finish(tier, results) or {})
    ev = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': prop.level, 'coverage': cov,
          'assumptions': list(prop.assumptions), 'wall_s': round(wall, 2), 'violations': len(viols)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop.id}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop.id} {tier}: scenarios={n} states={len(states)} transitions={trans} comparisons={comps} "
          f"violations={len(viols)} wall={wall:.1f}s")
    return 1 if viols else 0


def matches(k, v, scn):
    if k['sig'] != v['sig']:
        return False
    return all(scn.get(a) == b for a, b in k.get('scenario', {}).items())
